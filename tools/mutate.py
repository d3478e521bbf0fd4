"""Mutation campaign: python3 tools/mutate.py OUT.jsonl PER_LINES [SEED] [FILE_SUBSTRING...]
Small changes of the sources (about one per PER_LINES lines, chosen at random), kept when the existing tests
pass; each kept one is then run against the checks of its part until one of them reports it.  What none reports
is to be read by hand: it is either no change in behaviour, or something the specification does not yet say."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, glob
R = "/verif"
PARTS = [("formats/android", ["C21", "C30", "C23"]), ("formats/xliff", ["C22", "C30"]), ("formats/properties", ["C15", "C30"]), ("formats/dtd", ["C16", "C30"]), ("formats/inc", ["C17", "C30"]), ("formats/ini", ["C17", "C30"]),
         ("formats/gettext", ["C18", "C30"]), ("formats/plain_json", ["C19", "C30"]), ("formats/webext", ["C19", "C30"]), ("formats/fluent", ["C20", "C30", "C25"]), ("formats/mf2/to_json", ["C25"]), ("formats/mf2/from_json", ["C25"]), ("formats/mf2", ["C23", "C24"]),
         ("formats/__init__", ["C28", "C30"]), ("bin/build", ["C04", "C05"]), ("bin/compare", ["C06"]), ("bin/fix", ["C07"]), ("bin/lint", ["C08"]), ("bin/migrate", ["C03"]), ("bin/utils", ["C06", "C07", "C08", "C04", "C28", "C13"]), ("migrate/", ["C03", "C02", "C01"]),
         ("add_entries", ["C09"]), ("l10n_equal", ["C10"]), ("paths/config", ["C11"]), ("paths/discover", ["C12"]), ("android_locale", ["C14"]), ("walk_files", ["C13"]), ("util/normalize", ["C26", "C23", "C27"]), ("printf", ["C26"]), ("loads", ["C19", "C28"]),
         ("message/to_json", ["C25"]), ("message/from_json", ["C25"]), ("message/", ["C28", "C30", "C25"]), ("resource/", ["C28", "C29", "C30"]), ("model", ["C27", "C10", "C25"])]


def mutants(src):
    lines = src.encode().split(b"\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x) + 1)
    pos = lambda l, c: off[l - 1] + c
    b = src.encode()
    tree = ast.parse(src)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                doc.add(m)
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            for m in ast.walk(n.annotation):
                doc.add(m)
        if isinstance(n, ast.FunctionDef) and n.returns:
            for m in ast.walk(n.returns):
                doc.add(m)
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()

    def rep(n, new):
        out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new))
    OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    ATTR = {"startswith": "endswith", "endswith": "startswith", "strip": "lstrip", "lstrip": "strip", "rstrip": "strip", "find": "rfind", "rfind": "find", "append": "remove", "values": "keys", "match": "search", "fullmatch": "match", "search": "match", "lower": "strip", "split": "rsplit", "partition": "rpartition", "extend": "append"}
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{seg(n.left)} {OPS[type(n.ops[0])]} {seg(n.comparators[0])}")
        elif isinstance(n, ast.BoolOp):
            j = [" or ", " and "][isinstance(n.op, ast.Or)]
            rep(n, "(" + j.join("(" + seg(v) + ")" for v in n.values) + ")")
            for i in range(len(n.values)):
                vs = [seg(v) for k, v in enumerate(n.values) if k != i]
                rep(n, "(" + (" or " if isinstance(n.op, ast.Or) else " and ").join("(" + v + ")" for v in vs) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({seg(n.operand)})")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, f"(not ({seg(n.test)}))")
            if isinstance(n, ast.If):
                rep(n.test, "False")
                rep(n.test, "True")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            rep(n, str(n.value + 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and not seg(n).startswith("f") and seg(n)[:1] in "\"'r":
            if n.value:
                rep(n, repr(n.value[:-1]))
                if len(n.value) > 1:
                    rep(n, repr(n.value[1:]))
            else:
                rep(n, "'q'")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ATTR:
                e = pos(n.func.end_lineno, n.func.end_col_offset)
                out.append((e - len(n.func.attr), e, ATTR[n.func.attr]))
            for i in range(len(n.keywords)):
                a = [seg(x) for x in n.args] + [seg(k) for j, k in enumerate(n.keywords) if j != i]
                rep(n, f"{seg(n.func)}({', '.join(a)})")
            if len(n.args) > 1 and isinstance(n.func, ast.Name):
                rep(n, f"{seg(n.func)}({', '.join([seg(x) for x in n.args[:-1]] + [seg(k) for k in n.keywords])})")
        elif isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign):
            rep(n, "pass")
        elif isinstance(n, ast.Continue):
            rep(n, "break")
        elif isinstance(n, ast.Break):
            rep(n, "pass")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, "return None")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            rep(n, seg(n.left)); rep(n, seg(n.right))
        elif isinstance(n, ast.Raise):
            pass
        elif isinstance(n, (ast.Set, ast.Tuple, ast.List)) and isinstance(n.ctx if not isinstance(n, ast.Set) else ast.Load(), ast.Load) and len(n.elts) > 2:
            for i in range(len(n.elts)):
                es = [seg(x) for k, x in enumerate(n.elts) if k != i]
                o, c = {ast.Set: "{}", ast.Tuple: "()", ast.List: "[]"}[type(n)]
                if seg(n)[0] == o:
                    rep(n, o + ", ".join(es) + c)
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            rep(n, "pass")
    res = []
    for a, z, new in out:
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            compile(t, "x", "exec")
        except SyntaxError:
            continue
        l = b[:a].count(b"\n") + 1
        res.append({"line": l, "old": b[a:z].decode()[:160], "new": new[:160], "a": a, "z": z, "full": new})
    return res


def dull(src, m):
    """texts and logs"""
    l = src.split("\n")[m["line"] - 1].strip()
    o = m["old"]
    return o.startswith('"""') or any(l.startswith(x) for x in ("log.", "click.", "help=", "metavar=", "if __name__", "@click", "@overload")) or o.startswith(("log.", "click.echo")) or "__main__" in o or "help=" in l


def main():
    outf, per, seed, subs = sys.argv[1], int(sys.argv[2]), int((sys.argv + ["1"])[3]) if len(sys.argv) > 3 else 1, sys.argv[4:]
    rng = random.Random(seed)
    todo = []
    base = "/repo/python/moz/l10n/"
    done = set()
    if os.path.exists(outf):
        for x in open(outf):
            x = json.loads(x)
            done.add((x["file"], x["a"], x["z"], x["full"]))
    for f in sorted(glob.glob(base + "**/*.py", recursive=True)):
        rel = f[len(base):]
        if subs and not any(s in rel for s in subs):
            continue
        src = open(f).read()
        ms = mutants(src)
        k = min(len(ms), src.count("\n") // per)
        for m in rng.sample(ms, k):
            m["file"] = rel
            if dull(src, m):
                continue
            if (rel, m["a"], m["z"], m["full"]) not in done:
                todo.append(m)
    rng.shuffle(todo)
    todo.sort(key=lambda m: "migrate" in m["file"])
    print(len(todo), "mutants", flush=True)
    tq, cq, lock = queue.Queue(), queue.Queue(), threading.Lock()
    for m in todo:
        tq.put(m)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    stats = {"killed": 0, "caught": 0, "missed": 0}
    stop = threading.Event()

    def tree():
        w = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
        return w

    def put(w, m):
        p = f"{w}/python/moz/l10n/{m['file']}"
        s = open(base + m["file"], "rb").read()
        open(p, "wb").write(s[:m["a"]] + m["full"].encode() + s[m["z"]:])
        return lambda: open(p, "wb").write(s)

    def record(m):
        with lock, open(outf, "a") as f:
            f.write(json.dumps(m) + "\n")

    def tester():
        w = tree()
        while True:
            try:
                m = tq.get_nowait()
            except queue.Empty:
                break
            undo = put(w, m)
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=f"{w}/python", capture_output=True, env=dict(env, PYTHONPATH=f"{w}/python"), timeout=150).returncode
            except subprocess.TimeoutExpired:
                r = 99
            undo()
            if r:
                m["state"] = "killed"
                stats["killed"] += 1
                record(m)
            else:
                cq.put(m)
        shutil.rmtree(w)

    def checker():
        w = tree()
        while True:
            try:
                m = cq.get(timeout=5)
            except queue.Empty:
                if stop.is_set():
                    break
                continue
            undo = put(w, m)
            props = next((ps for s, ps in PARTS if s in m["file"]), ["C28", "C30"])
            m["state"] = "missed"
            m["tried"] = props
            for p in props:
                try:
                    r = subprocess.run(["timeout", "600", "./check", p], cwd=R, capture_output=True, text=True, env=dict(env, VERIF_REPO=w, VERIF_SEED=str(rng.randrange(1, 9))))
                except Exception:
                    continue
                if r.returncode:
                    m["state"], m["by"], m["how"] = ("caught" if r.returncode == 1 else "no_answer"), p, r.stdout[:200]
                    break
            undo()
            stats[m["state"]] = stats.get(m["state"], 0) + 1
            record(m)
            print(stats, "left", tq.qsize(), cq.qsize(), flush=True)
        shutil.rmtree(w)
    ts = [threading.Thread(target=tester) for _ in range(int(os.environ.get("TESTERS", 3)))]
    cs = [threading.Thread(target=checker) for _ in range(int(os.environ.get("CHECKERS", 2)))]
    for t in ts + cs:
        t.start()
    for t in ts:
        t.join()
    stop.set()
    for t in cs:
        t.join()


main()
