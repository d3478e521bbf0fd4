import json, logging, os, re, shutil
from os.path import join, relpath
from click.testing import CliRunner
from core import Model
from proj import cps, exc
import moz.l10n.bin.compare as target

JUDGE, VERDICT = "J_Compare", "CompareVerdict"
MODELS = [Model("MC_Compare", workers=3, emit=True, thorough_cfg="MC_Compare_T")]
QUICK_N, THOROUGH_N = 9000, 80000
ASSUMPTIONS = ["the identifiers of a file are known from how the check wrote it (C15-C24 are about parsing)", "identifiers joined with dots do not coincide; one identifier is not repeated in a file",
               "directories have different names and the same layout; reports are compared as sets of files and messages", "config entries give all locales the same files"]
BROKEN = {".ftl": ["= x\n", "a = {", "!@$%"], ".properties": [b"a = \xff\xfe"], ".ini": ["a = A\n", "[S\na"], ".json": ["[1]", '{"a": 1}', "{", ""], ".dtd": ["junk", "<!ENTITY a>"], ".inc": ["a A\n"], ".po": ["junk\n", 'msgid "a"\nfoo\n'],
          ".xml": ["<x/>", "junk", "<resources><strong/></resources>"]}
SUF = {".ini": "S.", ".json": ""}


def content(ext, ids, alt=0):
    """a file with messages of these identifiers"""
    if ext == ".ftl":
        return "### R\n\n" + "".join((f"# c {i}\n" if alt else "") + f"{i} = V{alt}\n" + ("    .t = A\n" if alt and not i.startswith("-") else "") for i in ids)
    if ext == ".properties":
        return "".join(f"{i} = v\n" for i in ids)
    if ext == ".ini":
        out, sec = "# c\n", {}
        for i in ids:
            s, k = i.split(".", 1)
            sec.setdefault(s, []).append(k)
        return out + "".join(f"[{s}]\n" + "".join(f"{k}=v\n" for k in ks) for s, ks in sec.items())
    if ext == ".json":
        root = {}
        for i in ids:
            p = i.split(".")
            d = root
            for x in p[:-1]:
                d = d.setdefault(x, {})
            d[p[-1]] = "v"
        return json.dumps(root)
    if ext == ".dtd":
        return "".join(f'<!ENTITY {i} "v">\n' for i in ids) + "<!-- end -->\n"
    if ext == ".inc":
        return "".join(f"#define {i} v\n" for i in ids) or "# c\n"
    if ext in (".po", ".pot"):
        out = 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
        for i in ids:
            k, _, c = i.partition(".")
            out += (f'msgctxt "{c}"\n' if c else "") + f'msgid "{k}"\nmsgstr "{"" if ext == ".pot" else "v"}"\n\n'
        return out
    if ext == ".xml":
        return '<?xml version="1.0" encoding="utf-8"?>\n<resources>\n<!-- c -->\n' + "".join(f'  <string name="{i}">v</string>\n' for i in ids) + "</resources>\n"
    return "x"


POOLS = {".ftl": ["a", "b-c", "-brand", "d1", "e"], ".properties": ["a", "b.c", "b.d", "x-y"], ".ini": ["S.a", "S.b", "T.a", "T.x.y"], ".json": ["a", "b.c", "b.d", "e.f.g"], ".dtd": ["a", "b.c", "d-e"], ".inc": ["MOZ_A", "b", "c"],
         ".po": ["a", "b.ctx", "a.ctx", "z"], ".xml": ["a", "b", "c_d"]}
POOLS[".pot"] = POOLS[".po"]
EXTS = list(POOLS)


def from_model(c):
    S = lambda x: "".join(map(chr, x))
    M = lambda fs: [{"path": S(f["path"]), "ok": f["ok"], "ids": [("S." if S(f["path"]).endswith(".ini") else "") + S(i) for i in f["ids"]]} for f in fs]
    src, loc = M(c["src"]), M(c["loc"])
    k = sum(len(f["ids"]) for f in src + loc) + 2 * len(loc)
    return [{"src": src, "dirs": [{"name": "fr", "exists": True, "files": loc}, {"name": "de", "exists": True, "files": []}][:1 + k % 2], "ext": ["", "ftl", "!ftl", '".ini, !a"'][(k + len(src)) % 4] if k % 3 == 0 else None,
             "v": k % 3, "json": k % 2 == 0, "kind": ["json", "toml", "dir"][(k // 2 + len(src)) % 3], "cwd": [None, "", "l"][k % 3], "per": k % 2, "extra": []}]


def gen(rng, n, shard, tier):
    for _ in range(n):
        kind = rng.choice(["json", "toml", "dir"])
        src, used = [], set()
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            ext = rng.choice(EXTS)
            p = rng.choice(["", "", "x/", "browser/y/", "e+[1]/"]) + rng.choice(["a", "b", "c.d", "a b"]) + ext
            k = p[:-1] if ext == ".pot" else p
            if k in used:
                continue
            used.add(k)
            src.append({"path": p, "ok": kind == "json" or rng.random() > 0.02, "ids": rng.sample(POOLS[ext], rng.randrange(0, len(POOLS[ext]) + 1)) if rng.random() < 0.9 else []})
        if kind == "json":
            for f in src:
                if f["path"].endswith(".pot"):
                    f["path"] = f["path"][:-1]
        dirs = []
        for name in rng.sample(["fr", "pt-BR", "pt_BR", "de", "x.y", "sr-Latn", "out", "fr x"], rng.choice([1, 1, 2, 3])):
            files = []
            for f in src:
                r = rng.random()
                p = f["path"][:-1] if f["path"].endswith(".pot") else f["path"]
                ext = os.path.splitext(p)[1]
                if r < 0.2:
                    continue
                if r < 0.35:
                    files.append({"path": p, "ok": False, "ids": []})
                else:
                    ids = list(f["ids"]) if r < 0.55 else [i for i in f["ids"] if rng.random() < 0.6]
                    ids += [i for i in POOLS[ext] if i not in f["ids"] and rng.random() < 0.3]
                    rng.shuffle(ids)
                    if ids or ext != ".json":
                        files.append({"path": p, "ok": True, "ids": ids})
            if rng.random() < 0.2:
                files.append({"path": "only.ftl", "ok": rng.random() < 0.5, "ids": ["a"]})
            dirs.append({"name": name, "exists": True, "files": files})
        if rng.random() < 0.15:
            dirs.insert(rng.choice([0, len(dirs)]), {"name": rng.choice(["nl", "README"]), "exists": False, "files": []})
        yield {"src": src, "dirs": dirs, "ext": rng.choice([None, None, None, "ftl", ".ftl", "!ftl", "po,ini", "'json'", " .ftl , !.xml ", "!.json,!.dtd", "x.ftl,ftl", "a.ftl", ",", "!", "pot", "properties,!c.d.properties", '"!po"']),
               "v": rng.choice([0, 1, 2, 2]), "json": rng.random() < 0.5, "kind": kind, "cwd": rng.choice([None, None, "", "l", "w"]), "per": rng.random() < 0.4, "extra": rng.choice([[], [], ["README"], ["n.txt", "x/k.js"], ["u.xml"]])}


CASE_TIMEOUT = 10
HEAD = re.compile(r"^(\S.*): (-?\d+)$")


def write(root, f, alt=0, variant=0):
    p = join(root, f["path"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    ext = os.path.splitext(p)[1]
    c = content(ext, f["ids"], alt) if f["ok"] else BROKEN[ext if ext != ".pot" else ".po"][variant % len(BROKEN[ext if ext != ".pot" else ".po"])]
    with open(p, "wb") as fh:
        fh.write(c if isinstance(c, bytes) else c.encode())


def parse_text(out, known, names):
    """the printed report; errors may be of many lines"""
    total, locs, cur, skip = -1, [], None, False
    for line in out.split("\n"):
        if total < 0:
            total = int(line.removeprefix("source: "))
            continue
        m = HEAD.match(line)
        if m and m[1] in names:
            locs.append({"lc": m[1], "count": -int(m[2]), "errors": [], "missing": []})
            cur = None
        elif line.startswith("  !!! "):
            p = next((p for p in sorted(known, key=len, reverse=True) if line[6:].startswith(p + ": ")), line[6:])
            locs[-1]["errors"].append(p)
        elif (m := re.match(r"^  (\S.*): (-?\d+)$", line)) and m[1] in known:
            cur = {"path": m[1], "n": -int(m[2]), "ids": []}
            locs[-1]["missing"].append(cur)
        elif line.startswith("    ") and cur is not None:
            cur["ids"].append(line[4:])
    return total, locs


def execute(case):
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "cmp")
    old = os.getcwd()
    shutil.rmtree(S, ignore_errors=True)
    try:
        ref = join(S, "w", "en")
        os.makedirs(ref)
        os.makedirs(join(S, "l"))
        tgt = lambda p: p[:-1] if p.endswith(".pot") else p
        k = len(case["src"]) + sum(len(d["files"]) for d in case["dirs"])
        if case["kind"] == "json":
            src = join(S, "w", "src.json")
            with open(src, "w") as f:
                json.dump({tgt(x["path"]): x["ids"] for x in case["src"]}, f)
        else:
            for i, f in enumerate(case["src"]):
                write(ref, f, 0, 2 if f["path"].endswith(".xml") else i + k)
            for x in case["extra"]:
                os.makedirs(os.path.dirname(join(ref, x)), exist_ok=True)
                with open(join(ref, x), "w") as f:
                    f.write("<x/>")
            if case["kind"] == "dir":
                src = ref
                if not case["src"]:
                    return {"op": "idle"}
            else:
                src = join(S, "w", "l10n.toml")
                ents = [(x["path"], x["path"]) for x in case["src"]] + [(x, x) for x in case["extra"]] if case["per"] else [("**", "**")]
                with open(src, "w") as f:
                    f.write('locales = ["fr", "xx"]\n' + "".join(f"[[paths]]\nreference = {json.dumps('en/' + r)}\nl10n = {json.dumps(('{l10n_base}/' if k % 2 else '') + '{locale}/' + t)}\n" for r, t in ents))
        dirs = []
        for i, d in enumerate(case["dirs"]):
            p = join(S, "l", d["name"])
            if d["exists"]:
                os.makedirs(p)
                for j, f in enumerate(d["files"]):
                    write(p, f, 1, i + j + k)
            elif d["name"] == "README":
                open(p, "w").close()
            dirs.append(p)
        if case["cwd"] is not None:
            os.chdir(join(S, case["cwd"]))
            src = relpath(src)
            dirs = [relpath(d) for d in dirs]
            if case["cwd"] == "l" and len(dirs) == 1 and k % 2 and case["dirs"][0]["exists"]:
                os.chdir(dirs[0])
                src, dirs = relpath(join(S, "l", src)), ["."]
        if k % 3 == 1:
            dirs = [d + "/" for d in dirs]
        args = [*dirs, "--source", src] + (["--ext", case["ext"]] if case["ext"] is not None else []) + ["-v"] * case["v"] + (["--json"] if case["json"] else [])
        lv = logging.root.level
        logging.root.handlers[:] = [logging.NullHandler()]
        try:
            r = CliRunner().invoke(target.cli, args)
        finally:
            logging.root.setLevel(lv)
        L = lambda xs: [cps(x) for x in xs]
        F = lambda fs, t: [{"path": cps(t(f["path"])), "ok": f["ok"], "ids": L(f["ids"]) if f["ok"] else []} for f in fs]
        ev = {"op": "compare", "src": F([f for f in case["src"] if f["ok"] or not f["path"].endswith(".json")], tgt), "ext": cps(case["ext"] or ""), "v": case["v"], "json": case["json"],
              "dirs": [{"lc": cps(d["name"]), "exists": d["exists"], "files": F(d["files"], str)} for d in case["dirs"]]}
        if r.exit_code:
            ev["out"] = {"k": "fail" if isinstance(r.exception, Exception) else "exit"}
            return ev
        known = {tgt(f["path"]) for f in case["src"]} | set(case["extra"])
        R = lambda lc, count, errors, missing: {"lc": cps(lc), "count": count, "errors": L(errors), "missing": [{"path": cps(m["path"]), "n": m["n"], "ids": L(m["ids"])} for m in missing]}
        try:
            if case["json"]:
                d = json.loads(r.stdout)
                ev["out"] = {"k": "ok", "total": 0, "locs": [R(lc, 0, list(x["errors"] or {}), [{"path": p, "n": 0, "ids": ms} for p, ms in (x["missing"] or {}).items()]) for lc, x in d.items()]}
            else:
                total, locs = parse_text(r.stdout, known, {d["name"] for d in case["dirs"]} | {"", ".", ".."})
                ev["out"] = {"k": "ok", "total": total, "locs": [R(**x) for x in locs]}
        except (ValueError, IndexError, AttributeError, KeyError, TypeError):
            ev["out"] = {"k": "unreadable"}
        return ev
    finally:
        os.chdir(old)
        shutil.rmtree(S, ignore_errors=True)


def kind(case, ev):
    return ev["op"] + ("_" + ev["out"]["k"] + "_" + case["kind"] if ev["op"] != "idle" else "")
