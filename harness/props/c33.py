import json, logging, os, shutil, sys
from os.path import exists, isfile, join
from core import Model
from moz.l10n.bin.migrate import cli
from moz.l10n.model import Entry, PatternMessage
from moz.l10n.resource import parse_resource

JUDGE, VERDICT = "J_MigrateCmd", "CmdVerdict"
MODELS = [Model("MC_MigrateCmd", workers=3, emit=True, thorough_cfg="MC_MigrateCmd_T")]
QUICK_N, THOROUGH_N = 4000, 25000
ASSUMPTIONS = ["the scripts' functions are constants, copies, errors and unwritable content (C01-C03 are about more of them); files are Fluent", "on an error in one locale of a path, the others of that path may or may not have been written"]
TREES, LCS, FILES = ["A", "B", "C"], ["fr", "de", "sl"], ["a.ftl", "b.ftl", "c.ftl"]
HEAD = "from moz.l10n.migrate import Migrate, copy\nfrom moz.l10n.model import Markup, PatternMessage\nfrom os.path import join\nS = {S!r}\ndef fails(err):\n    def fn(res, ctx):\n        raise err\n    return fn\n"


def start():
    f = lambda t, lc, p, i, v: {"tree": t, "lc": lc, "path": p, "id": i, "v": v}
    return [f(t, lc, "a.ftl", "x", t + lc + "a.ftl") for t in TREES for lc in LCS] + [f(t, "fr", "b.ftl", "y", t + "Y") for t in TREES] + [f(t, "de", "a.ftl", "n1", "Old") for t in ("A", "C")]


def from_model(c):
    return [{"start": start(), "cmds": c["cmds"], "v": sum(len(s["migs"]) for x in c["cmds"] for s in x["scripts"])}]


IDS = ["x", "y", "n1", "n2", "n3"]


def rent(rng):
    k = rng.choice(["const"] * 5 + ["copy"] * 6 + ["none"] + (["value_error", "key_error", "unwritable"] if rng.random() < 0.4 else []))
    return {"id": rng.choice(IDS), "fn": k, "ref": rng.choice(["", "a.ftl", "b.ftl", "c.ftl", "d.ftl"]) if k == "copy" else "", "src": rng.choice(IDS) if k == "copy" else rng.choice(["V", "W", "New"]) if k == "const" else ""}


def rmig(rng):
    m = []
    for p in rng.sample(["a.ftl", "b.ftl", "c.ftl", "d.ftl"] if rng.random() < 0.15 else ["a.ftl", "b.ftl"], rng.choice([1, 1, 2])):
        es = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            e = rent(rng)
            es.setdefault(e["id"], e)
        m.append({"path": p, "ents": list(es.values())})
    return {"own": rng.choice(["", "", "dirA", "dirB", "cfgA", "cfgB"]) if rng.random() < 0.97 else "nowhere", "map": m}


def rscript(rng):
    k = "ok" if rng.random() < 0.94 else rng.choice(["raises", "missing", "other"])
    return {"kind": k, "migs": [] if k in ("missing", "other") else [rmig(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))]}


def rcmd(rng):
    r = rng.choice([("", "A", False), ("", "B", False), ("", "C", True), ("A", "", False), ("B", "", False), ("", "", False)]) if rng.random() < 0.85 else (rng.choice(["", "A", "B", "gone", "bad"]), rng.choice(["", "A", "C", "gone"]), rng.random() < 0.5)
    s = [rscript(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < 0.1:
        s.append(s[0])
    return {"cfg": r[0], "root": r[1], "ref": r[2], "dry": rng.random() < 0.25, "scripts": s}


def gen(rng, n, shard, tier):
    for _ in range(n):
        fs = [{"tree": t, "lc": lc, "path": p, "id": i, "v": t + lc + p[0] + i} for t in TREES for lc in LCS for p in FILES[: 3 if t == "C" else 2] if rng.random() < 0.8 for i in IDS[:4] if rng.random() < 0.5]
        yield {"start": fs, "cmds": [rcmd(rng) for _ in range(rng.choice([1, 2, 2, 3]))], "v": rng.randrange(6)}


CASE_TIMEOUT = 10
N = [0]


def fn(e):
    if e["fn"] == "const":
        return f"lambda res, ctx: {e['src']!r}"
    if e["fn"] == "copy":
        return f"copy({e['ref'] or None!r}, {e['src']!r})"
    return {"none": "lambda res, ctx: None", "value_error": "fails(ValueError('no'))", "key_error": "fails(KeyError('no'))", "unwritable": "lambda res, ctx: PatternMessage(['a', Markup('open', 'b')])"}[e["fn"]]


def write_script(S, i, s, v):
    d = join(S, "scripts", str(i % 2 + N[0] * 2), "x" * (i // 2))
    os.makedirs(d, exist_ok=True)
    p = join(d, "m.txt" if s["kind"] == "other" else f"m{v % 2}.py")
    if s["kind"] == "missing":
        return p
    own = {"": "None", "dirA": "join(S, 'A')", "dirB": "join(S, 'B')", "cfgA": "join(S, 'A', 'l10n.toml')", "cfgB": "join(S, 'B', 'l10n.toml')", "nowhere": "join(S, 'nowhere')"}
    out = HEAD.format(S=S)
    for m in s["migs"]:
        mp = "{" + ", ".join(f"{x['path']!r}: {{" + ", ".join(f"{e['id']!r}: {fn(e)}" for e in x["ents"]) + "}" for x in m["map"]) + "}"
        out += f"Migrate({mp}" + (f", {own[m['own']]}" if m["own"] or v % 3 == 0 else "") + ")\n"
    if s["kind"] == "raises":
        out += ["raise RuntimeError('x')\n", "import no_such_module_here\n", "1/0\n", "def (\n", "raise ValueError('x')\n", "copy(None, 'a', property='p', value_only=True)\n"][v % 6]
    with open(p, "w") as f:
        f.write(out)
    return p


def tree(S):
    out = {}
    for d, ds, fs in os.walk(S):
        if d == S and "scripts" in ds:
            ds.remove("scripts")
        for f in fs:
            with open(join(d, f), "rb") as h:
                out[join(d, f)] = h.read()
    return out


def fpath(S, t, lc, p):
    return join(S, "C", "loc", lc, p) if t == "C" else join(S, t, lc, p)


def state(S, fixed):
    facts, stray, now = [], False, tree(S)
    for t in TREES:
        for lc in LCS:
            for p in FILES:
                b = now.pop(fpath(S, t, lc, p), None)
                if b is None:
                    continue
                try:
                    for e in (e for s in parse_resource(p, b).sections for e in s.entries):
                        ok = isinstance(e, Entry) and isinstance(e.value, PatternMessage) and all(isinstance(x, str) for x in e.value.pattern) and not e.properties
                        facts.append({"tree": t, "lc": lc, "path": p, "id": e.id[0], "v": "".join(e.value.pattern) if ok else "?"})
                except Exception:
                    stray = True
    return facts, stray or now != fixed


def execute(case):
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "mcmd")
    shutil.rmtree(S, ignore_errors=True)
    old, byte = os.getcwd(), sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    try:
        def put(p, s):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(s)
        for t in ("A", "B"):
            for p in FILES[:2]:
                put(join(S, t, "en", p), "x = X\n")
                put(join(S, t, p), "x = X\n")  # those of the configuration
            put(join(S, t, "l10n.toml"), 'basepath = "."\nlocales = ["fr", "de"]\n[[paths]]\n  reference = "*.ftl"\n  l10n = "{locale}/*.ftl"\n')
        for p in FILES:
            put(join(S, "C", "src", p), "x = X\n")
        put(join(S, "bad"), "basepath = \n")
        fixed = tree(S)
        # directories of locales are there from the start, with something in them
        for t in TREES:
            for lc in LCS:
                put(join(os.path.dirname(fpath(S, t, lc, "a")), "z.ftl"), "z = Z\n")
        fixed = tree(S)
        for f in case["start"]:
            with open_append(fpath(S, f["tree"], f["lc"], f["path"])) as h:
                h.write(f"{f['id']} = {f['v']}\n")
        got, conf = [], lambda c: join(S, c, "l10n.toml") if c in TREES else join(S, c)
        for j, c in enumerate(case["cmds"]):
            args = [["-q"], ["-v"], []][(case["v"] + j) % 3] + (["-n" if case["v"] % 2 else "--dry-run"] if c["dry"] else [])
            rel = case["v"] % 4 == 1
            os.chdir(S)
            P = (lambda p: os.path.relpath(p, S)) if rel else lambda p: p
            if c["cfg"]:
                args += ["--config", P(conf(c["cfg"]))]
            if c["root"]:
                args += ["--root", P(join(S, "C", "loc") if c["root"] == "C" else join(S, c["root"]))]
            if c["ref"]:
                args += ["--ref", P(join(S, "C", "src"))]
            N[0] += 1
            args += [P(write_script(S, i, s, case["v"])) for i, s in enumerate(c["scripts"])]
            try:
                cli.main(args=args, standalone_mode=False)
                st = 0
            except SystemExit as e:
                st = e.code if isinstance(e.code, int) else 0 if e.code is None else 9
            except Exception as e:
                st = 9
            facts, stray = state(S, fixed)
            got.append({"status": st, "facts": facts, "stray": stray})
        return {"op": "cmds", "start": case["start"], "cmds": case["cmds"], "got": got}
    finally:
        os.chdir(old)
        sys.dont_write_bytecode = byte
        logging.disable(logging.NOTSET)
        shutil.rmtree(S, ignore_errors=True)


def open_append(p):
    return open(p, "a")


def kind(case, ev):
    c = case["cmds"][-1]
    return f"n{len(case['cmds'])}_" + ("config" if c["cfg"] else "root" if c["root"] else "own") + ("_dry" if c["dry"] else "") + f"_status{ev['got'][-1]['status']}"
