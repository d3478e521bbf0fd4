import os, shutil
from core import Model
from proj import cps, exc
from moz.l10n.util.walk_files import walk_files

JUDGE, VERDICT = "J_WalkFiles", "WalkVerdict"
MODELS = [Model("MC_WalkFiles", workers=3, emit=True, thorough_cfg="MC_WalkFiles_T")]
QUICK_N, THOROUGH_N = 5000, 60000
ASSUMPTIONS = ["rule matching is that of the gitignorant library for rules without character classes", "no symbolic links; given subdirectories do not overlap"]


def from_model(c):
    t = lambda s: "".join(map(chr, s))
    return [{"files": [t(f) for f in c["files"]], "lines": [t(x) for x in c["lines"]], "dirs": None, "ignore": ".l10n-ignore", "root": "dir"}]


NAMES = ["a", "b", "x", "y", ".h", "ab", "en-US"]
FILES = ["a.ftl", "b.ftl", "a.po", ".hid", "x", "ab.ini", "a.ftl.bak", "é.po"]
PATS = ["a.ftl", "*.ftl", "*.po", "a*", "?.ftl", "x", "a", "y", ".h", ".hid", "a.*", "*", "x/a.ftl", "a/b", "x/y", "a/*", "x/*.po", "**/a.ftl", "a/**", "**/x", "x/**/a.ftl", "ab", "en-US", "*b", "é.po"]


def rule(rng):
    p = rng.choice(PATS)
    r = rng.random()
    if r < 0.25:
        p = "/" + p
    if rng.random() < 0.3 and not p.endswith("*"):
        p += "/"
    if rng.random() < 0.3:
        p = "!" + p
    if rng.random() < 0.05:
        p = rng.choice(["# " + p, "#" + p, "", "   ", p + "  ", "\\!x"])
    return p


def gen(rng, n, shard, tier):
    for _ in range(n):
        dirs = [""]
        for _ in range(rng.choice([1, 2, 3, 5, 7])):
            b = rng.choice(dirs)
            if b.count("/") < 4:
                d = (b + "/" if b else "") + rng.choice(NAMES)
                if d not in dirs:
                    dirs.append(d)
        files = set()
        for _ in range(rng.choice([0, 2, 4, 8, 12])):
            b = rng.choice(dirs)
            f = (b + "/" if b else "") + rng.choice(FILES)
            if f not in dirs:
                files.add(f)
        files = {f for f in files if not any(d.startswith(f + "/") or d == f for d in dirs)}
        starts = None
        if rng.random() < 0.25:
            starts = [d for d in rng.sample(dirs, min(len(dirs), rng.choice([1, 2]))) if d]
            starts = [d for d in starts if not any(o != d and (d + "/").startswith(o + "/") for o in starts)] or None
        ign = rng.choice([".l10n-ignore"] * 6 + ["custom.txt", "a/ignore", None, "missing"])
        yield {"files": sorted(files), "empty": [d for d in dirs if d], "lines": [rule(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))], "dirs": starts, "ignore": ign,
               "root": rng.choice(["dir"] * 30 + ["file", "missing"])}


def execute(case):
    base = os.path.join(os.environ["VERIF_SCRATCH"], "walk")
    root = os.path.join(base, "root")
    try:
        os.makedirs(root)
        files = list(case["files"])
        for d in case.get("empty", []):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in files:
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        ign = case["ignore"]
        lines = []
        if ign and ign != "missing":
            p = os.path.join(root, ign)
            if os.path.isdir(os.path.dirname(p)) and ign not in files:
                with open(p, "w", encoding="utf-8") as f:
                    f.write("".join(x + "\n" for x in case["lines"]))
                lines = case["lines"]
                files.append(ign)
        dirs = case["dirs"]
        arg = root
        if case["root"] == "file":
            arg = os.path.join(base, "plain")
            open(arg, "w").close()
        elif case["root"] == "missing":
            arg = os.path.join(base, "nothing")
        try:
            kw = {} if ign == ".l10n-ignore" else {"ignorepath": ign}
            got = list(walk_files(arg, dirs, **kw) if dirs is not None else walk_files(arg, **kw))
            out = {"k": "ok", "paths": [cps(os.path.relpath(p, root).replace(os.sep, "/")) for p in got]}
        except Exception as e:
            out = exc(e)
        return {"op": "walk", "rootok": case["root"] == "dir", "files": [cps(f) for f in files], "lines": [cps(x) for x in lines],
                "starts": [cps(d) for d in dirs] if dirs else [[]], "out": out}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def kind(case, ev):
    return f"{case['root']}:dirs={case['dirs'] is not None}"
