import os, shutil
from os.path import abspath, join, normpath, relpath
from core import Model
from proj import cps, exc
from moz.l10n.paths import L10nDiscoverPaths
from moz.l10n.paths.discover import MissingSourceDirectoryError

JUDGE, VERDICT = "J_Discover", "DiscoverVerdict"
MODELS = [Model("MC_Discover", workers=3, emit=True, thorough_cfg="MC_Discover_T")]
QUICK_N, THOROUGH_N = 4000, 40000
ASSUMPTIONS = ["no symbolic links; a reference root is not in a hidden directory of the root", "among equals in priority and depth (or number of locales) any may be chosen",
               "rule matching of ignore files is that of C13", "two references with one target (x.po and x.pot) are both right for it"]


def names(p):
    return ["".join(map(chr, s)) for s in p]


def from_model(c):
    t = {"dirs": [names(d) for d in c["dirs"]], "files": [names(f) for f in c["files"]], "root": ["r"], "srcs": None, "lines": [], "force": [], "cwd": None}
    k = sum(map(len, t["dirs"])) + len(t["files"])
    if k % 9 and not (any(f[-1].endswith((".ftl", ".pot")) for f in t["files"]) and any(d[-1].startswith("en") for d in t["dirs"])):
        return []
    return [{**t, "refroot": None}] + ([{**t, "refroot": ["r"], "cwd": [None, [], ["r"]][k % 3]}] if k % 2 else [])


DIRS = ["en", "en-US", "en_us", "fr", "de", "pt-BR", "pt_BR", "zh-Hans-CN", "zh_Hans_CN", "sr_Cyrl_RS", "zh_Hans", "ca-valencia", "ja-JP-mac", "src", "l10n", "locales", "js", "x", ".git", "po", "Fr", "a{b}", "templates", "sr-Latn", "fil", "en-us", "fr-FR", "fr_FR", "café"]
FILES = ["a.ftl", "b.ftl", "x.pot", "y.pot", "x.po", "m.json", "b.txt", ".h.ftl", "a{b}.ftl", "s.xml", "c.properties", "README", "a.b.ini", ".pot", "é.dtd", "{}.ftl", "n.xliff", "n.xlf", "i.inc", "a.ftl.bak", "u.pot.orig"]


def gen(rng, n, shard, tier):
    for _ in range(n):
        root = rng.choice([["r"], ["r"], ["r"], ["q", "r"]])
        dirs = [root[:i] for i in range(1, len(root) + 1)]
        if rng.random() < 0.6:  # a reference and localizations
            b = root + rng.choice([[], [], ["l10n"], ["x", "locales"]])
            dirs += [b[:i] for i in range(len(root) + 1, len(b) + 1)]
            dirs += [b + [x] for x in rng.sample(DIRS[3:12] + ["fr", "sr-Latn", "fr_FR", "fr-FR", "nn"], rng.choice([1, 2, 4]))]
            dirs.append((b if rng.random() < 0.7 else root + ["src"]) + [rng.choice(["en", "en-US", "templates", "po"])])
            dirs += [d + ["x"] for d in dirs[-2:] if rng.random() < 0.5]
        few = rng.sample(DIRS, rng.choice([3, 5, 8]))
        for _ in range(rng.choice([1, 3, 5, 8, 12])):
            b = rng.choice(dirs)
            if len(b) < 6:
                d = b + [rng.choice(few + ["en", "en-US", "fr", "de"])]
                if d not in dirs:
                    dirs.append(d)
        fs = []
        for _ in range(rng.choice([1, 2, 4, 6, 10])):
            f = rng.choice(dirs[len(root) - 1:] if rng.random() < 0.9 else dirs) + [rng.choice(FILES)]
            if f not in fs and f not in dirs:
                fs.append(f)
        ref = None
        if rng.random() < 0.5:
            ref = rng.choice(dirs) if rng.random() < 0.6 else root
            if rng.random() < 0.03:
                ref = root + ["none"]
            if any(s.startswith(".") for s in ref):
                ref = root
        case = {"dirs": dirs, "files": fs, "root": root, "refroot": ref, "refabs": rng.random() < 0.5, "srcs": rng.choice([None, None, None, ["en"], ["fr", "en"], ["pt-BR"], ["en-US", "de", "fr"], ["en", "EN", "en-US"], "en", "de", ["zh-Hans"]]),
                "lines": [rng.choice(["a.ftl", "*.ftl", "fr", "x/", "/src/*", "!a.ftl", "*.pot", "en"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))], "cwd": rng.choice([None, None, None, [], root, root[:1], rng.choice(dirs)])}
        case["force"] = [rng.choice(dirs) + [rng.choice(["new.ftl", "new.pot"])] for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        yield case


CASE_TIMEOUT = 10


def execute(case):
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "disc")
    old = os.getcwd()
    A = lambda p: join(S, *p)
    rel = case.get("cwd") is not None
    loc = (lambda p: relpath(p)) if rel else (lambda p: p)
    odd = [[-1]]

    def seg(p):
        if not isinstance(p, str):
            return odd
        p = normpath(join(os.getcwd(), p))
        return [cps(s) for s in p[len(S) + 1:].split(os.sep)] if p.startswith(S + os.sep) else odd
    P = lambda p: [cps(s) for s in p]
    try:
        os.makedirs(A(case["root"]))
        for d in case["dirs"]:
            os.makedirs(A(d), exist_ok=True)
        dirs = []
        for f in case["files"]:
            os.makedirs(A(f[:-1]), exist_ok=True)
            open(A(f), "w").close()
        for d in [case["root"]] + case["dirs"] + [f[:-1] for f in case["files"]]:
            for i in range(1, len(d) + 1):
                if d[:i] not in dirs:
                    dirs.append(d[:i])
        ign = None
        if case["lines"]:
            ign = join(S, "ignore.txt")
            with open(ign, "w") as f:
                f.write("".join(x + "\n" for x in case["lines"]))
        if rel:
            if case["cwd"] not in dirs + [[]]:
                return {"op": "idle"}
            os.chdir(A(case["cwd"]) if case["cwd"] else S)
        rr = None
        if case["refroot"] is not None:
            rr = relpath(A(case["refroot"]), A(case["root"])) if not case.get("refabs") or case["refroot"] == case["root"] else A(case["refroot"])
        ev = {"op": "disc", "root": P(case["root"]), "hasref": rr is not None, "refroot": P(case["refroot"] or []), "dirs": [P(d) for d in dirs], "files": [P(f) for f in case["files"]],
              "srcs": [cps(s) for s in ([case["srcs"]] if isinstance(case["srcs"], str) else case["srcs"] or ["en-US", "en"])], "lines": [cps(x) for x in case["lines"]], "force": [P(f) for f in case["force"]]}
        try:
            d = L10nDiscoverPaths(loc(A(case["root"])), rr, force_paths=[A(f) for f in case["force"]] if not rel and case["force"] else None, ignorepath=ign, source_locale=case["srcs"])
            if rel:
                ev["force"] = []
        except MissingSourceDirectoryError:
            ev["out"] = {"k": "missing"}
            return ev
        except Exception as e:
            ev["out"] = exc(e)
            return ev
        out = {"k": "ok", "ref": seg(d.ref_root), "refs": [seg(p) for p in d.ref_paths], "hasbase": d.base is not None, "base": seg(d.base), "locales": [cps(x) for x in d.locales or []],
               "all": [], "targets": [], "filled": [], "other": [], "finds": []}
        ev["out"] = out
        if len(set(map(str, out["refs"]))) != len(out["refs"]) and not case["force"]:
            out["refs"].append(odd)
        if d.base is None:
            return ev
        lcs = d.locales[:3]
        try:
            listing = d.all()
            out["all"] = [{"ref": seg(r), "t": seg(t), "loc": [cps(x) for x in ls or []]} for (r, t), ls in listing.items()]
            for i, ((r, t), ls) in enumerate(listing.items()):
                for lc in lcs:
                    out["filled"].append({"ref": seg(r), "lc": cps(lc), "t": seg(d.format_target_path(t, lc))})
            finds = set()
            for i, r in enumerate(list(d.ref_paths)):
                if i > 8:
                    break
                ask = [relpath(r, d.ref_root)] + ([r] if os.path.isabs(d.ref_root) else []) + ([relpath(r[:-1], d.ref_root)] if r.endswith(".pot") and r[:-1] not in d.ref_paths else [])
                for lc in lcs:
                    for a in ask:
                        t, l = d.target(a, locale=lc)
                        out["targets"].append({"ref": seg(r), "lc": cps(lc), "t": seg(t) if set(l) == {lc} else odd})
                    finds.add(t)
                out["other"].append({"some": d.target(ask[0], locale="zz")[0] is not None})
                t, l = d.target(relpath(r, d.ref_root))
                if list(l) != (d.locales or []) or t not in [k[1] for k in listing]:
                    out["other"].append({"some": True})
            for a in ("none.ftl", "sub/none.po", "none.pot", "sub/x/none.ini"):
                for lc in lcs[:2]:
                    t, l = d.target(a, ref_required=False, locale=lc)
                    out["targets"].append({"ref": seg(join(d.ref_root, a)), "lc": cps(lc), "t": seg(t) if set(l) == {lc} else odd})
            for a in ("none.ftl", "../none.ftl", "none.po"):
                out["other"].append({"some": d.target(a)[0] is not None})
            finds |= {join(d.base, x) for x in ("fr/none.ftl", "fr", "xx1/a.ftl", "de/a.ftl", "en/a.ftl", "en_US/x.po", "../a.ftl", "de/x.pot", "ca-valencia/x.po", "zh_Hans_CN/a.ftl")}
            for p in finds:
                for q in ({p, relpath(p, d.base)} if os.path.isabs(d.base) else {relpath(p, d.base)}):
                    f = d.find_reference(q)
                    out["finds"].append({"p": seg(p), "some": f is not None, "ref": seg(f[0]) if f else odd, "lc": cps(f[1]["locale"]) if f else []})
        except Exception as e:
            ev["out"] = exc(e)
        return ev
    finally:
        os.chdir(old)
        shutil.rmtree(S, ignore_errors=True)


def kind(case, ev):
    return ev["op"] + ("_" + ev["out"]["k"] + ("_base" if ev["out"].get("hasbase") else "") if ev["op"] != "idle" else "")
