import json, os, shutil
from os.path import join, normpath, relpath
from core import Model
from proj import cps, exc
from moz.l10n.paths import L10nConfigPaths

JUDGE, VERDICT = "J_Config", "ConfigVerdict"
MODELS = [Model("MC_Config", workers=3, emit=True, thorough_cfg="MC_Config_T")]
QUICK_N, THOROUGH_N = 3500, 30000
ASSUMPTIONS = ["the wildcards of an entry's reference and l10n are the same, ** only as a whole path component", "path locales are not empty and included configs exist", "no symbolic links",
               "where a path matches a pattern in more than one way, any of them may be chosen", "names are ASCII words in patterns; file names do not contain {locale}"]

S_ = lambda x: "".join(map(chr, x))


def from_model(c):
    cfgs = [{"path": S_(x["path"]), "base": S_(x["base"]), "locales": [S_(y) for y in x["locales"]] if x["lg"] else None, "env": {S_(y["k"]): S_(y["v"]) for y in x["env"]},
             "paths": [{"ref": S_(y["ref"]), "l10n": S_(y["l10n"]), "locales": [S_(z) for z in y["locales"]] if y["lg"] else None} for y in x["paths"]], "includes": [S_(y) for y in x["includes"]]} for x in c["cfgs"]]
    files = [S_(x) for x in c["files"]]
    k = sum(len(p["ref"]) for x in cfgs for p in x["paths"]) + sum(map(len, files))
    if k % 3:
        return []
    return [{"cfgs": cfgs, "files": files, "cwd": [None, None, "", "r", "r/c"][k % 5], "setbase": [None, "o/r"][k % 2], "setloc": None, "force": [], "fm": {}, "map": {}, "toml": k % 4 == 1, "locs": ["fr", "de", "nl"]}]


NAMES = ["a", "b", "x.y", "en", "c+d", "e[1]"]
EXT = [".ftl", ".f", ".pot", ".po", ".xml", ""]
LOCS = ["fr", "de", "pt-BR", "he", "nn", "sr-Latn"]


def rpat(rng, roots):
    """a paths entry"""
    pre = [rng.choice(roots)] + ([rng.choice(NAMES)] if rng.random() < 0.3 else [])
    post = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        post.append(rng.choice(NAMES) if r < 0.4 else "*" if r < 0.65 else "**" if r < 0.9 and "**" not in post else rng.choice(["n*", "*m", "b*"]))
    r = rng.random()
    ext = rng.choice(EXT)
    last = rng.choice(NAMES) + ext if r < 0.5 else "*" + ext if r < 0.8 else "**" if "**" not in post else "*" if r < 0.9 else rng.choice(["a*", "*b", ".*", "x.*", "*-*"])
    tail = "/".join(post + [last])
    tpre = rng.choice(["{locale}", "{locale}", "{locale}", "l/{locale}", "values-{android_locale}", "{android_locale}/x", "{locale}/{locale}", "./{locale}", "../{locale}", "l10n", "{v}/{locale}", "{f}/{locale}", "{lc}", "l//{locale}/../{locale}", "x+y[0]/{locale}", "{locale}-{android_locale}"])
    if rng.random() < 0.35:
        tpre = "{l10n_base}/" + tpre
    ttail = tail
    if rng.random() < 0.3:  # literal parts differ
        ttail = "/".join("z" if "*" not in s and "." not in s else s for s in tail.split("/"))
    if rng.random() < 0.06 and "*" in ttail:
        ttail = ttail.replace("*", "", 1)
    elif rng.random() < 0.1:
        ttail = ttail + rng.choice(["-{locale}", ".{locale}.ftl", ".pot"]) if not ttail.endswith("**") else ttail
    ref = "/".join(pre) + "/" + tail
    if rng.random() < 0.15:
        ref = "./" + ref if rng.random() < 0.5 else pre[0] + "/../" + ref
    return {"ref": ref, "l10n": tpre + "/" + ttail, "locales": rng.sample(LOCS, rng.choice([1, 1, 2, 3])) if rng.random() < 0.4 else None}


def gen(rng, n, shard, tier):
    for _ in range(n):
        root = "w/" + rng.choice(["r", "r", "r", "q/r", "a+b[c]", "b{x}", "p (1)/r.$"])
        roots = ["en", rng.choice(["en", "src", "locales/en-US"])]
        k = rng.choice([1, 1, 1, 2, 2, 3, 4])
        locs = rng.sample(LOCS, rng.choice([1, 2, 3, 4]))
        cfgs = []
        paths = [root + "/l10n.toml"] + [root + "/" + x for x in ["sub/l10n.toml", "toml/a.toml", "toml/b.toml"]][:k - 1]
        for i in range(k):
            d = paths[i].rsplit("/", 1)[0]
            base = rng.choice([".", ".", "..", "./en/.."]) if i == 0 else rng.choice(["..", ".", ".."])
            if i == 0 and base == ".." and rng.random() < 0.5:
                base = "."
            b = normpath(d + "/" + base)
            inc = []
            for j in range(k):
                if (j == i + 1 and rng.random() < 0.8) or rng.random() < 0.25:
                    x = relpath("/" + paths[j], "/" + b)
                    inc.append(x.replace("sub", "{s}") if rng.random() < 0.4 else "./" + x if rng.random() < 0.2 else x)
            ps = [rpat(rng, roots) for _ in range(rng.choice([0, 1, 1, 2, 3]) if i else rng.choice([1, 1, 2, 3]))]
            if ps and rng.random() < 0.35:
                p = dict(rng.choice(ps))
                if rng.random() < 0.7:
                    p["locales"] = rng.sample(LOCS, rng.choice([1, 2])) if rng.random() < 0.8 else None
                if rng.random() < 0.5:
                    p["l10n"] = p["l10n"].replace("{locale}", "{locale}/k", 1)
                ps.append(p)
            cfgs.append({"path": paths[i], "base": base, "locales": None if rng.random() < 0.35 else locs if rng.random() < 0.7 else rng.sample(LOCS, 2) if rng.random() < 0.9 else [], "env": {"v": "w", "s": "sub"} if rng.random() < 0.8 or any("{s}" in x for x in inc) else {},
                         "paths": ps, "includes": inc})
        if k > 1 and rng.random() < 0.3:
            p = [p for c in cfgs for p in c["paths"]]
            if p:
                q = dict(rng.choice(p))
                rng.choice(cfgs)["paths"].append(q)
        # files matching the patterns
        files = []

        def inst(p):
            out = []
            for s in normpath(p).split("/"):
                if s == "**":
                    out += rng.sample(["a", "en", "q.d", ".hid", "x"], rng.choice([0, 1, 2])) + ([rng.choice(["f.ftl", "g.pot", ".h"])] if p.endswith("**") else [])
                else:
                    out.append(s.replace("*", rng.choice(["a", "b.c", "", "q", ".z", "n-m", "k.pot"])))
            return [x for x in out if x]
        for c in cfgs:
            b = normpath(c["path"].rsplit("/", 1)[0] + "/" + c["base"])
            for p in c["paths"]:
                for _ in range(rng.choice([0, 1, 2, 3])):
                    f = normpath("/".join([b] + inst(p["ref"])))
                    if rng.random() < 0.15:
                        f += rng.choice(["x", "t", ".bak"])
                    if rng.random() < 0.1:
                        f = f.replace("/a/", "/a/c/", 1)
                    files.append(f)
        force = []
        for f in files[:]:
            if rng.random() < 0.12:
                files.remove(f)
                force.append(f)
        yield {"cfgs": cfgs, "files": files, "cwd": rng.choice([None, None, None, "", root, root + "/sub"]), "setbase": rng.choice([None, None, None, "o/l", root + "/en", "o+[1]/{y}"]),
               "setloc": rng.choice([None, None, None, ["fr", "de"], ["pt-BR"], []]), "force": force, "fm": rng.choice([{}, {}, {"f": "g"}]), "map": rng.choice([{}, {}, {"lc": "U"}, {"lc": "P", "android_locale": "U"}]),
               "toml": rng.random() < 0.4, "locs": rng.sample(LOCS + ["ja"], 3)}


FN = {"U": str.upper, "P": lambda s: "x-" + s}
CASE_TIMEOUT = 10


def execute(case):
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "cfg")
    old = os.getcwd()
    A = lambda p: join(S, p) if p else S
    odd = [-1]

    def rel(p, strict=True):
        if not isinstance(p, str):
            return odd
        q = normpath(join(os.getcwd(), p))
        if strict and p != q:
            return odd  # absolute and normalised
        return [] if q == S else cps(q[len(S) + 1:]) if q.startswith(S + "/") else odd
    try:
        shutil.rmtree(S, ignore_errors=True)
        os.makedirs(S)
        files = []
        for f in case["files"]:
            f = normpath(f)
            if f.startswith("..") or f in files:
                continue
            try:
                os.makedirs(os.path.dirname(A(f)), exist_ok=True)
                if os.path.isdir(A(f)):
                    continue
                open(A(f), "w").close()
                files.append(f)
            except (FileExistsError, NotADirectoryError):
                continue
        cfgs = [dict(c) for c in case["cfgs"]]
        raw = {}
        for c in cfgs:
            d = {"basepath": c["base"]} if c["base"] != "." or len(c["paths"]) % 2 else {}
            if c["locales"] is not None:
                d["locales"] = list(c["locales"])
            if c["env"]:
                d["env"] = dict(c["env"])
            d["paths"] = [{"reference": p["ref"], "l10n": p["l10n"], **({"locales": list(p["locales"])} if p["locales"] is not None else {})} for p in c["paths"]]
            if c["includes"]:
                d["includes"] = [{"path": x} for x in c["includes"]]
            raw[A(c["path"])] = d
            os.makedirs(os.path.dirname(A(c["path"])), exist_ok=True)
            if case["toml"]:
                J = lambda v: json.dumps(v, ensure_ascii=False)
                with open(A(c["path"]), "w", encoding="utf-8") as f:
                    f.write("".join(f"{k} = {J(d[k])}\n" for k in ("basepath", "locales") if k in d))
                    f.write("".join(f"[[paths]]\n" + "".join(f"{k} = {J(v)}\n" for k, v in p.items()) for p in d["paths"]))
                    f.write("".join(f"[[includes]]\npath = {J(p['path'])}\n" for p in d.get("includes", [])))
                    if "env" in d:
                        f.write("[env]\n" + "".join(f"{k} = {J(v)}\n" for k, v in d["env"].items()))
                files.append(c["path"])
        loads = []

        def load(p):
            loads.append(p)
            return raw[normpath(join(os.getcwd(), p))]
        main = A(cfgs[0]["path"])
        if case["cwd"] is not None:
            os.makedirs(A(case["cwd"]), exist_ok=True)
            os.chdir(A(case["cwd"]))
            main = relpath(main)
        KV = lambda m: [{"k": cps(k), "v": cps(v)} for k, v in m.items()]
        L = lambda xs: [cps(x) for x in xs or []]
        force = [normpath(f) for f in case["force"]]
        ev = {"op": "config", "cfgs": [{"path": cps(c["path"]), "base": cps(c["base"]), "lg": c["locales"] is not None, "locales": L(c["locales"]), "env": KV(c["env"]),
                                        "paths": [{"ref": cps(p["ref"]), "l10n": cps(p["l10n"]), "lg": p["locales"] is not None, "locales": L(p["locales"])} for p in c["paths"]], "includes": L(c["includes"])} for c in cfgs],
              "files": L(files), "force": L(force), "setbase": case["setbase"] is not None, "newbase": cps(case["setbase"] or ""), "setloc": case["setloc"] is not None, "newloc": L(case["setloc"]), "fm": KV(case["fm"])}
        fns = {k: FN[v] for k, v in case["map"].items()}
        try:
            c = L10nConfigPaths(main, cfg_load=None if case["toml"] else load, force_paths=[A(f) for f in force] or None, locale_map=fns or None)
        except Exception as e:
            ev["out"] = exc(e)
            return ev
        if not case["toml"] and len(set(loads)) != len(loads):
            ev["out"] = {"k": "loaded_twice"}
            return ev
        try:
            if case["setbase"] is not None:
                b = A(case["setbase"])
                c.base = relpath(b) if case["cwd"] is not None else b
            if case["setloc"] is not None:
                c.locales = list(case["setloc"])
            fm = dict(case["fm"]) or None
            listing = c.all(format_map=fm)
            refs = list(c.ref_paths)
            paths = list(c.config_paths())
            out = {"k": "ok", "cfgs": [rel(p, strict=i > 0) for i, p in enumerate(paths)], "refs": [rel(p) for p in refs], "base": rel(c.base), "root": rel(c.ref_root), "locales": L(c.locales), "alllocs": L(c.all_locales),
                   "all": [{"ref": rel(r), "t": rel(t), "locs": L(ls)} for (r, t), ls in listing.items()], "targets": [], "filled": [], "finds": []}
            ev["out"] = out
            M = lambda lc: [{"k": cps(k), "v": cps(f(lc))} for k, f in fns.items()]

            def ask(p, lc):
                t, ls = c.target(p, format_map=fm, locale=lc)
                q = rel(normpath(join(c.ref_root, p)))
                out["targets"].append({"ref": q, "haslc": lc is not None, "lc": cps(lc or ""), "map": M(lc or ""), "some": t is not None, "path": rel(t) if t is not None else [], "locs": L(ls)})
                return t
            finds = []
            for i, r in enumerate(dict.fromkeys(refs)):
                if i > 5:
                    break
                for lc in [None] + case["locs"]:
                    p = relpath(r, c.ref_root) if (i + len(lc or "")) % 2 else r
                    t = ask(p, lc)
                    if t and lc:
                        finds.append(t)
                if r.endswith(".pot"):
                    ask(r[:-1], None)
                    ask(r[:-1], case["locs"][0])
            ask("en/none", None)
            ask("en/none.po", "fr")
            for i, ((r, t), ls) in enumerate(listing.items()):
                if i > 5:
                    break
                for lc in case["locs"][:2]:
                    f = c.format_target_path(t, lc)
                    out["filled"].append({"t": rel(t), "lc": cps(lc), "map": M(lc), "path": rel(f)})
                    finds.append(f)
            for f in case["files"][:4]:
                finds.append(A(normpath(f)))
                finds.append(A(normpath(f)).replace("/en/", "/fr/"))
            finds += [join(c.base, x) for x in ("fr/a.ftl", "fr/none", "fr/de/a.ftl", "x", "l/fr/x/a.po", "l10n/a.ftl")]
            finds += [f + "t" for f in finds[:3] if f.endswith(".po")] + [join(c.base, "fr/x/../" + relpath(f, join(c.base, "fr"))) for f in finds[:2]]
            for j, p in enumerate(dict.fromkeys(finds)):
                if j > 24:
                    break
                q = relpath(p, c.base) if j % 2 else p
                f = c.find_reference(q)
                out["finds"].append({"p": rel(normpath(p)), "some": f is not None, "ref": rel(f[0]) if f else odd, "vars": KV(f[1]) if f else []})
        except Exception as e:
            ev["out"] = exc(e)
        return ev
    finally:
        os.chdir(old)
        shutil.rmtree(S, ignore_errors=True)


def kind(case, ev):
    return ev["op"] + ("_" + ev["out"]["k"] if ev["op"] != "idle" else "")
