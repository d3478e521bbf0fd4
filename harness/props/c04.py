import json, logging, os, re, shutil
from os.path import join, relpath
from click.testing import CliRunner
from core import Model
from proj import cps, res
from props.c20 import deep
from props.c29 import nolp
import moz.l10n.bin.build as build
import moz.l10n.bin.build_file as build_file
from moz.l10n.resource import parse_resource
from moz.l10n.formats import UnsupportedFormat

JUDGE, VERDICT = "J_Build", "BuildVerdict"
MODELS = [Model("MC_Build", workers=3, emit=True, thorough_cfg="MC_Build_T"), Model("MC_Build", cfg="MC_Build_P", workers=3, emit=True, thorough_cfg="MC_Build_PT")]
QUICK_N, THOROUGH_N = 5000, 50000
ASSUMPTIONS = ["files are read by parse_resource, before and after (C15-C24 are about this)", "no identifier is repeated in a file; localizations are of their source's format and can be parsed",
               "l10n paths are below {l10n_base}, and no two are the same; the target directory is neither the source nor the base"]
HISTORY = False
# ------------------------------------------------------- files
ALL = [".ftl", ".properties", ".ini", ".json", "messages.json", ".dtd", ".inc", ".po", ".pot", ".xml", ".xliff", ".txt"]


def render(ext, d):
    """text of a file: d is a list of {id, at, v, com, alt} in order"""
    out = ""
    W = {0: "Text", 1: "Über", 2: "x y", 3: "Z"}
    if ext == ".ftl":
        out = ["### Resource\n\n", ""][d[0]["v"] % 2 if d else 1]
        for m in d:
            w = W[m["v"] % 4] + m["alt"]
            v = [w, w + " { $x }", "{ $n ->\n    [one] " + w + "\n   *[other] { -t }\n}", "a\n    " + w][m["v"] % 4]
            out += ["", "# c\n", "## G\n\n", "# standalone\n\n"][m["com"] % 4] + f"{m['id']} = {v}\n" + "".join(f"    .{a} = {w}{a}\n" for a in m["at"])
        return out + ("\n# the end\n" if d and d[-1]["com"] > 4 else "")
    if ext == ".properties":
        return "".join(["", "# c\n", "! d\n", "\n\n# s\n\n"][m["com"] % 4] + f"{m['id']} = {W[m['v'] % 4]}{m['alt']}{['', chr(92) + 'n.', ' %S'][m['v'] % 3]}\n" for m in d)
    if ext == ".ini":
        o, sec = "# top\n\n", None
        for m in sorted(d, key=lambda m: m["v"] % 2 if m["com"] % 3 == 0 else 0):
            s = "ST"[m["v"] % 2] if m["id"] > "c" else "S"
            if s != sec:
                if f"[{s}]" in o and m["com"] % 2:
                    continue
                o += f"[{s}]\n"
                sec = s
            o += ["", "# c\n", "\n# s\n\n"][m["com"] % 3] + f"{m['id'].strip('-')}={W[m['v'] % 4]}{m['alt']}\n"
        return o
    if ext == ".json":
        root = {}
        for m in d:
            if m["v"] % 3 == 2:
                root.setdefault("n", {})[m["id"]] = W[m["v"] % 4] + m["alt"]
            elif m["v"] % 3 == 1:
                root["n." + m["id"]] = W[m["v"] % 4] + m["alt"]
            else:
                root[m["id"]] = W[m["v"] % 4] + m["alt"]
        return json.dumps(root)
    if ext == "messages.json":
        return json.dumps({m["id"].strip("-") or "z": {"message": W[m["v"] % 4] + m["alt"] + (" $P$" if m["v"] % 2 else ""), **({"description": "d"} if m["com"] % 2 else {}),
                                                       **({"placeholders": {"P": {"content": "$1", **({"example": "e"} if m["com"] % 4 == 1 else {})}}} if m["v"] % 2 else {})} for m in d})
    if ext == ".dtd":
        return "".join(["", "<!-- c -->\n", "\n<!-- s -->\n\n"][m["com"] % 3] + f'<!ENTITY {m["id"].strip("-")} "{W[m["v"] % 4]}{m["alt"]}">\n' for m in d)
    if ext == ".inc":
        return ("#filter emptyLines\n\n" if d and d[0]["com"] % 2 else "") + "".join(["", "# c\n", ""][m["com"] % 3] + f'#define {m["id"].strip("-")} {W[m["v"] % 4]}{m["alt"]}\n' for m in d)
    if ext in (".po", ".pot"):
        o = 'msgid ""\nmsgstr ""\n"Project-Id-Version: ' + (d[0]["alt"] if d else "") + '\\n"\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
        for m in d:
            v = W[m["v"] % 4] + m["alt"] if ext == ".po" else ""
            o += ["", "# c\n", "#. e\n#: a.c:1\n", "#, fuzzy\n", '#| msgid "p"\n'][m["com"] % 5] + ('msgctxt "k"\n' if len(m["id"]) % 2 == 0 else "") + f'msgid "{m["id"]}"\n'
            o += f'msgid_plural "{m["id"]}s"\nmsgstr[0] "{v}"\nmsgstr[1] "{v}"\n\n' if m["id"] in ("b", "d2") else f'msgstr "{v}"\n\n'
        return o
    if ext == ".xml":
        o = '<?xml version="1.0" encoding="utf-8"?>\n<resources' + (' xmlns:tools="http://schemas.android.com/tools"' if not d or len(d) % 2 else "") + (' tools:locale="l"' if len(d) % 4 == 1 else "") + ">\n"
        ns = "xmlns:tools" in o
        for m in d:
            w, i = W[m["v"] % 4] + m["alt"], m["id"].strip("-")
            at = ['', ' translatable="false"', ' tools:ignore="X"' if ns else "", ''][m["com"] // 2 % 4]
            o += ["", "  <!-- c -->\n", "\n  <!-- s -->\n\n"][m["com"] % 3]
            if i == "b":
                o += f'  <plurals name="{i}"><item quantity="one">{w} %d</item><item quantity="other">{w}</item></plurals>\n'
            elif i == "c1":
                o += f'  <string-array name="{i}"><item>{w}</item><item>q</item></string-array>\n'
            else:
                o += f'  <string name="{i}"{at}>{w}{["", " %1$s", " <b>B</b>"][m["v"] % 3]}</string>\n'
        return o + "</resources>\n"
    if ext == ".xliff":
        tgt = any(m["alt"] for m in d)
        o = '<?xml version="1.0" encoding="utf-8"?>\n<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2">\n'
        fs = {}
        for m in d:
            fs.setdefault("f" if m["id"] < "c" else "g", []).append(m)
        for f, ms in fs.items():
            o += f'  <file original="{f}" source-language="en"{" target-language=" + chr(34) + "fr" + chr(34) if tgt else ""} datatype="plaintext">\n    <body>\n'
            for m in ms:
                o += ["", "", "      <!-- s -->\n"][m["com"] % 3]
                o += f'      <trans-unit id="{m["id"]}"{["", " approved=" + chr(34) + "yes" + chr(34)][m["v"] % 2]}>\n        <source>{W[m["v"] % 4]}</source>\n' + (f'        <target>{m["alt"]}{W[m["v"] % 4]}</target>\n' if tgt else "")
                o += ["", "        <note>n</note>\n", ""][m["com"] % 3] + "      </trans-unit>\n"
            o += "    </body>\n  </file>\n"
        return o + "</xliff>\n"
    return "plain " + "".join(m["id"] + m["alt"] for m in d)


def rdata(rng, alt, ids, xa):
    return [{"id": i, "at": [a for a in ["x", "y", "title"] if rng.random() < xa], "v": rng.randrange(12), "com": rng.randrange(10), "alt": alt} for i in ids]


IDS = ["a", "b", "c1", "d2", "-t", "-brand", "e"]


def rfile(rng, i):
    ext = rng.choice(ALL + [".ftl"] * 4)
    name = "messages.json" if ext == "messages.json" else rng.choice(["m", "n.o", "p q"]) + str(i) + ext
    d = rng.choice(["", "", "b/", "x/y/"])
    return d + (f"w{i}/" if ext == "messages.json" else "") + name


def rsrc(rng, p):
    ids = rng.sample(IDS if p.endswith(".ftl") else [i for i in IDS if i[0] != "-"], rng.choice([0, 1, 2, 3, 4, 5] if p.endswith((".ftl", ".po", ".pot", ".properties")) else [1, 2, 3, 4, 5]))
    return rdata(rng, "", ids, 0.3)


def rloc(rng, p, src, alt):
    r = rng.random()
    if r < 0.2:
        return None
    if r < 0.35:
        out = [{**m, "alt": alt} for m in src]
    else:
        out = [{**m, "alt": alt, "v": rng.randrange(12) if not p.endswith((".ini", ".json", ".xliff")) or rng.random() < 0.3 else m["v"], "com": rng.randrange(10), "at": [a for a in ["x", "y", "title"] if (a in m["at"]) != (rng.random() < 0.2)]} for m in src if rng.random() < 0.75]
        have = [m["id"] for m in src]
        out += rdata(rng, alt, [i for i in IDS if i not in have and (p.endswith(".ftl") or i[0] != "-") and rng.random() < 0.3], 0.3)
        rng.shuffle(out)
    return out if out or p.endswith((".ftl", ".po", ".pot", ".properties", ".inc", ".dtd")) else None


LCS = ["fr", "de", "pt-BR", "he"]


def gen(rng, n, shard, tier, history=False):
    for _ in range(n):
        files = []
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            p = rfile(rng, i)
            src = rsrc(rng, p)
            files.append({"p": p, "src": src, "locs": {lc: rloc(rng, p, src, lc) for lc in LCS[:3]}, "locales": rng.sample(LCS, 2) if rng.random() < 0.2 else None, "t": rng.choice(["", "", "", "values-{android_locale}/", "{locale}/"]) if p.endswith(".xml") else ""})
        steps = []
        if history:
            for _ in range(rng.choice([1, 2, 4, 6])):
                f = rng.randrange(len(files))
                if rng.random() < 0.4:
                    steps.append({"edit": f, "loc": rloc(rng, files[f]["p"], files[f]["src"], "new")} if rng.random() < 0.7 else {"edit": f, "src": rsrc(rng, files[f]["p"])})
                else:
                    steps.append({"build": f, "how": rng.choice(["l10n", "l10n", "l10n", "no"])})
        yield {"files": files, "ask": rng.choice(["fr", "fr,de", " pt-BR , fr", "'fr,de,pt-BR'", "he", '"de"']), "cov": history or rng.random() < 0.5, "rel": rng.random() < 0.4, "star": rng.random() < 0.3, "steps": steps, "single": rng.random() < 0.25 and not history, "v": rng.choice([0, 0, 1, 2]),
               "pre": rng.choice([[], [], [["old.ftl", 3, ["a", ["b", "c"]]]], [["m0.ftl", 9, ["q"]], ["z", 0, []]]])}


def from_model(c, history=False):
    S = lambda x: "".join(map(chr, x))
    D = lambda es, alt: [{"id": S(e["id"][0]), "at": [S(p["n"]) for p in e["props"]], "v": 0, "com": i, "alt": alt} for i, e in enumerate(es)]
    f = c["file"]
    src, loc = D(f["src"], ""), D(f["loc"], "L") if f["has"] else None
    k = len(f["src"]) + 2 * len(f["loc"])
    exts = [".ftl"] if c["fmt"] == "fluent" else [[".properties"], [".po"], [".inc"]][k % 3]
    if c["fmt"] != "fluent" and any(m["at"] for m in src + (loc or [])):
        return []
    return [{"files": [{"p": "m" + x, "src": src, "locs": {"fr": loc}, "locales": None, "t": ""}], "ask": "fr", "cov": True, "rel": k % 2 == 0, "star": k % 3 == 0, "steps": [{"build": 0, "how": "l10n"}] if history else [], "single": k % 4 == 1 and not history, "v": 0, "pre": []} for x in exts]


CASE_TIMEOUT = 20


def execute(case, history=False):
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "build")
    old = os.getcwd()
    shutil.rmtree(S, ignore_errors=True)
    lv, hs = logging.root.level, logging.root.handlers[:]
    logging.root.handlers[:] = [logging.NullHandler()]
    try:
        return _execute(case, S, history)
    finally:
        os.chdir(old)
        logging.root.setLevel(lv)
        logging.root.handlers[:] = hs
        shutil.rmtree(S, ignore_errors=True)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def snap(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(join(d, f), "rb") as fh:
                out[relpath(join(d, f), root)] = fh.read()
    return out


NORES = {"fmt": "", "com": [], "meta": [], "secs": []}


def rd(path):
    r = parse_resource(path)
    return {**deep(nolp(res(r))), "fmt": r.format.name}


def state(src, loc):
    """contents as recorded"""
    try:
        s, rec = rd(src), True
    except UnsupportedFormat:
        s, rec = NORES, False
    has = os.path.exists(loc)
    return {"rec": rec, "src": s, "has": has, "loc": rd(loc) if has and rec else NORES}


def built(tgt, src, loc):
    if not os.path.exists(tgt):
        return {"k": "none", "res": NORES}
    b = open(tgt, "rb").read()
    same = [os.path.exists(p) and open(p, "rb").read() == b for p in (src, loc)]
    try:
        return {"k": "res", "res": rd(tgt)}
    except UnsupportedFormat:
        return {"k": "both" if all(same) else "src" if same[0] else "l10n" if same[1] else "none", "res": NORES}


ANDROID = {"he": "iw", "pt-BR": "pt-rBR"}


def report(path):
    if not os.path.exists(path):
        return {"got": False, "rep": []}
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    return {"got": True, "rep": [{"key": cps(k), "total": v["total"], "missing": [[cps(i)] if isinstance(i, str) else [cps(x) for x in i] if len(i) > 1 else [[-1]] for i in v["missing"]]} for k, v in d.items()]}


def _execute(case, S, history):
    files = case["files"]
    ext = lambda p: "messages.json" if p.endswith("messages.json") else os.path.splitext(p)[1]
    text = lambda p, d: render(ext(p), d)
    tp = lambda f, lc: f["t"].replace("{locale}", lc).replace("{android_locale}", ANDROID.get(lc, lc)) + (f["p"][:-1] if f["p"].endswith(".pot") else f["p"])
    src, base, out = join(S, "src"), join(S, "l10n"), join(S, "out")
    if len({f["p"] for f in files}) < len(files):
        return {"op": "idle"}
    for f in files:
        put(join(src, "en", f["p"]), text(f["p"], f["src"]))
        for lc, d in f["locs"].items():
            if d is not None:
                put(join(base, lc, tp(f, lc)), text(f["p"] if not f["p"].endswith(".pot") else "x.po", d))
    os.makedirs(base, exist_ok=True)
    star = case["star"] and not any(f["t"] or f["locales"] for f in files)
    ents = [("en/**", "{l10n_base}/{locale}/**", None)] if star else [("en/" + f["p"], "{locale}/" + f["t"] + f["p"], f["locales"]) for f in files]
    put(join(src, "l10n.toml"), 'locales = ["nl"]\n' + "".join(f"[[paths]]\nreference = {json.dumps(r)}\nl10n = {json.dumps(t)}\n" + (f"locales = {json.dumps(ls)}\n" if ls else "") for r, t, ls in ents))
    ask = [x.strip() for x in case["ask"].strip("\"'").split(",")]
    if case["rel"]:
        os.makedirs(join(S, "cwd"))
        os.chdir(join(S, "cwd"))
    loc = relpath if case["rel"] else str
    wanted = [(f, lc) for f in files for lc in ask if not f["locales"] or lc in f["locales"]]
    before = snap(src), snap(base)
    ev = {"op": "build", "files": [], "ok": True, "targets": [], "reports": [], "reps": [], "inputs": True, "asked": case["cov"]}
    if not history:
        for f, lc in wanted:
            a, b, t = join(src, "en", f["p"]), join(base, lc, tp(f, lc)), join(out, lc, tp(f, lc))
            ev["files"].append({"path": cps(relpath(t, out)), "lc": cps(lc), "key": cps(tp(f, lc)), **state(a, b)})
        if case["single"]:
            for f, lc in wanted:
                a, b, t = join(src, "en", f["p"]), join(base, lc, tp(f, lc)), join(out, lc, tp(f, lc))
                if case["rel"] and len(wanted) == 1 and case["v"]:
                    os.makedirs(os.path.dirname(t))
                    os.chdir(os.path.dirname(t))
                r = CliRunner().invoke(build_file.cli, ["--source", loc(a), "--l10n", loc(b), "--target", loc(t)] + (["--coverage-base", loc(join(out, lc))] if case["cov"] else []))
                ev["ok"] &= r.exit_code == 0
            reps = [lc for lc in ask if any(x == lc for _, x in wanted)]
        else:
            args = ["--config", loc(join(src, "l10n.toml")), "--base", loc(base), "--target", loc(out), "--locales", case["ask"]] + (["--coverage"] if case["cov"] else []) + ["-v"] * case["v"]
            r = CliRunner().invoke(build.cli, args)
            ev["ok"] = r.exit_code == 0
            reps = ask
        ev["exc"] = repr(r.exception) if wanted or not case["single"] else ""
        if case["cov"]:
            ev["reports"] = [cps(lc + "/coverage.json") for lc in reps]
        for (f, lc), x in zip(wanted, ev["files"]):
            x["out"] = built(join(out, lc, tp(f, lc)), join(src, "en", f["p"]), join(base, lc, tp(f, lc)))
        ev["targets"] = [cps(p) for p in snap(out)]
        ev["inputs"] = (snap(src), snap(base)) == before
        ev["reps"] = [{"lc": cps(lc), "pre": [], **report(join(out, lc, "coverage.json"))} for lc in reps]
        return ev
    # one by one, over an existing report
    lc = "fr"
    cov = join(out, lc)
    pre = []
    if case["pre"]:
        put(join(cov, "coverage.json"), json.dumps({k: {"total": n, "missing": m} for k, n, m in case["pre"]}))
        pre = report(join(cov, "coverage.json"))["rep"]
    elif case["v"] == 1:  # on that of a full build
        r = CliRunner().invoke(build.cli, ["--config", loc(join(src, "l10n.toml")), "--base", loc(base), "--target", loc(out), "--locales", "fr", "--coverage"])
        ev["ok"] = r.exit_code == 0
        for f in files:
            if not f["locales"] or lc in f["locales"]:
                ev["files"].append({"lc": cps(lc), "key": cps(tp(f, lc)), **state(join(src, "en", f["p"]), join(base, lc, tp(f, lc)))})
    for st in case["steps"]:
        f = files[st.get("edit", st.get("build"))]
        a, b, t = join(src, "en", f["p"]), join(base, lc, tp(f, lc)), join(out, lc, tp(f, lc))
        if "edit" in st:
            if "src" in st:
                put(a, text(f["p"], st["src"]))
            elif st["loc"] is None:
                if os.path.exists(b):
                    os.remove(b)
            else:
                put(b, text(f["p"] if not f["p"].endswith(".pot") else "x.po", st["loc"]))
            continue
        x = {"lc": cps(lc), "key": cps(tp(f, lc)), **state(a, b)}
        if st["how"] == "no":  # the source locale: all is there
            x.update(has=True, loc=x["src"])
        ev["files"].append(x)
        r = CliRunner().invoke(build_file.cli, ["--source", loc(a), "--target", loc(t), "--coverage-base", loc(cov)] + (["--l10n", loc(b)] if st["how"] == "l10n" else []))
        ev["ok"] &= r.exit_code == 0
        ev["exc"] = repr(r.exception)
    ev["reps"] = [{"lc": cps(lc), "pre": pre, **report(join(cov, "coverage.json"))}]
    if not ev["files"] and not pre:
        return {"op": "idle"}
    return ev


def kind(case, ev):
    return ev["op"] + ("" if ev["op"] == "idle" else "_single" if case["single"] else "_history" if case["steps"] else "_all")
