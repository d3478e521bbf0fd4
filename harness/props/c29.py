import copy
from core import Model
import proj
from proj import *
from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource
from props.c20 import deep

JUDGE, VERDICT = "J_Trim", "TrimVerdict"
MODELS = [Model("MC_Trim", workers=3, emit=True, thorough_cfg="MC_Trim_T")]
QUICK_N, THOROUGH_N = 9000, 90000
ASSUMPTIONS = ["what is comment: comments, standalone comments, metadata the format holds in comments or not at all (notes in XLIFF, not XML comments in the metadata of entries and sections; references, flags and translator comments in gettext), examples of webext placeholders, obsolete gettext entries; preprocessor directives of .inc files are kept",
               "a resource that is refused even without its comments may be refused"]
XNS = "urn:oasis:names:tc:xliff:document:1.2"
FMTS = ["dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "android", "xliff"]


def undeep(x, k=""):
    """Code points to strings, as MC_Trim has them."""
    if isinstance(x, dict):
        return {n: undeep(v, n) for n, v in x.items()}
    if isinstance(x, list):
        if k in ("com", "s", "k", "v") and all(isinstance(c, int) for c in x):
            return "".join(map(chr, x))
        if k == "id":
            return ["".join(map(chr, p)) for p in x]
        return [undeep(v) for v in x]
    return x


# ------------------------------------------------- the resource without its comments (also judged)
def note(k):
    return any(p.split("[")[0] == "note" for p in k.split("/"))


def meta(fmt, m):
    return m if fmt == "android" else [x for x in m if not note(x["k"])] if fmt == "xliff" else [x for x in m if x["k"] == "plural"] if fmt == "gettext" else []


def com(fmt, c):
    return "\n".join(l for l in c.split("\n") if l[:1] == "#" and l[1:2] != " " and l[:8] != "#define ") if fmt == "inc" else ""


def bare(r):
    f = r["fmt"]
    r = copy.deepcopy(r)
    r["com"] = com(f, r["com"])
    r["meta"] = r["meta"] if f in ("dtd", "gettext", "android", "xliff") else []
    for s in r["secs"]:
        s["com"] = com(f, s["com"])
        s["meta"] = meta(f, s["meta"]) if f in ("xliff", "android") else []
        es = []
        for e in s["ents"]:
            e["com"] = com(f, e["com"])
            if e["t"] == "com":
                if e["com"]:
                    es.append(e)
                continue
            if f == "gettext" and [m["v"] for m in e["meta"] if m["k"] == "obsolete"][-1:] not in ([], ["false"]):
                continue
            e["meta"] = meta(f, e["meta"])
            if f == "webext" and e["val"]["t"] == "pat":
                for d in e["val"]["decl"]:
                    d["e"]["attr"] = [a for a in d["e"]["attr"] if a["n"] != "example"]
            es.append(e)
        s["ents"] = es
    return r


# ------------------------------------------------- cases
def from_model(c):
    r = undeep(c["res"])
    if r["fmt"] == "xliff":
        r["meta"] = [{"k": "@xmlns", "v": XNS}, {"k": "@version", "v": "1.2"}]
        for s in r["secs"]:
            for e in s["ents"]:
                if e["t"] == "ent":
                    e["meta"] = [{"k": "source", "v": "s"}] + [{"k": "@x" if m["k"] != "note" else "note", "v": m["v"]} for m in e["meta"]]
        seen = []
        for s in r["secs"]:
            while s["id"] in seen:
                s["id"] = s["id"] + ["g"]
            seen.append(s["id"])
    return [{"op": "trim", "res": r, "plain": True}]


COMS = ["", "", "c", "c\nd", "# x", "#filter a", "c -- d", "\n", "c\n\nd", "#", "é", "\tc ", "##", "key = v", "<!-- a -->", "#~ x", "#define a b", "#, fuzzy", "; c", "[x]", "c\n#if 1", " ", "-->", "@Metadata: x", "[[ c ]]", "# LOCALIZATION NOTE (a): b"]
NAMES = ["a", "b", "c", "foo", "k1", "_x"]
PLAIN = ["a", "b c", "é", "x1", "Foo bar", "a, b"]
MORE = ["", " ", " a ", "a\nb", "<b>x</b>", "a & b", "'q'", "\"q\"", "\\", "{x}", "%s", "$1", "@x", "a  b", "#", "\n"]


def rcom(rng, p=0.5):
    return rng.choice(COMS) if rng.random() < p else ""


def rmeta(rng, fmt, what):
    if fmt == "xliff":
        if what == "res":
            return [("@xmlns", XNS)] + [("@version", "1.2")] + [m for m in [("@xmlns:q", "urn:q"), ("@q:x", "y")] if rng.random() < 0.4]
        if what == "sec":
            pool = [("@source-language", "en"), ("@target-language", "de"), ("header/note", "h"), ("header/tool/@tool-id", "t"), ("header/note/@from", "me"), ("header/comment()", " c "), ("@datatype", "plaintext"), ("header/skl/external-file/@href", "u"), ("note", "g"), ("note[2]", "g")]
        else:
            pool = [("target", ""), ("note", "n"), ("note/@from", "dev"), ("note[2]", "n2"), ("note[2]/@priority", "1"), ("comment()", " c "), ("@approved", "yes"), ("@xml:space", "preserve"), ("context-group/context", "x"), ("context-group/note", "n"), ("context-group/comment()", "n"), ("alt-trans/target", "t"), ("alt-trans/note", "tn"), ("context-group/@purpose", "p"), ("notes", "q"), ("alt-trans/target/@state", "n")]
        ms = [m for m in pool if rng.random() < 0.25]
        if what == "ent":
            ms = [("source", rng.choice(PLAIN))] + ms
        return ms
    if fmt == "android":
        return [m for m in [("translatable", "false"), ("product", "p"), ("tools:ignore", "X"), ("note", "n")] if rng.random() < 0.3] if what == "ent" else [("xmlns:tools", "http://schemas.android.com/tools")] if what == "res" and rng.random() < 0.5 else [("x", "y")] if what == "sec" and rng.random() < 0.4 else []
    if fmt == "gettext":
        if what == "res":
            return [m for m in [("Language", "fi"), ("Plural-Forms", "nplurals=2; plural=n != 1;"), ("Content-Type", "text/plain; charset=UTF-8")] if rng.random() < 0.5]
        pool = [("translator-comments", "t"), ("translator-comments", "t\nu"), ("reference", "a.c:1"), ("reference", "b.c"), ("reference", "a b"), ("flag", "fuzzy"), ("flag", "c-format"), ("flag", "a, b"), ("plural", "ps"), ("obsolete", "true"), ("obsolete", "false"), ("x", "y"), ("obsolete", "")]
    elif fmt == "dtd" and what == "res":
        pool = []
    else:
        pool = [("x", "y"), ("info", "z"), ("", ""), ("note", "n"), ("plural", "p")]
    return [m for m in pool if rng.random() < 0.2] if rng.random() < 0.6 else []


def rplain(rng, plain):
    return rng.choice(PLAIN) if plain or rng.random() < 0.5 else rng.choice(MORE)


def rval(rng, fmt, plain):
    v = PM(rplain(rng, plain)) if rng.random() < 0.8 else T(rplain(rng, plain))
    if rng.random() < 0.6:
        return v
    sel = lambda keys, fn="number", attr=None: {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), fn, {}, attr or {})}], "sel": ["n"], "var": [{"k": [{"t": "any", "s": "=" + k} if i == len(keys) - 1 else {"t": "key", "s": k}], "p": [{"t": "txt", "s": rng.choice(PLAIN)}]} for i, k in enumerate(keys)]}
    if fmt == "fluent":
        return rng.choice([lambda: PM("a ", EXP(VAR("x")), " b"), lambda: sel(rng.choice([["one", "other"], ["other"]]))])()
    if fmt == "android":
        return rng.choice([lambda: PM("a ", EXP(VAR("arg1"), "string", {}, {"source": LIT("%1$s")})), lambda: sel(rng.choice([["one", "other"], ["other"]])), lambda: PM("a ", MKU("open", "b"), "x", MKU("close", "b"))])()
    if fmt == "gettext":
        return sel(["0", "1"])
    if fmt == "webext":
        return {"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("arg1"), "", {}, {"source": LIT("$1"), **({"example": LIT("ex")} if rng.random() < 0.7 else {})})}] + ([{"n": "y", "e": EXP(VAR("arg2"), "", {}, {"source": LIT("$2"), "example": LIT("")})}] if rng.random() < 0.3 else []),
                "p": [{"t": "txt", "s": "a "}, EXP(VAR("x"), "", {}, {"source": LIT("$x$")})]}
    if fmt == "xliff":
        return PM("a ", MKU("standalone", "x", {"id": LIT("1")}), " b")
    return v


def rres(rng, fmt, plain):
    secs, seen, k = [], set(), 0
    for i in range(rng.choice([1, 1, 2, 3])):
        sid = [] if fmt not in ("ini", "xliff") and (plain or rng.random() < 0.95) else rng.choice([["s1"], ["s2"], ["s1", "t"], ["s2", "t"]])
        if fmt == "android" and i == 0 and rng.random() < 0.1:
            sid = ["!ENTITY"]
        if (fmt == "xliff" or fmt == "ini") and tuple(sid) in seen:
            continue
        seen.add(tuple(sid))
        ents = []
        arr = 0
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if rng.random() < 0.3:
                ents.append(COM(rng.choice(COMS)))
                continue
            k += 1
            eid = [rng.choice(NAMES) + str(k)]
            v = rval(rng, fmt, plain) if sid != ["!ENTITY"] else PM(rng.choice(PLAIN))
            m = rmeta(rng, fmt, "ent")
            if fmt in ("plain_json", "gettext") and rng.random() < 0.2:
                eid = eid + [rng.choice(NAMES)]
            if fmt == "android" and sid == [] and rng.random() < 0.2:
                n = "arr" + str(k)
                for j in range(rng.choice([1, 2])):
                    ents.append(ENT([n, str(j)], PM(rng.choice(PLAIN)), rcom(rng), []))
                    if rng.random() < 0.2:
                        ents.append(COM(rng.choice(COMS)))
                continue
            props = [(p, PM(rng.choice(PLAIN))) for p in rng.sample(["title", "label"], rng.choice([0, 1, 2]))] if fmt == "fluent" and rng.random() < 0.4 else []
            ents.append(ENT(eid, v, rcom(rng), m, props))
        secs.append(SEC(sid, ents, rcom(rng, 0.4), rmeta(rng, fmt, "sec") if rng.random() < 0.4 else []))
    if fmt == "xliff":  # groups are parts of their files
        secs.sort(key=lambda s: s["id"])
    return RES(fmt, secs, rcom(rng), rmeta(rng, fmt, "res"))


def xcode(rng):
    """Selects of Xcode's .stringsdict and .xcstrings files."""
    fn = rng.choice(["a.stringsdict", "a.xcstrings"])
    keys = rng.choice([["one", "other"], ["other"]])
    notes = rng.random() < 0.6
    ms = []
    for k in (["format"] if fn == "a.stringsdict" and rng.random() < 0.7 else []) + keys:
        ms.append((k + "/source", "%#@n@" if k == "format" else "s"))
        if notes:
            ms.append((k + "/note", "c"))
    fmt = any(k.startswith("format") for k, _ in ms)
    v = {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number", {}, {"source": LIT("%#@n@")} if fmt else {})}], "sel": ["n"],
         "var": [{"k": [{"t": "key", "s": k} if k != "other" else {"t": "any", "s": "=other"}], "p": [{"t": "txt", "s": rng.choice(PLAIN)}]} for k in keys]}
    return RES("xliff", [SEC([fn], [COM("c")] * rng.choice([0, 1]) + [ENT(["m"], v, rcom(rng), ms)], rcom(rng), [("@source-language", "en"), ("header/tool/@tool-id", "com.apple.dt.xcode")])], rcom(rng), [("@xmlns", XNS), ("@version", "1.2")])


def gen(rng, n, shard, tier):
    for i in range(n):
        fmt = FMTS[i % len(FMTS)]
        if fmt == "xliff" and rng.random() < 0.2:
            yield {"op": "trim", "res": xcode(rng), "plain": False}
            continue
        plain = rng.random() < 0.7
        r = rres(rng, fmt, plain)
        yield {"op": "trim", "res": r, "plain": plain and all(e["t"] == "com" or e["val"]["t"] == "str" or len(e["val"].get("p", [])) == 1 for s in r["secs"] for e in s["ents"])}


def nolp(x):
    if isinstance(x, dict):
        return {k: nolp(v) for k, v in x.items() if k != "lp"}
    return [nolp(v) for v in x] if isinstance(x, list) else x


def wrap(r):
    d = deep(nolp(r))
    d["fmt"] = r["fmt"]
    return d


def run(r, trim):
    try:
        text = "".join(serialize_resource(u_res(r), trim_comments=trim))
    except Exception as e:
        return {"ok": False, "ve": isinstance(e, ValueError), "back": wrap(RES(r["fmt"], []))}
    try:
        back = proj.res(parse_resource(Format[r["fmt"]], text))
    except Exception as e:
        return {"ok": False, "ve": False, "back": wrap(RES(r["fmt"], []))}
    return {"ok": True, "ve": True, "back": wrap(back)}


def execute(case):
    r = case["res"]
    b = bare(r)
    return {"op": "trim", "res": wrap(r), "bare": wrap(b), "t": run(r, True), "b": run(b, False), "plain": case["plain"]}


def kind(case, ev):
    return ev["op"] + ("" if ev["op"] == "idle" else "_" + case["res"]["fmt"] + ("" if ev["b"]["ok"] else "_refused"))
