from core import Model
import proj
from proj import *
from moz.l10n.formats.inc import inc_parse, inc_serialize
from moz.l10n.formats.ini import ini_parse, ini_serialize
from moz.l10n.model import Comment, PatternMessage
from moz.l10n.formats import Format
from props.c15 import rstr, pval

JUDGE, VERDICT = "J_IncIni", "IncIniVerdict"
MODELS = [Model("MC_IncIni", workers=3, emit=True, thorough_cfg="MC_IncIni_T")]
QUICK_N, THOROUGH_N = 24000, 240000
ASSUMPTIONS = [".inc comments are compared after serialization without indentation, leading # and outer blank lines, directives among them standing alone; newlines in values are spaces",
               ".ini comments are compared without trailing white space of lines and outer blank lines, values line by line without outer white space", "which characters beyond ASCII are word characters is taken from Python's str.isalnum()",
               "a rejected .ini text may raise any exception (of the INI parser library)"]


def from_model(c):
    return [{"op": "parse", "fmt": c["fmt"], "text": "".join(map(chr, c["text"]))}]


INCL = ["", "", " ", "\t", "#", "# ", "# c", "#  c d ", "# # c", "##c", "#c", "# #define x y", "#define a b", "#define\ta\t", "#define a", "#define  b  c d ", "#define é x", "#define a-b c", "#define", "#define  ", "#filter emptyLines", "#unfilter x", "# \u2028", "#\xa0x", "#define a #x", "#define a_1 \x85y", "#definea b", "# \u3000x"]
INCBAD = ["x", " #", "\ufeff", "a b", " # c", "\x00"]
INIL = ["", "", " ", "#", ";", "# c", "#c", "; c d", "#  c ", "rem", "rem c", "REM\tc", "remx = y", "rem=1", "[s]", "[s t]", "[s.t] # c", "[u];c", "[ s ]", "a = b", "a=b", "a: b", "a =", "a", "a b = c ", "a = b ; c", "a = b;c", "a = ;c", "a = b;d ;e", "  c", "\tc = d", " # c", "  [x]", "a\xa0= \u3000x", "\x1c c", "a[b]=c", "a = [s]", "-=x", "a = b = c", "a = b\u2028c", "#;", ";#"]
INIBAD = ["[", "[]", "[s", "[s] x", "= x", ": x", "[=x", "x", "  ", "]"]
INCK = ["a", "ab", "a_1", "é", "_", "1", "\u0660"]
INCBK = ["", "a b", "a-b", "a.b", "a\n", "#", "😀", "\xa0"]
INIK = ["a", "a b", "k.l", "é", "remx", "a;b", "a #b", "rem1", "\"", "a\rb", "😀", "-"]
INIBK = ["", " a", "a ", "a=b", "a:b", "[a]", "a\nb", "#a", ";a", "rem", "rem a", "REM\xa0x", "a\x85"]
VALS = ["", "x", "a b", " x ", "a\nb", "a\n\nb", "\na", "a\n", "a\n b\n\n  c", "; c", ";", "a ;b", "a; b", "x;y ;z", "#x", "[s]", "a=b", "a\r\nb", "a\rb", "a\x0bb", "a\u2028b", " \n ", "\n;c", "\n#c", "\n[s]\n", "a\n;c ;d", "\xa0", "a\xa0;b", "\t", "é", "😀", "\x00", "\x1c", "\x85x", "rem x", "a\n\x1fb"]
COMS = ["", "", "c", "c\nd", " c", "c ", "#c", "# c", "#", "# # c", " #c", "#filter x", "c\n#filter\nd", "#define a b", "c\n#define a b", "#define a-b c", " #define x y", "\n", " ", "c\n\nd", "\nc\n", "c\rd", "c\r\nd", ";c", "[s]", "\tc", "a = b", "c\n \nd", "é", "\u2028", "#\tx", "c\x0bd", "##", "# #", "# "]


def rtext(rng, fmt):
    good, bad = (INCL, INCBAD) if fmt == "inc" else (INIL, INIBAD)
    ls = [rng.choice(good) for _ in range(rng.randrange(0, 9))]
    if fmt == "ini" and rng.random() < 0.75:
        ls = [rng.choice(["", "# c", "; x", "rem c"]) for _ in range(rng.choice([0, 0, 1, 2, 4]))] + ["[s]"] + ls
    if rng.random() < 0.12:
        ls.insert(rng.randrange(len(ls) + 1), rng.choice(bad))
    nl = rng.choice(["\n", "\n", "\r\n", "\r"] if fmt == "inc" else ["\n", "\n", "\r\n"])
    t = nl.join(ls) + rng.choice(["", nl])
    if rng.random() < 0.1 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice(["", " ", "\n", "#", ";", "=", "\r", "[", "\x0c"]) + t[i + 1:]
    if rng.random() < 0.03:
        t = "\ufeff" + t
    return t


def rres(rng, fmt):
    secs = []
    ks, bks = (INCK, INCBK) if fmt == "inc" else (INIK, INIBK)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ents = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < 0.25:
                ents.append(COM(rstr(rng, COMS)))
            else:
                v = rstr(rng, VALS)
                k = rng.randrange(len(v) + 1)
                val = rng.choice([PM(v), PM(v), T(v), PM(v[:k], v[k:])])
                if rng.random() < 0.02:
                    val = rng.choice([PM(v, EXP(VAR("x"))), PM(MKU("open", "b", attr={"source": LIT("<b>")})), {"t": "sel", "decl": [{"n": "x", "e": EXP(VAR("x"), "number")}], "sel": ["x"], "var": [{"k": [{"t": "any", "s": ""}], "p": []}]}])
                id = [rng.choice(ks)] if fmt == "inc" or rng.random() < 0.7 else [rng.choice(ks + ["", " "]) for _ in range(rng.choice([1, 2, 3]))]
                if rng.random() < 0.05:
                    id = rng.choice([[rng.choice(bks)], [], ["a", "b"], ["a", rng.choice(bks)]])
                ents.append(ENT(id, val, rstr(rng, COMS), [("m", "x")] if rng.random() < 0.02 else []))
        if fmt == "ini":
            sid = rng.choice([["s"], ["s"], ["s", "t"], ["#"], ["DEFAULT"], ["s t"], ["rem"]]) if rng.random() < 0.96 else rng.choice([[], [""], [rng.choice(INIBK)], ["s", ""], ["", "s"]])
        else:
            sid = [] if rng.random() < 0.97 else rng.choice([["s"], [""]])
        secs.append(SEC(sid, ents, rng.choice(["", "", rstr(rng, COMS)]), [("m", "x")] if rng.random() < 0.01 else []))
    return RES(fmt, secs, rng.choice(["", rstr(rng, COMS)]), [("m", "x")] if rng.random() < 0.01 else [])


def gen(rng, n, shard, tier):
    for _ in range(n):
        fmt = rng.choice(["inc", "ini"])
        if rng.random() < 0.5:
            yield {"op": "parse", "fmt": fmt, "text": rtext(rng, fmt), "bytes": rng.random() < 0.3}
        else:
            yield {"op": "ser", "fmt": fmt, "res": rres(rng, fmt)}


def items(es):
    out, ok = [], True
    for e in es:
        if isinstance(e, Comment):
            out.append({"t": "com", "com": cps(e.comment)})
        else:
            ok = ok and len(e.id) == 1 and not e.meta and not e.properties and isinstance(e.value, PatternMessage) and len(e.value.pattern) <= 1
            out.append({"t": "ent", "key": cps(".".join(e.id)), "val": pval(e.value), "com": cps(e.comment)})
    return out, ok


def parsed(fmt, src):
    if fmt == "inc":
        r = inc_parse(src)
        it, ok = items([e for s in r.sections for e in s.entries])
        return {"items": it, "shape": ok and r.format == Format.inc and len(r.sections) == 1 and r.sections[0].id == () and r.sections[0].comment == "" and r.comment == "" and not r.meta and not r.sections[0].meta}
    r = ini_parse(src)
    secs = [{"name": cps(".".join(s.id)), "com": cps(s.comment), "items": items(s.entries)[0]} for s in r.sections]
    return {"secs": secs, "com": cps(r.comment), "shape": r.format == Format.ini and not r.meta and all(len(s.id) == 1 and not s.meta and items(s.entries)[1] for s in r.sections)}


def words(s):
    return sorted({ord(c) for c in s if ord(c) > 127 and c.isalnum()})


def execute(case):
    op, fmt = case["op"], case["fmt"]
    if op == "parse":
        ev = {"op": op, "fmt": fmt, "text": cps(case["text"]), "w": words(case["text"]), "raised": False}
        try:
            return dict(ev, **parsed(fmt, case["text"].encode() if case.get("bytes") else case["text"]))
        except Exception as e:
            return dict(ev, **dict(exc(e), raised=True))
    res = case["res"]

    def jval(v):
        if v["t"] == "str":
            return cps(v["s"]), False
        if v["t"] == "pat" and not v["decl"] and all(p["t"] == "txt" for p in v["p"]):
            return cps("".join(p["s"] for p in v["p"])), False
        return [], True
    ents = lambda s: [{"t": "com", "com": cps(e["com"])} if e["t"] == "com" else {"t": "ent", "id": [cps(x) for x in e["id"]], "com": cps(e["com"]), "meta": bool(e["meta"]), "val": jval(e["val"])[0], "odd": jval(e["val"])[1]} for e in s["ents"]]
    jres = {"com": cps(res["com"]), "meta": bool(res["meta"]),
            "secs": [{"id": [cps(x) for x in s["id"]], "com": cps(s["com"]), "meta": bool(s["meta"]), "ents": ents(s)} for s in res["secs"]]}
    ev = {"op": op, "fmt": fmt, "res": jres, "w": words(canon(res)), "raised": False}
    try:
        t = "".join((inc_serialize if fmt == "inc" else ini_serialize)(u_res(res)))
    except Exception as e:
        return dict(ev, **dict(exc(e), raised=True))
    try:
        b = parsed(fmt, t)
        b = b["items"] if fmt == "inc" else {"secs": b["secs"], "com": b["com"]}
    except Exception as e:
        b = [{"t": "com", "com": [-1]}] if fmt == "inc" else {"secs": [], "com": [-1]}
    return dict(ev, text=cps(t), back=b)


def canon(x):
    if isinstance(x, str):
        return x
    return "".join(map(canon, x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else []))


def kind(case, ev):
    return ev["fmt"] + "_" + ev["op"] + ("_raised" if ev["raised"] else "")
