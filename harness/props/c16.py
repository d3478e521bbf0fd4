from core import Model
import proj
from proj import *
from moz.l10n.formats.dtd import dtd_parse, dtd_serialize
from moz.l10n.model import Comment, PatternMessage
from moz.l10n.formats import Format
from props.c15 import rstr, pval

JUDGE, VERDICT = "J_Dtd", "DtdVerdict"
MODELS = [Model("MC_Dtd", workers=3, emit=True, thorough_cfg="MC_Dtd_T")]
QUICK_N, THOROUGH_N = 12000, 120000
ASSUMPTIONS = ["comments are compared after serialization without indentation, outer blank lines and zero-width spaces (which keep dashes apart), and hold no entity declaration",
               "serialization drops comment markup inside values", "names are those of the parser's pattern (Basic Multilingual Plane)", "include locations hold no angle brackets"]


def from_model(c):
    return [{"op": "parse", "text": "".join(map(chr, c["text"]))}]


AT = ['<!ENTITY a "x">', "<!ENTITY b.c 'y\"'>", '<!ENTITY d "l1\nl2">', "<!ENTITY e '<!-- n -->'>", '<!ENTITY f "">', "<!ENTITY\tg\n'z' >", "<!-- c1 -->", "<!--c2\n d -->", "<!-- -->", "<!-- a - b -->", "<! -- q -- >",
      "\n", "\n", "\n", " ", "\n\n", "\r\n", "\r\n\r\n", '<!ENTITY % p SYSTEM "chrome://p.dtd">%p;', "<!ENTITY % q SYSTEM 'u'>\n %q;\n", '<!-- <!ENTITY old "v"> -->', "\t"]
BADAT = ["x", "<", "<!", "<!--", "-->", "--", "<!ENTITY", '<!ENTITY 1a "x">', '<!ENTITY a b "x">', "<!ENTITY a x>", '<!ENTITY a "x>', '<!ENTITY % p SYSTEM "u">%r;', '<!ENTITY % p "u">', "%p;", "<!ELEMENT a>", "'", '"', ">", "&a;", "\x1c", "\x85", "\u2028"]
CH = ["<", "!", "-", "-", ">", '"', "'", "E", "a", " ", "\n", "%", ";", "<!--", "-->", "<!ENTITY ", '"x"']
KEYS = ["a", "b.c", "k-1", "_x", ":", "é", "a·", "Z9", "\u3001", "a.b"]
BADK = ["", "1a", "a b", "-x", "a\"", "a>", "😀", "a\n", ".a", "\xd7", "a%"]
VALS = ["", "x", "a b", " x ", '"', "'", "\"'", "'\"'", "&quot;", "&amp;", "<", ">", "%", "x\ny", "\r\n", "\t", "é", "😀", "<!--", "-->", "<!-- n -->", "a<!--b-->c", "<! --x-- >", "--", "\x00", "\u2028", '<!ENTITY q "z">', "%p;"]
URIS = ["", "u", "chrome://b/l.dtd", "a b", "x'y", "x\"y", "\"'", "%p;", "\n", "é"]
COMS = ["", "", "c", "c\nd", " c", "c ", "--", "-", "---", "a--b", "a - b", "->", ">", "\n", " ", "c\n\nd", "\nc\n", "\tc", "c\n  d", "é", "c-", "-c", "c\n-", "<!--", "%x;", "c\r\nd", "\u200b", "----", "<"]


def rtext(rng):
    r = rng.random()
    if r < 0.15:
        return "".join(rng.choice(CH) for _ in range(rng.randrange(1, 14)))
    s = [rng.choice(AT) for _ in range(rng.randrange(1, 10))]
    if rng.random() < 0.2:
        s.insert(rng.randrange(len(s) + 1), rng.choice(BADAT))
    t = "".join(s)
    if rng.random() < 0.1 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice(["", " ", "\n", "-", '"', "x"]) + t[i + 1:]
    return t


def rres(rng):
    secs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ents = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < 0.25:
                ents.append(COM(rstr(rng, COMS)))
            else:
                v = rstr(rng, VALS)
                k = rng.randrange(len(v) + 1)
                val = rng.choice([PM(v), PM(v), T(v), PM(v[:k], v[k:])])
                if rng.random() < 0.02:
                    val = rng.choice([PM(v, EXP(VAR("x"))), PM(MKU("open", "b", attr={"source": LIT("<b>")})), {"t": "sel", "decl": [{"n": "x", "e": EXP(VAR("x"), "number")}], "sel": ["x"], "var": [{"k": [{"t": "any", "s": ""}], "p": []}]}])
                ents.append(ENT([rng.choice(KEYS) for _ in range(rng.choice([1, 1, 1, 2]))] if rng.random() < 0.97 else [rng.choice(BADK)], val, rstr(rng, COMS), [("m", "x")] if rng.random() < 0.02 else []))
        secs.append(SEC(rng.choice([[], [], [], ["s"], ["s", "t"]]), ents, rng.choice(["", "", rstr(rng, COMS)]), [("m", "x")] if rng.random() < 0.01 else []))
    meta = [(rng.choice(["p", "q.r", "p"]) if rng.random() < 0.95 else rng.choice(BADK), rng.choice(URIS)) for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
    return RES("dtd", secs, rng.choice(["", rstr(rng, COMS)]), meta)


def gen(rng, n, shard, tier):
    for _ in range(n):
        if rng.random() < 0.5:
            yield {"op": "parse", "text": rtext(rng), "bytes": rng.random() < 0.3}
        else:
            yield {"op": "ser", "res": rres(rng)}


def items(r):
    out, ok = [], len(r.sections) == 1 and r.format == Format.dtd
    for s in r.sections:
        ok = ok and s.id == () and s.comment == "" and s.meta == []
        for e in s.entries:
            if isinstance(e, Comment):
                out.append({"t": "com", "com": cps(e.comment)})
            else:
                ok = ok and len(e.id) == 1 and not e.meta and not e.properties and isinstance(e.value, PatternMessage) and len(e.value.pattern) == 1
                out.append({"t": "ent", "key": cps(".".join(e.id)), "val": pval(e.value), "com": cps(e.comment)})
    return out, ok


def back(t):
    r = dtd_parse(t)
    return {"items": items(r)[0], "com": cps(r.comment), "meta": [{"k": cps(m.key), "v": cps(m.value)} for m in r.meta]}


def execute(case):
    op = case["op"]
    if op == "parse":
        ev = {"op": op, "text": cps(case["text"]), "raised": False}
        try:
            r = dtd_parse(case["text"].encode() if case.get("bytes") else case["text"])
            it, ok = items(r)
            return dict(ev, items=it, com=cps(r.comment), meta=[{"k": cps(m.key), "v": cps(m.value)} for m in r.meta], shape=ok)
        except Exception as e:
            return dict(ev, **dict(exc(e), raised=True))
    res = case["res"]

    def jval(v):
        if v["t"] == "str":
            return cps(v["s"]), False
        if v["t"] == "pat" and not v["decl"] and all(p["t"] == "txt" for p in v["p"]):
            return cps("".join(p["s"] for p in v["p"])), False
        return [], True
    ents = lambda s: [{"t": "com", "com": cps(e["com"])} if e["t"] == "com" else {"t": "ent", "id": [cps(x) for x in e["id"]], "com": cps(e["com"]), "meta": bool(e["meta"]), "val": jval(e["val"])[0], "odd": jval(e["val"])[1]} for e in s["ents"]]
    jres = {"com": cps(res["com"]), "meta": [{"k": cps(m["k"]), "v": cps(m["v"])} for m in res["meta"]],
            "secs": [{"id": [cps(x) for x in s["id"]], "com": cps(s["com"]), "meta": bool(s["meta"]), "ents": ents(s)} for s in res["secs"]]}
    ev = {"op": op, "res": jres, "raised": False}
    try:
        t = "".join(dtd_serialize(u_res(res)))
    except Exception as e:
        return dict(ev, **dict(exc(e), raised=True))
    try:
        b = back(t)
    except Exception as e:
        b = {"items": [], "com": [-1], "meta": []}
    return dict(ev, text=cps(t), back=b)


def kind(case, ev):
    return ev["op"] + ("_raised" if ev["raised"] else "")
