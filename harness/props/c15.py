from core import Model
import proj
from proj import *
from moz.l10n.formats.properties import properties_parse, properties_parse_message, properties_serialize, properties_serialize_message
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section
from moz.l10n.formats import Format

JUDGE, VERDICT = "J_Properties", "PropertiesVerdict"
MODELS = [Model("MC_Properties", workers=3, emit=True, thorough_cfg="MC_Properties_T")]
QUICK_N, THOROUGH_N = 12000, 160000
ASSUMPTIONS = ["comments are compared after serialization without trailing spaces of lines and outer blank lines", "text holds no unpaired surrogates (keys and values may not either)",
               "the parts of a section or entry identifier are joined by dots; a value is the concatenation of its text"]


def from_model(c):
    s = "".join(map(chr, c["text"]))
    return [{"op": "parse", "text": s}, {"op": "msg", "text": s}]


CH = ["a", "b", "k", "1", "u", "n", "t", " ", " ", "\t", "\f", "\\", "\\", "\n", "\r", "\r\n", "=", ":", "#", "!", "\\\n", "\\\r\n", "\\u0041", "\\u9", "\\ud83d\\ude00", "é", "\u2028", "\x85", "\x1c", "\xa0", "\x00", "😀", "%s", "\"", "\x0b"]
LINES = ["a = b", "a=b\\", "  c d", "# c", "#", "#  d", "! e", "", " ", "key\\", "key \\", "  = v", "x:y", "k", "=v", "a\\=b = c ", "\\u0041 = \\u00e9", "#! x", "\\", "  #x", "\ta = \\", "\f", "a = b\\\\", "a = b\\\\\\"]
KEYS = ["a", "key", "a.b", "#a", "!x", "a b", " a", "a=b", "a:b", "\\", "a\\", "\n", "é", "", "\t", "a#", "😀", "\u2028", "=", "\x0c", "\x00", "\xa0x", "u0041", "a "]
VALS = ["", "x", "a b", " x", "x ", " ", "  ", "\\", "\\ ", "x\\", "\n", "a\nb", "\t", "\tx\t", "\r\n", "\x0c", "#x", "=x", ":", "é", "\u2028x", "\xa0x", "x\xa0", "\u3000", "\x1c", "\x85", "\x00", "\x1f", "😀", "\\u0041", "a\\nb", "\ud7ff\ue000", "\uffff", "\ufeff", "%s", "{x}", "\U0010ffff"]
COMS = ["", "", "c", "c\nd", " c", "c ", "#c", "\n", " ", "c\n\nd", "\nc\n", "c\rd", "c\r\nd", "! c", "\tc", "k = v", "c\n \nd", "é", "\u2028", "c\x0cd", "\\", "c\\"]


def rtext(rng):
    r = rng.random()
    if r < 0.5:
        return "".join(rng.choice(CH) for _ in range(rng.randrange(1, 22)))
    ls = [rng.choice(LINES) if rng.random() < 0.85 else "".join(rng.choice(CH) for _ in range(rng.randrange(6))) for _ in range(rng.randrange(1, 9))]
    nl = rng.choice(["\n", "\r\n", "\r", None])
    return "".join(x + (nl or rng.choice(["\n", "\r\n", "\r"])) for x in ls[:-1]) + ls[-1] + rng.choice(["", "\n"])


def rstr(rng, pool):
    r = rng.random()
    if r < 0.6:
        return rng.choice(pool)
    if r < 0.85:
        return "".join(rng.choice(pool) for _ in range(rng.choice([2, 2, 3])))
    return "".join(chr(rng.choice([rng.randrange(0x80), rng.randrange(0x300), rng.randrange(0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x110000)])) for _ in range(rng.randrange(1, 5)))


def rres(rng):
    secs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ents = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < 0.25:
                ents.append(COM(rstr(rng, COMS)))
            else:
                v = rstr(rng, VALS)
                k = rng.randrange(len(v) + 1)
                ents.append(ENT([rstr(rng, KEYS) for _ in range(rng.choice([1, 1, 1, 2]))], rng.choice([PM(v), PM(v), PM(v[:k], v[k:]), PM() if not v else PM(v)]), rstr(rng, COMS),
                                [("m", "x")] if rng.random() < 0.02 else []))
        secs.append(SEC(rng.choice([[], [], [], ["s"], ["s", "t"], ["#"]]), ents, rng.choice(["", "", rstr(rng, COMS)]), [("m", "x")] if rng.random() < 0.01 else []))
    return RES("properties", secs, rng.choice(["", rstr(rng, COMS)]), [("m", "x")] if rng.random() < 0.01 else [])


def gen(rng, n, shard, tier):
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            yield {"op": "parse", "text": rtext(rng), "bytes": rng.random() < 0.3}
        elif r < 0.5:
            yield {"op": "msg", "text": rtext(rng) if rng.random() < 0.5 else "".join(rng.choice(CH) for _ in range(rng.randrange(1, 8)))}
        elif r < 0.6:
            yield {"op": "msgser", "val": rstr(rng, VALS), "ascii": rng.random() < 0.5}
        else:
            yield {"op": "ser", "res": rres(rng), "ascii": rng.random() < 0.4}


def pval(m):
    if isinstance(m, PatternMessage) and not m.declarations and all(type(p) is str for p in m.pattern):
        return cps("".join(m.pattern))
    return [-9]


def items(r):
    out, ok = [], True
    for s in r.sections:
        ok = ok and s.id == () and s.comment == "" and s.meta == []
        for e in s.entries:
            if isinstance(e, Comment):
                out.append({"t": "com", "com": cps(e.comment), "lp": lp(e)})
            else:
                ok = ok and len(e.id) == 1 and not e.meta and not e.properties and isinstance(e.value, PatternMessage) and len(e.value.pattern) <= 1
                out.append({"t": "ent", "key": cps(".".join(e.id)), "val": pval(e.value), "com": cps(e.comment), "lp": lp(e)})
    return out, ok and len(r.sections) == 1 and r.format == Format.properties and r.meta == []


def trimcom(c):
    ls = [x.rstrip() for x in c.replace("\r\n", "\n").replace("\r", "\n").split("\n")]
    while ls and not ls[0]: ls.pop(0)
    while ls and not ls[-1]: ls.pop()
    return "\n".join(ls)


def said(r):
    """The reparsed resource in the form of the specification's Expect."""
    out = [{"t": "com", "com": cps(trimcom(r.comment))}] if trimcom(r.comment) else []
    for i in items(r)[0]:
        i.pop("lp")
        i["com"] = cps(trimcom("".join(map(chr, i["com"]))))
        if i["t"] == "ent" or i["com"]:
            out.append(i)
    return out


def execute(case):
    op = case["op"]
    try:
        if op == "parse":
            src = case["text"]
            if case.get("bytes"):
                src = src.encode("utf-8")
            r = properties_parse(src)
            it, ok = items(r)
            return {"op": op, "raised": False, "text": cps(case["text"]), "items": it, "com": cps(r.comment), "shape": ok}
        if op == "msg":
            return {"op": op, "raised": False, "text": cps(case["text"]), "val": pval(properties_parse_message(case["text"]))}
        if op == "msgser":
            t = properties_serialize_message(PatternMessage([case["val"]]), ensure_ascii=case["ascii"])
            return {"op": op, "raised": False, "text": cps(t), "val": cps(case["val"]), "back": pval(properties_parse_message(t)), "ascii": case["ascii"]}
        res = case["res"]
        jres = {"com": cps(res["com"]), "meta": bool(res["meta"]), "secs": [{"id": [cps(x) for x in s["id"]], "com": cps(s["com"]), "meta": bool(s["meta"]),
                "ents": [{"t": "com", "com": cps(e["com"])} if e["t"] == "com" else {"t": "ent", "id": [cps(x) for x in e["id"]], "com": cps(e["com"]), "meta": bool(e["meta"]), "val": cps("".join(p["s"] for p in e["val"]["p"]))} for e in s["ents"]]} for s in res["secs"]]}
        t = "".join(properties_serialize(u_res(res), "iso-8859-1" if case["ascii"] else "utf-8"))
        coms = [res["com"]] + [s["com"] for s in res["secs"]] + [e["com"] for s in res["secs"] for e in s["ents"]]
        return {"op": op, "raised": False, "res": jres, "text": cps(t), "ascii": case["ascii"] and all(c.isascii() for c in coms), "reparsed": said(properties_parse(t))}
    except Exception as e:
        r = dict(exc(e), op=op, raised=True, text=cps(case.get("text", "")))
        if op == "ser":
            r["res"] = jres
        return r


def kind(case, ev):
    return ev["op"] + ("_raised" if ev["raised"] else "")
