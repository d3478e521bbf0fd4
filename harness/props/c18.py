import os
from core import Model
import proj
from proj import *
from moz.l10n.formats.gettext import gettext_parse, gettext_serialize
from moz.l10n.model import CatchallKey, Entry, PatternMessage, SelectMessage, VariableRef, Expression
from moz.l10n.formats import Format
from props.c15 import rstr, pval

JUDGE, VERDICT = "J_Gettext", "GettextVerdict"
MODELS = [Model("MC_Gettext", workers=3, emit=True, thorough_cfg="MC_Gettext_T")]
QUICK_N, THOROUGH_N = 12000, 120000
ASSUMPTIONS = ["texts outside the PO grammar, with several headers, or ending in a comment line that stands for nothing are not constrained; nor are more plural forms than given plural names",
               "comments wrapped at the line width are compared by their words; extracted comments without blank lines; obsolete entries carry neither extracted comments nor references",
               "references hold no asterisk, plural counts are at most 10, the selector is a number without options", "text with line separators other than CR and LF is read from a file (a library defect, listed as known finding)"]
WIDE = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def from_model(c):
    return [{"op": "parse", "text": "".join(map(chr, c["text"])), "via": "str", "plurals": [], "skip": len(c["text"]) % 7 == 0}]


STRS = ["", "a", "b c", "x\\n", "\\\"", "\\\\", "\\t", "\\r", "é", "\\q", "\\x41", "%s", " ", "  y ", "\u2028", "😀", "#", "msgid", "\\\\n", "\\v\\b\\f", "\\", "\"", "a\\\\"]
HEADS = ["Language: sl\\n", "Plural-Forms: nplurals=3; plural=n;\\n", "Plural-Forms: nplurals=INTEGER;\\n", "X-A: b:c\\n", "cont\\n", "A : x \\n", "\\n", "Language: en\\n", "Nothing", ": v\\n"]
COMS = ["", "c", " c", "c ", "#c", "# c", ", x", ":x", ", fuzzy", "c\nd", "c\n\nd", "\nc\n", "\n", "c\rd", "c\r\nd", "c\u2028d", "~ x", "msgid \"x\"", "c\n, x", "c\n:y", "\tc", "é", "| x", ". x", "c\x0bmsgid \"\"", " , x", "c " * 15, "long word-split comment " * 4]
VALS = ["", "x", "a b", " x ", "\"", "\\", "\\n", "a\\", "\\\"", "a\nb", "a\n", "\n", "\na\n\nb", "\t", "a\tb", "\r", "a\r\nb", "\x0b", "\x08", "\x0c", "é", "😀", "\u2028", "a\u2028b", "a\x1cb", "\x85", "%s", "#", "lorem ipsum " * 4, "lorem-ipsum--dolor " * 3, "a  b   " * 6, "x" * 40, "\\t" * 12, "\" " * 15, "\x00"]
REFS = ["a.c:1", "a.c", "a:b", "a:", "dir-x/a.c:33", ":3", "a:b:4", "é:1", "\u0661:\u0661"]
FLAGS = ["fuzzy", "c-format", "no-wrap", "é", "range: 0..2", "#x"]
FIELDS = ["Language", "X-A", "MIME-Version", "Project-Id-Version", "x y", "é", " a", "a "]
FVALS = ["sl", "", " v ", "b:c", "a\nb", "a\n", "1.0", "\"q\"", "\\", "\n c ", "é", "a\u2028b", "a\n\nb"]
PNAMES = [["one", "other"], ["one", "few", "many"], ["one"], ["one", "two", "few", "many"]]


def qs(rng):
    s = rstr(rng, STRS) if rng.random() < 0.9 else rng.choice(STRS)
    return '"' + s.replace("\n", "").replace("\r", "") + '"'


def field(rng, k):
    sp = rng.choice([" ", " ", " ", "  ", "\t"])
    if rng.random() < 0.25:
        return [k + sp + rng.choice(['""', qs(rng)])] + [qs(rng) for _ in range(rng.choice([1, 2]))]
    return [k + sp + qs(rng)]


def rtext(rng):
    ls = [rng.choice(["# head", "#", "# #x", "#  y ", "#\tz"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.6:
        if rng.random() < 0.2:
            ls.append("#, fuzzy")
        ls += ['msgid ""', 'msgstr ""'] + ['"' + rng.choice(HEADS) + '"' for _ in range(rng.choice([0, 1, 2, 3]))] + [""]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        obs = rng.random() < 0.15
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            ls.append(rng.choice(["# t", "#", "#  t2", "# #x", "#. e", "#.  e2 ", "#.", "#: a.c:1 b.c:2", "#: a:b", "#:", "#: x:\u0661", "#, fuzzy", "#, c-format, no-wrap", "#, a,", "#,", "#| msgid \"old\"", "#| msgctxt \"o\"", "#~| msgid \"p\"", "", "# , z"]))
        e = []
        if rng.random() < 0.25:
            e += field(rng, "msgctxt")
        e += field(rng, "msgid") if rng.random() < 0.95 else ['msgid "m"']
        r = rng.random()
        if r < 0.65:
            e += field(rng, "msgstr")
        else:
            e += field(rng, "msgid_plural") if r < 0.95 else []
            for i in rng.choice([[0], [0, 1], [0, 1, 2], [1, 0], [0, 2], [0, 0, 1], [3]]):
                e += field(rng, f"msgstr[{i}]")
        ls += ["#~ " + x for x in e] if obs else e
        if rng.random() < 0.6:
            ls.append("")
    if rng.random() < 0.1:
        ls.append(rng.choice(["# end", "#. end", "", "msgid \"x\"", "garbage", "#~ msgid \"o\"\n#~ msgstr \"p\""]))
    if rng.random() < 0.06 and ls:
        ls.insert(rng.randrange(len(ls) + 1), rng.choice(["x", "msgid a", "msgstr", "\"c\"", "#~", "##", "#x", "msgstr[9] \"n\"", "msgid \"a\"b\""]))
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    t = nl.join(x if rng.random() < 0.97 else " " + x + " " for x in ls) + rng.choice(["", nl])
    return ("\ufeff" if rng.random() < 0.03 else "") + t


def rres(rng, plurals):
    n = rng.choice([0, 0, 2, 3, 1])
    meta = [(k, rng.choice(FVALS)) for k in rng.sample(FIELDS, rng.choice([0, 0, 1, 2, 3]))]
    if n:
        meta.append(("Plural-Forms", rng.choice([" ", ""]) + f"nplurals={n}; plural=n;"))
    elif rng.random() < 0.2:
        meta.append(("Plural-Forms", rng.choice(["nplurals=INTEGER; plural=EXPRESSION;", "nplurals=2", "x nplurals=2;", "nplurals=0;"])))
    if rng.random() < 0.04:
        meta.append(rng.choice([("a:b", "x"), ("", "x"), ("a", "b\nc:d"), ("a\nb", "x"), ("X-A", "1"), ("a\u2028", "x"), ("z", "a\u2029b:c")]))
    secs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ents = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            if rng.random() < 0.01:
                ents.append(COM("c"))
                continue
            if rng.random() < 0.35:
                names = plurals or [str(i) for i in range(rng.choice([n or 2, 2, 3, 1]))]
                names = names[:n] if n and rng.random() < 0.6 else list(names)
                var = [{"k": [{"t": "key", "s": x}], "p": [{"t": "txt", "s": rstr(rng, VALS)} for _ in range(rng.choice([1, 1, 1, 1, 1, 1, 2, 3]))] if rng.random() < 0.9 else []} for x in names]
                var[-1]["k"] = [{"t": "any", "s": rng.choice(["", "=" + names[-1], "=" + names[-1], "=other"])}]
                if rng.random() < 0.1:
                    del var[rng.randrange(len(var))]
                if rng.random() < 0.1:
                    rng.shuffle(var)
                if rng.random() < 0.06:
                    var.append({"k": [rng.choice([{"t": "key", "s": "zero"}, {"t": "key", "s": "7"}, {"t": "key", "s": "one"}, {"t": "any", "s": "=0"}])], "p": [{"t": "txt", "s": "v"}]})
                seen, v2 = set(), []
                for v in var:  # keys are unique in a message; all catch-alls are the same key
                    k = v["k"][0]["t"] + (v["k"][0]["s"] if v["k"][0]["t"] == "key" else "")
                    if k not in seen:
                        seen.add(k); v2.append(v)
                val = {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n"], "var": v2}
                if rng.random() < 0.03:
                    val = rng.choice([dict(val, decl=[{"n": "n", "e": EXP(VAR("n"), "string")}]), dict(val, decl=[{"n": "n", "e": EXP(VAR("n"), "number", {"select": LIT("ordinal")})}]),
                                      {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}, {"n": "m", "e": EXP(VAR("m"), "number")}], "sel": ["n", "m"], "var": [{"k": [{"t": "any", "s": ""}, {"t": "any", "s": ""}], "p": []}]}])
            else:
                v = rstr(rng, VALS)
                k = rng.randrange(len(v) + 1)
                val = rng.choice([PM(v), PM(v), T(v), PM(v[:k], v[k:])])
                if rng.random() < 0.02:
                    val = rng.choice([PM(v, EXP(VAR("x"))), PM(MKU("open", "b"))])
            m = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                m.append(rng.choice([("translator-comments", rstr(rng, COMS)), ("reference", rng.choice(REFS)), ("flag", rng.choice(FLAGS)), ("obsolete", rng.choice(["true", "false", ""])), ("plural", rstr(rng, VALS))]))
            if rng.random() < 0.03:
                m.append(rng.choice([("reference", "a b:1"), ("reference", ""), ("flag", "a,b"), ("flag", " a"), ("flag", ""), ("flag", "a\nb"), ("other", "x"), ("reference", "a\u2028")]))
            if n == 0 and rng.random() < 0.02:
                pass
            id = [rstr(rng, VALS) or "id"] + ([rstr(rng, VALS)] if rng.random() < 0.25 else [])
            if rng.random() < 0.04:
                id = rng.choice([[], [""], ["", ""], ["", "c"], ["a", ""], ["a", "b", "c"]])
            ents.append(ENT(id, val, rstr(rng, COMS), m))
        secs.append(SEC([] if rng.random() < 0.99 else ["s"], ents, "" if rng.random() < 0.99 else "c", [("m", "x")] if rng.random() < 0.005 else []))
    return RES("gettext", secs, rng.choice(["", rstr(rng, COMS)]), meta)


def fixed_cases():
    yield {"op": "parse", "text": 'msgid "a"\nmsgstr "b\u2028c"\n', "via": "str", "plurals": [], "skip": False}


def gen(rng, n, shard, tier):
    for _ in range(n):
        if rng.random() < 0.5:
            t = rtext(rng)
            via = rng.choice(["str", "str", "bytes", "path"])
            if any(c in WIDE for c in t):
                via = "path"
            yield {"op": "parse", "text": t, "via": via, "plurals": rng.choice(PNAMES) if rng.random() < 0.3 else [], "skip": rng.random() < 0.2}
        else:
            p = rng.choice(PNAMES) if rng.random() < 0.4 else []
            yield {"op": "ser", "res": rres(rng, p), "plurals": p, "wrap": rng.choice([200, 200, 40, 0])}


def mval(m):
    if isinstance(m, PatternMessage) and not m.declarations:
        return [{"any": True, "key": [], "val": pval(m)}], False
    if isinstance(m, SelectMessage) and list(m.declarations.items()) == [("n", Expression(VariableRef("n"), "number"))] and m.selectors == (VariableRef("n"),):
        return [{"any": isinstance(k[0], CatchallKey), "key": cps(k[0].value if isinstance(k[0], CatchallKey) else k[0]), "val": pval(PatternMessage(p))} for k, p in m.variants.items()], True
    return [{"any": True, "key": [-9], "val": [-9]}], False


def rec(r):
    ents = []
    for s in r.sections:
        for e in s.entries:
            v, sel = mval(e.value)
            ents.append({"id": [cps(x) for x in e.id], "com": cps(e.comment), "sel": sel, "val": v, "meta": [{"k": m.key, "v": cps(m.value)} for m in e.meta]})
    return {"com": cps(r.comment), "meta": [{"k": cps(m.key), "v": cps(m.value)} for m in r.meta], "ents": ents}


def parse(t, via, plurals=None, skip=False):
    if via == "path":
        f = os.path.join(os.environ["VERIF_SCRATCH"], "x.po")
        with open(f, "w", encoding="utf-8", newline="") as fp:
            fp.write(t)
        src = f
    else:
        src = t.encode() if via == "bytes" else t
    return gettext_parse(src, plurals=plurals or None, skip_obsolete=skip)


def execute(case):
    op = case["op"]
    pl = [cps(x) for x in case["plurals"]]
    if op == "parse":
        ev = {"op": op, "text": cps(case["text"]), "plurals": pl, "skip": case["skip"], "raised": False}
        try:
            r = parse(case["text"], case["via"], case["plurals"], case["skip"])
            return dict(ev, res=rec(r), shape=r.format == Format.gettext and len(r.sections) == 1 and r.sections[0].id == () and not r.sections[0].comment and not r.sections[0].meta and all(not e.properties for e in r.sections[0].entries))
        except Exception as e:
            return dict(ev, **dict(exc(e), raised=True))
    res = case["res"]

    def jval(v):
        if v["t"] == "str":
            return [{"any": True, "key": [], "val": cps(v["s"])}], False, False
        if v["t"] == "pat" and not v["decl"] and all(p["t"] == "txt" for p in v["p"]):
            return [{"any": True, "key": [], "val": cps("".join(p["s"] for p in v["p"]))}], False, False
        if v["t"] == "sel" and len(v["sel"]) == 1 and v["decl"][0]["e"]["fn"] == "number" and not v["decl"][0]["e"]["opt"]:
            return [{"any": x["k"][0]["t"] == "any", "key": cps(x["k"][0]["s"][1:] if x["k"][0]["t"] == "any" else x["k"][0]["s"]), "val": cps("".join(p["s"] for p in x["p"]))} for x in v["var"]], True, False
        return [], False, True

    def ent(e):
        if e["t"] == "com":
            return {"t": "com"}
        v, sel, odd = jval(e["val"])
        return {"t": "ent", "id": [cps(x) for x in e["id"]], "com": cps(e["com"]), "meta": [{"k": m["k"], "v": cps(m["v"])} for m in e["meta"]], "val": v, "sel": sel, "odd": odd}
    jres = {"com": cps(res["com"]), "meta": [{"k": cps(m["k"]), "v": cps(m["v"])} for m in res["meta"]],
            "secs": [{"id": [cps(x) for x in s["id"]], "com": cps(s["com"]), "meta": bool(s["meta"]), "ents": [ent(e) for e in s["ents"]]} for s in res["secs"]]}
    ev = {"op": op, "res": jres, "plurals": pl, "wrap": case["wrap"], "raised": False}
    try:
        t = "".join(gettext_serialize(u_res(res), plurals=case["plurals"] or None, wrapwidth=case["wrap"]))
    except Exception as e:
        return dict(ev, **dict(exc(e), raised=True))
    try:
        b = rec(parse(t, "path" if any(c in WIDE for c in t) else "str"))
    except Exception as e:
        b = {"com": [-1], "meta": [], "ents": []}
    return dict(ev, text=cps(t), back=b)


def kind(case, ev):
    return ev["op"] + ("_raised" if ev["raised"] else "")
