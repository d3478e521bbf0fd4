import copy
from core import Model
import proj
from proj import *
from fluent.syntax import FluentParser, FluentSerializer, ast as ftl
from moz.l10n.formats import Format
from moz.l10n.formats.fluent import fluent_parse, fluent_parse_entry, fluent_parse_message, fluent_serialize, fluent_serialize_entry, fluent_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import Entry, Message, Resource
from moz.l10n.resource import parse_resource, serialize_resource
from props.c15 import rstr

JUDGE, VERDICT = "J_Fluent", "FluentVerdict"
MODELS = [Model("MC_Fluent", workers=3, emit=True, thorough_cfg="MC_Fluent_T")]
QUICK_N, THOROUGH_N = 8000, 80000
ASSUMPTIONS = ["fluent.syntax, the reference implementation of the syntax, tells the syntax tree of a text (both of source files and of what is written)",
               "number and string annotations of variable selectors, and whether an option or function argument is a number or a string of digits, are not part of what is written; keys match by name",
               "the outer whitespace of a plain string value is not kept, nor, if it starts with any, the indentation of its lines", "CRLF in a comment is a line break; trailing whitespace of comments of entries, sections and resources is not kept", "declarations do not refer to each other in circles"]


class Odd(BaseException):
    pass


# ------------------------------------------------- projection of syntax trees
def inner(e):
    while isinstance(e, ftl.Placeable):
        e = e.expression
    return e


def args(a):
    return {"pos": [x_expr(inner(p)) for p in a.positional] if a else [], "named": [{"n": cps(n.name.name), "v": x_expr(n.value)} for n in a.named] if a else []}


def x_expr(e):
    if isinstance(e, ftl.NumberLiteral):
        return {"t": "num", "v": cps(e.value)}
    if isinstance(e, ftl.StringLiteral):
        return {"t": "str", "v": cps(e.parse()["value"])}
    if isinstance(e, ftl.VariableReference):
        return {"t": "var", "n": cps(e.id.name)}
    if isinstance(e, ftl.MessageReference):
        return {"t": "msg", "n": cps(e.id.name), "a": cps(e.attribute.name) if e.attribute else []}
    if isinstance(e, ftl.TermReference):
        return {"t": "term", "n": cps(e.id.name), "a": cps(e.attribute.name) if e.attribute else [], **args(e.arguments)}
    if isinstance(e, ftl.FunctionReference):
        return {"t": "fn", "n": cps(e.id.name), **args(e.arguments)}
    if isinstance(e, ftl.SelectExpression):
        return {"t": "sel", "sel": x_expr(inner(e.selector)), "var": [{"key": cps(v.key.name if isinstance(v.key, ftl.Identifier) else v.key.value), "num": isinstance(v.key, ftl.NumberLiteral), "def": v.default, "p": x_pat(v.value)} for v in e.variants]}
    raise Odd(e)


def x_pat(p):
    return [{"t": "txt", "s": cps(e.value)} if isinstance(e, ftl.TextElement) else x_expr(inner(e)) for e in p.elements] if p else []


def x_entry(e):
    if isinstance(e, ftl.Junk):
        return {"t": "junk"}
    if isinstance(e, ftl.BaseComment):
        return {"t": {"Comment": "com", "GroupComment": "group", "ResourceComment": "rescom"}[type(e).__name__], "s": cps(e.content or ""), "st": e.span.start, "e": e.span.end}
    return {"t": "term" if isinstance(e, ftl.Term) else "msg", "id": cps(e.id.name), "com": cps(e.comment.content or "") if e.comment else [], "hasval": e.value is not None, "val": x_pat(e.value),
            "st": e.span.start, "cs": e.comment.span.start if e.comment else 0, "ks": e.id.span.start, "ke": e.id.span.end, "vs": e.value.span.start if e.value else 0, "ve": e.value.span.end if e.value else 0,
            "attrs": [{"n": cps(a.id.name), "p": x_pat(a.value), "ve": a.value.span.end} for a in e.attributes]}


def body(text):
    return [x_entry(e) for e in FluentParser().parse(text).body]


def deep(x, k=""):
    """All strings but type tags as code points."""
    if isinstance(x, str):
        return x if k in ("t", "kind") else cps(x)
    if isinstance(x, list):
        return [deep(y) for y in x]
    if isinstance(x, dict):
        return {k: deep(y, k) for k, y in x.items()}
    return x


# ------------------------------------------------- cases
def u_pat(p):
    def el(x):
        if x["t"] == "txt":
            return ftl.TextElement("".join(map(chr, x["s"])))
        n = lambda: ftl.Identifier("".join(map(chr, x["n"])))
        if x["t"] == "var":
            return ftl.Placeable(ftl.VariableReference(n()))
        if x["t"] == "fn":
            return ftl.Placeable(ftl.FunctionReference(n(), ftl.CallArguments([el(y).expression for y in x["pos"]])))
        return ftl.Placeable(ftl.SelectExpression(el(x["sel"]).expression, [ftl.Variant(ftl.Identifier("".join(map(chr, v["key"]))), u_pat(v["p"]), v["def"]) for v in x["var"]]))
    return ftl.Pattern([el(x) for x in p])


def from_model(c):
    t = FluentSerializer().serialize(ftl.Resource([ftl.Message(ftl.Identifier("m"), u_pat(c["pat"]))]))
    v = t[3:].strip().replace("\n    ", "\n")
    return [{"op": "parse", "text": t, "via": "str"}, {"op": "rt", "text": t}, {"op": "pm", "text": v}]


TXT = ["a", "b c", "x", " ", "  ", "\n", "\n\n", "\n  ", "\na", "a\nb", "a\n  b", "a\n\nb", "a\n  \nb", "é", "😀", "\"", "\\", "{", "}", "{}", "[", "[a]", ".b", "*", "*[o]", "\n[x", "\n .y", "#", "# c", "-", "=", "a = b", "\t", "\r", "\u2028", "\x85", "\x0b", "\x1c", "\x00", "\xa0", "\ufeff", "1", "$x", "\\u0041", "\r\n", "%s", "", ".", "\u2029", "a ", " a", "\n}", "->", "\x7f"]
IDS = ["a", "b", "foo", "foo-bar", "x_1", "A", "Zz"]
BADIDS = ["", "1a", "a b", "é", "a.b", "-", "_a", "a\n", "--a", "aé"]
FNS = ["NUMBER", "DATETIME", "FOO", "F-2_X", "STRING", "MESSAGE", "PLATFORM"]
STRS = ["", "a", "1", "1.5", "-1", "1e5", "nan", " 1", "1_0", "٣", "inf", ".5", "5.", "+1", "\"", "\\", "{", "\n", "\u2028", "é", "😀", "\\u0041", "  ", "short", "-0", "1\n"]
KEYS = ["one", "few", "many", "other", "zero", "1", "0", "1.5", "a", "b", "windows"]
COMS = ["", "", "c", "c\nd", " c", "c ", "# c", "\n", "c\n\nd", "\nc", "é", "c\rd", "c\r\nd", "c\r", "c\n \nd", "a = b", "\u2028", "c\n"]


# FTL source
def sp(rng):
    return rng.choice(["", " ", "", " ", "  ", "\n    "]) if rng.random() < 0.15 else rng.choice(["", " "])


def s_lit(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(["1", "0", "-1", "1.5", "007", "1.0", "-0.50"])
    return '"' + "".join(rng.choice(["a", " ", "{", "}", "\\\"", "\\\\", "\\u0041", "\\u00e9", "\\U01F600", "é", "1", "  ", "[", ".", "\\u000a"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))) + '"'


def s_named(rng):
    ns = rng.sample(IDS, rng.choice([0, 0, 1, 2]))
    return [f"{n}:{sp(rng)}{s_lit(rng)}" for n in ns]


def s_inline(rng, sel=False, top=True):
    r = rng.random()
    if r < 0.4:
        return "$" + rng.choice(["x", "y", "z", "x", "x_1", "sel_1"])
    if r < 0.52:
        return s_lit(rng)
    if r < 0.64 and not sel:
        return rng.choice(IDS) + rng.choice(["", "", ".t"])
    if r < 0.78:
        a = rng.choice(["", ".t"]) if not top else ".t" if sel else ""
        return "-" + rng.choice(IDS) + a + rng.choice(["", "", "(" + ", ".join(s_named(rng)) + ")", "($x)" if rng.random() < 0.1 else ""])
    pos = [] if rng.random() < 0.15 else ["$" + rng.choice("xyz")] if rng.random() < 0.7 else [s_lit(rng)]
    if rng.random() < 0.04:
        pos += [rng.choice(["$x", "{ $x }", "foo", "-t", "FOO()", "{ \"a\" }", "-t.a"])]
    if rng.random() < 0.05:
        pos = [rng.choice(["{ $x }", "{{ 1 }}", "foo", "-t", "FOO()"])]
    return rng.choice(FNS) + sp(rng) * (rng.random() < 0.1) + "(" + (", ").join(pos + s_named(rng)) + ")"


def s_select(rng, d, ind):
    s = rng.choice(["$x", "$x", "$y", "NUMBER($x)", "PLATFORM()", "NUMBER($x, type: \"ordinal\")"]) if rng.random() < 0.75 else s_inline(rng, True)
    ks = rng.sample(KEYS, rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.08:
        ks.append(rng.choice(ks))
    dflt = rng.randrange(len(ks)) if rng.random() < 0.4 else len(ks) - 1
    out = s + " ->"
    for i, k in enumerate(ks):
        p = s_pattern(rng, d + 1, ind + "    ")
        out += "\n" + ind + ("*" if i == dflt else " ") + "[" + k + "] " + (p if p.strip() else "{ \"\" }")
    return out + "\n" + ind


def s_pattern(rng, d=0, ind="    "):
    out = ""
    nsel = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.45:
            out += rng.choice(["a", "b c", " ", "  ", "é", "😀", "\"", "\\", "#", "-", "=", "\t", "\xa0", "%s", "[", "a.", "*", "1", "\u2028", "x", "\x00", "."])
        elif r < 0.57:
            out += "\n" * rng.choice([1, 1, 1, 2, 3]) + ind + rng.choice(["", "", "  ", " "]) + rng.choice(["t", "u v", "é", "\"", "#", "{ \"[\" }"])
        elif r < 0.72 and d < 2 and nsel < 1 + (d == 0):
            nsel += 1
            b = rng.random() < 0.1
            out += "{" * (1 + b) + " " + s_select(rng, d, ind + "    ") + "}" * (1 + b)
        else:
            out += rng.choice(["{ %s }", "{%s}", "{ %s}", "{{ %s }}" if rng.random() < 0.3 else "{%s }"]) % s_inline(rng)
    return out


def s_entry(rng):
    t = rng.random() < 0.25
    out = rng.choice(["", "", "# c\n", "# c\n# d\n", "#\n# c\n", "#\n"]) if rng.random() < 0.5 else ""
    out += ("-" if t else "") + rng.choice(IDS) + rng.choice([" = ", "=", " =\n    ", " =  "])
    p = s_pattern(rng)
    at = rng.choice([0, 0, 0, 1, 2])
    if rng.random() < 0.15 and at and not t:
        p = ""
        out = out.rstrip()
    out += p
    for _ in range(at):
        out += "\n    ." + rng.choice(IDS + ["accesskey", "title"]) + " = " + (s_pattern(rng, 1, "        ").strip() or "v")
    return out


def s_text(rng):
    while (t := s_text_(rng)).count("->") > 5:
        pass
    return t


def s_text_(rng):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.72:
            parts.append(s_entry(rng))
        else:
            h = rng.choice(["#", "#", "##", "##", "###"])
            parts.append("\n".join((h + " " + l) if l else h for l in rng.choice(COMS + ["c", "d"]).split("\n")) + "\n")
    t = rng.choice(["", "", "", "\n", "  \n"]) + "".join(p + rng.choice(["\n", "\n", "\n\n", "\n\n\n", "\n   \n", " \n"]) for p in parts)
    if rng.random() < 0.3:
        t = t.rstrip()
    if rng.random() < 0.08:
        k = rng.randrange(len(t) + 1)
        t = rng.choice([t[:k], t[:k] + t[k + 1:], t[:k] + rng.choice(TXT) + t[k:]])
    if rng.random() < 0.15:
        t = t.replace("\r", "").replace("\n", "\r\n")
    return t


# data model
def r_opts(rng, decl):
    return {rng.choice(IDS) if rng.random() < 0.97 else rng.choice(BADIDS): LIT(rng.choice(STRS)) if rng.random() < 0.95 else VAR(rng.choice(list(decl) + ["x"])) for _ in range(rng.choice([0, 0, 1, 2]))}


def r_exp(rng, decl=(), sel=False):
    var = lambda: VAR(rng.choice(list(decl) + ["x", "y"]) if rng.random() < 0.97 else rng.choice(BADIDS))
    r = rng.random()
    if r < 0.3:
        return EXP(var())
    if r < 0.42:
        return EXP(LIT(rng.choice(STRS)))
    if r < 0.57:
        a = rng.choice(["foo", "-foo", "foo.a", "-foo-bar", "-t.a" if rng.random() < 0.3 or sel else "-t"]) if rng.random() < 0.93 else rng.choice(BADIDS + ["foo.a.b", "foo.", "-é", "é", "foo.1", "-1"])
        return EXP(LIT(a) if rng.random() < 0.97 else var(), "message", r_opts(rng, decl) if a[:1] == "-" or rng.random() < 0.05 else None, {"fluent-fn": LIT("MESSAGE")} if rng.random() < 0.05 else None)
    arg = var() if rng.random() < 0.75 else LIT(rng.choice(STRS))
    if r < 0.72:
        at = rng.choice([{}, {}, {"fluent-fn": LIT("NUMBER")}, {"x": LIT("y")}])
        return EXP(arg if rng.random() < 0.97 else proj.NONE, "number", r_opts(rng, decl), at)
    if r < 0.8:
        return EXP(arg if rng.random() < 0.95 else proj.NONE, "string", r_opts(rng, decl) if rng.random() < 0.1 else None, {"fluent-fn": LIT("STRING")} if rng.random() < 0.2 else None)
    if r < 0.87:
        return EXP(arg if rng.random() < 0.95 else proj.NONE, "datetime", r_opts(rng, decl), {"fluent-fn": LIT("DT")} if rng.random() < 0.2 else None)
    at = {"fluent-fn": LIT(rng.choice(FNS) if rng.random() < 0.93 else rng.choice(["foo", "", "1A", "É", "A b"]))} if rng.random() < 0.93 else {"fluent-fn": proj.TRUE} if rng.random() < 0.5 else {}
    if rng.random() < 0.02:
        return rng.choice([MKU("open", "b"), EXP(proj.NONE), EXP(proj.NONE, "", {"a": LIT("b")}, None)])
    return EXP(arg if rng.random() < 0.8 else proj.NONE, rng.choice(["foo", "platform", "x:y"]), r_opts(rng, decl), at)


def r_parts(rng, decl=()):
    return [rstr(rng, TXT) if rng.random() < 0.6 else r_exp(rng, decl) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]


def r_decl(rng):
    d = {}
    for n in rng.sample(["x", "y", "l", "x_1", "sel_1"], rng.choice([0, 0, 0, 1, 2])):
        # refer to oneself, to undeclared variables, or to earlier declarations
        e = r_exp(rng, list(d))
        while e["t"] != "exp" or any(o["v"]["t"] == "var" for o in e["opt"]) or (e["arg"]["t"] == "var" and e["arg"]["s"] in ("x", "y", "l", "x_1", "sel_1") and e["arg"]["s"] != n and e["arg"]["s"] not in d):
            e = r_exp(rng, list(d) + ["z", n])
        d[n] = e
    return d


def r_msg(rng):
    if rng.random() < 0.65:
        d = r_decl(rng)
        return PM(*r_parts(rng, d), decl=[{"n": n, "e": e} for n, e in d.items()])
    d = r_decl(rng)
    sel = rng.sample(["x", "y", "l", "s"], rng.choice([1, 1, 1, 2, 2, 3]))
    for s in sel:
        if s not in d and (s in "ls" or rng.random() < 0.9):
            d[s] = rng.choice([EXP(VAR(s), "number"), EXP(VAR(s), "string"), EXP(VAR(s)), EXP(VAR("z"), rng.choice(["number", "number", "foo"]), r_opts(rng, ()), {"fluent-fn": LIT(rng.choice(FNS))})]) if rng.random() < 0.85 else r_exp(rng, ["z"], True)
            if d[s]["t"] != "exp" or any(o["v"]["t"] == "var" for o in d[s]["opt"]) or (d[s]["arg"]["t"] == "var" and d[s]["arg"]["s"] in ("x", "y", "l", "s") and d[s]["arg"]["s"] != s):
                d[s] = EXP(VAR(s), "number")
    cols = [rng.sample(KEYS, rng.choice([0, 1, 1, 2])) for _ in sel]
    if rng.random() < 0.03:
        cols[0].append(rng.choice(["", "a b", "é", "1e5", "nan", "-", "1.", "*"]))
    names = [rng.choice(["", "=other", "=other", "=many", "=1"]) if rng.random() < 0.97 else rng.choice(["=a b", "=é", "=", "=1e5"]) for _ in sel]
    rows = [[]]
    for c, a in zip(cols, names):
        rows = [r + [k] for r in rows for k in [{"t": "key", "s": s} for s in c] + [{"t": "any", "s": a}]]
    if rng.random() < 0.3:
        rng.shuffle(rows)
    if rng.random() < 0.12 and len(rows) > 1:
        rows.pop(rng.randrange(len(rows)))
    def short(r):
        return "".join(k["s"][:2] for k in r)
    var = [{"k": r, "p": [{"t": "txt", "s": p} if isinstance(p, str) else p for p in (r_parts(rng, d) if rng.random() < 0.5 else [short(r) + "v"])]} for r in rows]
    return {"t": "sel", "decl": [{"n": n, "e": e} for n, e in d.items()], "sel": sel, "var": var}


def r_val(rng, strs):
    return T("".join(rstr(rng, TXT) for _ in range(rng.choice([0, 1, 1, 2])))) if strs else r_msg(rng)


def r_meta(rng):
    return [(rng.choice(["m", "skip", "info", "n"]), rng.choice(["v", "a\nb", "v\n", "é"])) for _ in range(rng.choice([1, 1, 2]))]


def r_entry(rng, strs):
    id = [rng.choice(["", "", "-"]) + (rng.choice(IDS) if rng.random() < 0.98 else rng.choice(BADIDS))]
    if rng.random() < 0.01:
        id = rng.choice([[], ["a", "b"]])
    pr = {(rng.choice(IDS + ["accesskey", "Title"]) if rng.random() < 0.98 else rng.choice(BADIDS)): r_val(rng, strs) for _ in range(rng.choice([0, 0, 0, 1, 2]))}
    v = r_val(rng, strs)
    if pr and rng.random() < 0.25:
        v = rng.choice([PM(), PM(""), PM(" "), PM("\u2028")]) if not strs else T(rng.choice(["", " ", "\n"]))
    return ENT(id, v, rng.choice(COMS), r_meta(rng) if rng.random() < 0.06 else [], list(pr.items()))


def r_res(rng):
    strs = rng.random() < 0.15
    ms = rng.random() < 0.5
    secs = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        ents = [COM(rng.choice(COMS)) if rng.random() < 0.2 else r_entry(rng, strs) for _ in range(rng.choice([0, 1, 1, 2]))]
        secs.append(SEC(["s"] if rng.random() < 0.01 else [], ents, rng.choice(COMS) if rng.random() < 0.6 else "", r_meta(rng) if rng.random() < 0.05 else []))
    meta = [("info", rng.choice(["i", "i\nj", "", " i ", "i\n", "\r\n", "i\r"]))] if rng.random() < 0.2 else []
    if rng.random() < 0.08:
        meta += r_meta(rng)
    return RES("fluent", secs, rng.choice(COMS) if rng.random() < 0.5 else "", meta), ms


def gen(rng, n, shard, tier):
    for _ in range(n):
        r = rng.random()
        if r < 0.36:
            yield {"op": "parse", "text": s_text(rng), "via": rng.choice(["str", "str", "bytes", "ast", "nolp"])}
        elif r < 0.41:
            yield {"op": "pe", "text": s_entry(rng) + rng.choice(["", "\n", "\nb = c\n"]), "via": rng.choice(["str", "ast", "nolp"])}
        elif r < 0.5:
            t = s_pattern(rng, 0, rng.choice(["", " ", "    "]))
            if rng.random() < 0.2:
                t += rng.choice(["\n", "\n[x", "\n.a = b", "}", "{", "\n}", " ", "\n\n", "\n# c", "\n*x", "{$x", "\nb = c"])
            yield {"op": "pm", "text": t}
        elif r < 0.58:
            yield {"op": "rt", "text": s_text(rng)}
        elif r < 0.85:
            res, ms = r_res(rng)
            yield {"op": "ser", "res": res, "trim": rng.random() < 0.12, "ms": ms, "via": rng.choice(["fluent", "res", "entry"])}
        elif r < 0.97:
            yield {"op": "sm", "msg": r_val(rng, rng.random() < 0.15), "via": rng.choice(["fluent", "msg"])}
        else:
            yield {"op": "raw", "text": " ".join(s_pattern(rng, 1).replace("\n", " ").split()) or "x"}


def wr(t):
    """A written pattern as that of a message m."""
    return "m = " + t + "\n" if "\n" not in t else "m =\n    " + t.replace("\n", "\n    ") + "\n"


def mser(m):
    return "" if m.key == "skip" else f"@{m.key}: {m.value}"


def execute(case):
    op = case["op"]
    if op == "rt":
        # what is parsed, written
        try:
            r = fluent_parse(case["text"], with_linepos=False)
        except Exception:
            return {"op": "parse", "text": cps(case["text"]), "lp": False, "body": body(case["text"]), "raised": True, "ve": True, "res": []}
        return execute({"op": "ser", "res": res(r), "trim": False, "ms": False, "via": "fluent"})
    ev = {"op": op, "raised": False, "ve": False}
    out = None
    try:
        if op in ("parse", "pe", "pm"):
            t = case["text"]
            via = case.get("via", "str")
            ev.update(text=cps(t), lp=via in ("str", "bytes"))
            if op == "parse":
                ev["body"] = body(t)
                out = ("res", deep(res(fluent_parse(t) if via == "str" else fluent_parse(FluentParser().parse(t)) if via == "ast" else fluent_parse(t, with_linepos=False) if via == "nolp" else parse_resource(Format.fluent, t.encode()))))
            elif op == "pe":
                p = FluentParser().parse_entry(t)
                ev["body"] = [x_entry(p)]
                out = ("out", deep(entry(fluent_parse_entry(t) if via == "str" else fluent_parse_entry(p) if via == "ast" else fluent_parse_entry(t, with_linepos=False))))
            else:
                s = t.lstrip()
                ev.update(blank=not s, body=body("m = " + s.replace("\n", "\n ") + "\n"))
                out = ("out", deep(message(parse_message(Format.fluent, t) if len(t) % 2 else fluent_parse_message(t))))
        elif op == "ser":
            r = case["res"]
            ms = mser if case["ms"] else None
            via = case["via"]
            ents = [e for s in r["secs"] for e in s["ents"]]
            if via == "entry" and len(ents) == 1 and ents[0]["t"] == "ent":
                r = RES("fluent", [SEC([], ents)])
                opts = {"trim": False, "meta": False}
                f = lambda: fluent_serialize_entry(u_entry(ents[0]))
            elif via == "res" and not case["ms"]:
                opts = {"trim": case["trim"], "meta": False}
                f = lambda: "".join(serialize_resource(u_res(r), Format.fluent, trim_comments=case["trim"]))
            else:
                opts = {"trim": case["trim"], "meta": case["ms"]}
                f = lambda: "".join(fluent_serialize(u_res(r), serialize_metadata=ms, trim_comments=case["trim"]))
            ev.update(res=deep(r), opts=opts)
            out = ("body", body(f()))
        elif op == "sm":
            ev["msg"] = deep(case["msg"])
            t = fluent_serialize_message(u_message(case["msg"])) if case["via"] == "fluent" else serialize_message(Format.fluent, u_message(case["msg"]))
            ev["blank"] = not t.strip(" \n")
            out = ("body", [] if ev["blank"] else body(wr(t)))
        else:
            w = body("m = " + case["text"] + "\n")
            if len(w) != 1 or w[0]["t"] != "msg" or w[0]["attrs"]:
                return execute({"op": "pm", "text": case["text"]})
            ev["want"] = w[0]["val"]
            e = Entry(("m",), case["text"])
            out = ("body", body(fluent_serialize_entry(e, escape_syntax=False)))
    except Exception as e:
        ev.update(exc(e), raised=True)
    if out:
        ev[out[0]] = out[1]
    return ev


def kind(case, ev):
    return case["op"] + "_" + ev["op"] + ("_raised" if ev["raised"] else "")
