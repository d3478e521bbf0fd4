import copy
import json
from core import Model
from proj import *
from moz.l10n.formats import Format
from moz.l10n.formats.plain_json import plain_json_parse, plain_json_serialize
from moz.l10n.formats.webext import webext_parse, webext_parse_message, webext_serialize
from moz.l10n.model import Comment, Entry, Expression, PatternMessage, VariableRef
from moz.l10n.util.loads import json_linecomment_loads
from props.c15 import rstr, pval

JUDGE, VERDICT = "J_JsonFormats", "JsonFormatsVerdict"
MODELS = [Model("MC_WebextMsg", workers=3, emit=True, thorough_cfg="MC_WebextMsg_T"), Model("MC_JsonDoc", workers=2, emit=True, thorough_cfg="MC_JsonDoc_T")]
QUICK_N, THOROUGH_N = 12000, 120000
ASSUMPTIONS = ["literals other than strings are true, false, null and integers; keys of placeholders are ASCII; no unpaired surrogates",
               "dollar escapes and placeholders are scanned once from left to right, as documented in the library; extra members of a message are free",
               "attributes other than source and example are not written"]


def from_model(c):
    t = "".join(map(chr, c["text"]))
    if c["k"] == "msg":
        return [{"op": "msg", "msg": t, "ph": {"1": {"content": "$1"}, "a": {"content": "x", "example": "e"}, "A1": {"content": "$2"}, "a@": {"content": "y"}, "0": {"content": ""}}}]
    return [{"op": o, "text": t, "via": "str"} for o in ("loads", "plain")]


MSGS = ["$", "$$", "$$$", "$1", "$9", "$0", "$12", "$foo$", "$Foo$", "$a_b$", "$a@b$", "$1x$", "$_1x$", "$arg1$", "foo", "x", " ", "1", "$foo", "foo$", "é", "\n", "\"", "\\", "//", "😀", "$foo $", "$é$", ""]
NAMES = ["foo", "a@b", "a_b", "1x", "_1x", "arg1", "Foo", "FOO", "arg1_", "1"]
CONTS = ["$1", "$9", "$0", "$12", "x", "", "$1 x", "$foo$", "$$1", "é"]
KEYS = ["a", "b", "a.b", "", "é", "message", "description", "//", "\"", "\\", "a\nb", "😀", "\u2028", "placeholders", "a"]
RAW = ["tru", "\"", "\"a", "\"a\nb\"", "\"\\x\"", "\"\\u12\"", "'a'", "/", "/* c */", "{", "}", "[", "]", ",", ":", "\ufeff", "\x0b", "\u00a0", "\"\\", "\"\\u12g4\""]


def jstr(rng, s):
    r = rng.random()
    if r < 0.6:
        return json.dumps(s, ensure_ascii=False)
    if r < 0.85:
        return json.dumps(s)
    return '"' + "".join("\\u%04x" % u if rng.random() < 0.5 else json.dumps(c)[1:-1] for c in s for u in [ord(c) if ord(c) < 0x10000 else 0] if True) + '"' if all(ord(c) < 0x10000 for c in s) else json.dumps(s)


def sp(rng, com):
    r = rng.random()
    if r < 0.75:
        return rng.choice(["", "", " "])
    if com and r < 0.87:
        return "//" + rng.choice(["", " c", "\"", " \"x\": {", "// x", "\\", "'", "\u2028x", "\r"]) + "\n"
    return rng.choice([" ", "\n", "\t", "\r\n", "  \n "])


def jdump(rng, v, com):
    s = lambda: sp(rng, com)
    if isinstance(v, dict):
        ms = [s() + jstr(rng, k) + s() + ":" + s() + jdump(rng, x, com) + s() for k, x in v.items()]
        if ms and rng.random() < 0.1:
            ms.insert(rng.randrange(len(ms)), s() + jstr(rng, rng.choice(list(v))) + s() + ":" + s() + jdump(rng, rng.choice(["dup", {}, {"message": "dup"}]), com))
        return "{" + ",".join(ms) + (s() if not ms else "") + "}"
    if isinstance(v, list):
        return "[" + ",".join(jdump(rng, x, com) + s() for x in v) + "]"
    if isinstance(v, str):
        return jstr(rng, v)
    return {True: "true", False: "false", None: "null"}.get(v, None) or str(v)


def rtree(rng, d=0):
    return {rng.choice(KEYS): (rtree(rng, d + 1) if rng.random() < 0.35 and d < 3 else rng.choice(MSGS + KEYS) if rng.random() < 0.97 else rng.choice([None, True, 3, [], ["x"], [{}]])) for _ in range(rng.choice([0, 1, 1, 2, 3]))}


def rph(rng, msg):
    d = {}
    import re
    for m in re.findall(r"\$([a-zA-Z0-9_@]+)\$", msg) + rng.sample(NAMES, rng.choice([0, 0, 1])):
        if rng.random() < 0.97:
            p = {"content": rng.choice(CONTS)}
            if rng.random() < 0.3:
                p["example"] = rng.choice(CONTS)
            if rng.random() < 0.03:
                p["_name"] = "x"
            if rng.random() < 0.02:
                p = rng.choice([{}, {"content": None}, {"content": 3}, "x"])
            d[rng.choice([m, m, m.lower(), m.upper()])] = p
    return d


def rwebext(rng):
    d = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        m = rstr(rng, MSGS)
        v = {"message": m}
        if rng.random() < 0.4:
            v["description"] = rng.choice(["", "d", "//", "é\n"])
        p = rph(rng, m)
        if p or rng.random() < 0.1:
            v["placeholders"] = p
        if rng.random() < 0.05:
            v.update(rng.choice([{"hash": "x"}, {"n": 1}, {"placeholders": None}, {"x": {"message": "y"}}]))
        if rng.random() < 0.03:
            v = rng.choice([{}, "x", None, [], {"message": None}, {"message": 3}, {"message": {}}, {"Message": "x"}])
        if isinstance(v, dict) and rng.random() < 0.3:
            v = dict(rng.sample(list(v.items()), len(v)))
        d[rng.choice(KEYS)] = v
    return d


def rval(rng):
    if rng.random() < 0.12:
        return T(rstr(rng, MSGS))
    decl = {}
    for n in rng.sample(["foo", "Foo", "bar", "_1x", "arg1", "a-b", "1", "é"], rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        e = EXP(LIT(rng.choice(CONTS))) if r < 0.5 else EXP(VAR(rng.choice(["arg1", "arg9", "arg2", "arg0", "foo", "arg12"]) if rng.random() < 0.3 else "arg1")) if r < 0.95 else EXP({"t": "none", "s": ""}, "f") if r < 0.97 else EXP(LIT("x"), "f")
        a = {}
        if rng.random() < 0.3:
            a["source"] = LIT(rng.choice(CONTS)) if rng.random() < 0.9 else {"t": "true", "s": ""}
        if rng.random() < 0.3:
            a["example"] = LIT(rng.choice(["", "e", "$1"])) if rng.random() < 0.9 else {"t": "true", "s": ""}
        decl[n] = EXP(e["arg"], e["fn"], None, a) if a else e
    ps = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.55:
            ps.append(rng.choice(MSGS))
        elif r < 0.97:
            n = rng.choice(list(decl) * 3 + ["arg1", "arg2", "foo"])
            a = {}
            if rng.random() < 0.5:
                a["source"] = LIT(rng.choice(["$1", "$2", "$foo$", "$" + n + "$", "$" + n.upper() + "$", "$bar$", "$", "$$", "$$$", "foo", "$a b$", "$1x$", "", "$12", "$0", "$1$"])) if rng.random() < 0.9 else {"t": "true", "s": ""}
            ps.append(EXP(VAR(n), "", None, a) if a else EXP(VAR(n)))
        else:
            ps.append(rng.choice([EXP(LIT("x")), MKU("open", "b"), EXP(VAR("arg1"), "number"), EXP({"t": "none", "s": ""}, "f")]))
    v = PM(*ps)
    v["decl"] = [{"n": n, "e": e} for n, e in decl.items()]
    return v


def rres(rng, fmt):
    secs = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        ents = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.02:
                ents.append(COM(rng.choice(["", "c"])))
                continue
            id = [rng.choice(KEYS) for _ in range(1 if fmt == "webext" else rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.02:
                id = rng.choice([[], ["a", "b"]])
            v = rval(rng) if fmt == "webext" else rng.choice([T(rstr(rng, KEYS)), PM(rstr(rng, KEYS)), PM(rng.choice(KEYS), rng.choice(KEYS)), PM()])
            if rng.random() < 0.02:
                v = rng.choice([PM("a", EXP(VAR("foo"))), PM(MKU("open", "b")), {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n"], "var": [{"k": [{"t": "any", "s": ""}], "p": []}]}])
            com = rng.choice(["", "", "c", "//\n"]) if fmt == "webext" else "c" if rng.random() < 0.02 else ""
            ents.append(ENT(id, v, com, [("m", "x")] if rng.random() < 0.01 else []))
        secs.append(SEC([rng.choice(KEYS)] if fmt == "plain_json" and rng.random() < 0.3 else ["s"] if rng.random() < 0.01 else [], ents, "c" if rng.random() < 0.01 else "", [("m", "x")] if rng.random() < 0.01 else []))
    return RES(fmt, secs, "c" if rng.random() < 0.02 else "", [("m", "x")] if rng.random() < 0.02 else [])


def gen(rng, n, shard, tier):
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            op = rng.choice(["webext", "webext", "plain", "loads"])
            v = rwebext(rng) if op == "webext" or rng.random() < 0.2 else rtree(rng)
            if rng.random() < 0.02:
                v = rng.choice([[], "x", None, 3, [v]])
            com = op != "plain" and rng.random() < 0.5
            t = sp(rng, com) + jdump(rng, v, com) + sp(rng, com) + ("// end" if com and rng.random() < 0.2 else "")
            if rng.random() < 0.06:
                k = rng.randrange(len(t) + 1)
                t = rng.choice([t[:k], t[:k] + rng.choice(RAW) + t[k:], t[:k] + t[k + 1:], t[:k] + "//" + t[k:]])
            via = rng.choice(["str", "bytes"])
            if via == "bytes" and t.startswith("\ufeff"):
                via = "str"
            yield {"op": op, "text": t, "via": via}
        elif r < 0.55:
            m = rstr(rng, MSGS)
            yield {"op": "msg", "msg": m, "ph": rph(rng, m) if rng.random() < 0.95 else None}
        else:
            f = rng.choice(["webext", "webext", "webext", "plain_json"])
            yield {"op": "ser", "fmt": f, "res": rres(rng, f)}


NOEX = {"has": False, "val": []}


def ex_(a):
    return {"has": True, "val": cps(a["example"])} if "example" in a else NOEX


def wmsg(m):
    odd = not isinstance(m, PatternMessage)
    ps, ds = [], []
    if not odd:
        for p in m.pattern:
            if isinstance(p, str):
                ps.append({"t": "txt", "s": cps(p)})
            elif isinstance(p, Expression) and isinstance(p.arg, VariableRef) and p.function is None and not p.options and set(p.attributes) == {"source"}:
                ps.append({"t": "ph", "name": cps(p.arg.name), "src": cps(p.attributes["source"])})
            else:
                odd = True
        for n, e in m.declarations.items():
            if isinstance(e, Expression) and e.function is None and not e.options and set(e.attributes) <= {"source", "example"}:
                ds.append({"n": cps(n), "ex": ex_(e.attributes), "k": "arg" if isinstance(e.arg, VariableRef) else "lit", "v": cps(e.arg.name if isinstance(e.arg, VariableRef) else e.arg), "src": cps(e.attributes["source"]) if "source" in e.attributes else []})
            else:
                odd = True
    return {"odd": odd, "p": ps, "decl": ds}


def wents(r):
    return [{"id": [cps(x) for x in e.id], "com": cps(e.comment), "val": wmsg(e.value)} for e in r.sections[0].entries]


def pents(r):
    return [{"id": [cps(x) for x in e.id], "com": cps(e.comment), "s": pval(e.value)} for e in r.sections[0].entries]


def shape(r, f):
    return r.format == f and not r.comment and not r.meta and len(r.sections) == 1 and r.sections[0].id == () and not r.sections[0].comment and not r.sections[0].meta and all(isinstance(e, Entry) and not e.meta and not e.properties for e in r.sections[0].entries)


def jval(v, fmt):
    if v["t"] == "str":
        return {"t": "str", "s": cps(v["s"])}
    if v["t"] != "pat":
        return {"t": "odd"}

    def at(e, k):
        a = {x["n"]: x["v"] for x in e["attr"]}
        return a.get(k)

    def p_(p):
        if p["t"] == "txt":
            return {"t": "txt", "s": cps(p["s"])}
        if p["t"] == "exp" and (p["arg"] or {}).get("t") == "var" and not p["fn"] and fmt == "webext":
            s = at(p, "source")
            return {"t": "ph", "name": cps(p["arg"]["s"]), "hassrc": bool(s) and s["t"] == "lit", "src": cps(s["s"]) if s else []}
        return {"t": "odd"}

    def d_(d):
        e = d["e"]
        s, x = at(e, "source"), at(e, "example")
        k = {"var": "arg", "lit": "lit"}.get(e["arg"]["t"], "none")
        return {"n": cps(d["n"]), "k": k, "v": cps(e["arg"]["s"]), "hassrc": bool(s) and s["t"] == "lit", "src": cps(s["s"]) if s else [], "fn": bool(e["fn"]), "badex": bool(x) and x["t"] != "lit",
                "ex": {"has": True, "val": cps(x["s"])} if x and x["t"] == "lit" else NOEX}
    return {"t": "pat", "p": [p_(p) for p in v["p"]], "decl": [d_(d) for d in v["decl"]]}


def execute(case):
    op = case["op"]
    if op == "msg":
        m, ph = case["msg"], copy.deepcopy(case["ph"])
        ev = {"op": op, "text": cps(json.dumps({"message": m, "placeholders": ph})), "raised": False, "msg": {"odd": True, "p": [], "decl": []}}
        try:
            ev["msg"] = wmsg(webext_parse_message(m, ph))
        except Exception as e:
            ev.update(dict(exc(e), raised=True))
        return dict(ev, pure=ph == case["ph"])
    if op == "ser":
        fmt, res = case["fmt"], case["res"]
        jres = {"noted": bool(res["com"] or res["meta"]), "secs": [
            {"id": [cps(x) for x in s["id"]], "noted": bool(s["com"] or s["meta"] or any(e["t"] == "com" and e["com"] for e in s["ents"])),
             "ents": [{"id": [cps(x) for x in e["id"]], "com": cps(e["com"]), "meta": bool(e["meta"]), "val": jval(e["val"], fmt)} for e in s["ents"] if e["t"] == "ent"]} for s in res["secs"]]}
        ev = {"op": op, "fmt": fmt, "res": jres, "raised": False}
        ser, par, ents = (webext_serialize, webext_parse, wents) if fmt == "webext" else (plain_json_serialize, plain_json_parse, pents)
        try:
            t = "".join(ser(u_res(res)))
        except Exception as e:
            return dict(ev, **dict(exc(e), raised=True))
        try:
            b, br = ents(par(t)), False
        except Exception as e:
            b, br = [], True
        return dict(ev, text=cps(t), back=b, braised=br)
    t = case["text"]
    src = t if case["via"] == "str" else t.encode()
    ev = {"op": op, "text": cps(t), "raised": False}
    if op == "loads":
        try:
            v, valid = json_linecomment_loads(src)
            return dict(ev, dump=cps(json.dumps(v)), valid=valid)
        except Exception as e:
            return dict(ev, **dict(exc(e), raised=True))
    par, ents, f = (webext_parse, wents, Format.webext) if op == "webext" else (plain_json_parse, pents, Format.plain_json)
    ev.update(op="parse", fmt=f.name, ents=[], shape=True)
    try:
        r = par(src)
        return dict(ev, ents=ents(r), shape=shape(r, f))
    except Exception as e:
        return dict(ev, **dict(exc(e), raised=True))


def kind(case, ev):
    return ev["op"] + "_" + ev.get("fmt", "") + ("_raised" if ev["raised"] else "")
