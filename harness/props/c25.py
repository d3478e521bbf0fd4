import copy
from core import Model
import proj
from proj import *
from moz.l10n.message import message_to_json, message_from_json, entry_to_json, entry_from_json
from moz.l10n.formats.mf2 import mf2_to_json, mf2_from_json
from moz.l10n.model import PatternMessage

JUDGE, VERDICT = "J_MsgJson", "JsonVerdict"
MODELS = [Model("MC_MsgJson", workers=3, emit=True, thorough_cfg="MC_MsgJson_T")]
QUICK_N, THOROUGH_N = 24000, 240000
ASSUMPTIONS = ["an expression has an argument or a function, options only with a function, function names are not empty (the data model's own rules)",
               "a catch-all key has no name or (but for MF2 data model JSON) a name that is not empty", "the JSON schemas are transcribed in MsgJson.tla"]


def named(m):
    """Adds the name of catch-all keys to a message projection."""
    if m["t"] == "sel":
        for v in m["var"]:
            for k in v["k"]:
                k["name"] = k["s"][1:] if k["t"] == "any" else ""
    return m


def pm(m):
    return named(proj.message(m))


def pe(e):
    r = proj.entry(e)
    if r["t"] == "ent":
        named(r["val"])
        for p in r["props"]:
            named(p["v"])
    return r


def tj(v):
    if isinstance(v, str):
        return {"j": "str", "s": v}
    if isinstance(v, (list, tuple)):
        return {"j": "arr", "a": [tj(x) for x in v]}
    if isinstance(v, dict):
        return {"j": "obj", "o": [{"n": k if isinstance(k, str) else f"\u0000{k!r}", "v": tj(x)} for k, x in v.items()]}
    return {"j": "lit", "s": {True: "true", False: "false", None: "null"}[v] if v is None or v is True or v is False else repr(v)}


def from_model(c):
    if c["op"] == "ent":
        i = ["".join(map(chr, p)) for p in c["id"]]
        if any(p.endswith("\\") for p in i[:-1]):  # ambiguous: see known_findings.json
            return [{"op": "key", "key": ".".join(i)}]
        return [{"op": "ent", "ent": ENT(i, PM("x"))}, {"op": "key", "key": ".".join(i)}]
    return [{"op": "msg", "m": c["m"]}, {"op": "mf2", "m": c["m"]}, {"op": "ent", "ent": ENT(["k"], c["m"], props=[("p", c["m"])])}]


NAMES = ["x", "y", "n", "$", "", "a b", "décl", "_"]
STR = ["", "", "x", "{", "}", "\\", ".", "\n", " ", "$", "*", "é\u2028", "\U0001f600", "\ud800", "true", "_", "1"]


def rval(rng, what):
    return rng.choice({"arg": [VAR(rng.choice(NAMES)), LIT(rng.choice(STR))], "opt": [VAR(rng.choice(NAMES)), LIT(rng.choice(STR))], "attr": [TRUE, LIT(rng.choice(STR))]}[what])


def rmap(rng, what):
    return {k: rval(rng, what) for k in rng.sample(["o", "p", "", "name", "$", "_", "type", "source"], rng.choice([0, 0, 1, 2, 3]))}


def rexp(rng):
    arg = rng.choice([rval(rng, "arg"), rval(rng, "arg"), NONE])
    fn = rng.choice(["", "number", "f:g", "_", "$"]) if arg["t"] != "none" else rng.choice(["f", "fn"])
    return EXP(arg, fn, rmap(rng, "opt") if fn else {}, rmap(rng, "attr"))


def rpart(rng):
    r = rng.random()
    if r < 0.4:
        return {"t": "txt", "s": rng.choice(STR)}
    if r < 0.75:
        return rexp(rng)
    return MKU(rng.choice(["open", "close", "standalone"]), rng.choice(["b", "", "open", "$"]), rmap(rng, "opt"), rmap(rng, "attr"))


def rpat(rng):
    return [rpart(rng) for _ in range(rng.choice([0, 0, 1, 2, 3, 4]))]


def rkey(rng):
    return rng.choice([{"t": "key", "s": rng.choice(STR)}, {"t": "key", "s": "one"}, {"t": "any", "s": ""}, {"t": "any", "s": "=" + rng.choice(["other", "one", "=", "*", " "])}])


def rmsg(rng):
    decl = [{"n": n, "e": rexp(rng)} for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3]))]
    for d in decl:
        if rng.random() < 0.5:
            d["e"]["arg"] = VAR(d["n"])
    if rng.random() < 0.55:
        return {"t": "pat", "decl": decl, "p": rpat(rng)}
    sel = [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    seen, var = set(), []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        ks = [rkey(rng) for _ in sel]
        h = tuple((k["t"], k["s"] if k["t"] == "key" else "") for k in ks)
        if h not in seen:
            seen.add(h)
            var.append({"k": ks, "p": rpat(rng)})
    return {"t": "sel", "decl": decl, "sel": sel, "var": var}


IDP = ["a", "", "a.b", ".", "..", "a.", ".a", "a\\.b", "\\.", "\\a", "b c", "é", "\\\\.x", "\\"]


def rent(rng):
    ids = [rng.choice(IDP) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    ids = [p if i == len(ids) - 1 else p.rstrip("\\") for i, p in enumerate(ids)]
    return ENT(ids, rng.choice([PM(), rmsg(rng), rmsg(rng)]), rng.choice(["", "", "com", " c\n", "#"]), [(rng.choice(["k", "", "@"]), rng.choice(STR)) for _ in range(rng.choice([0, 0, 1, 2]))],
               [(n, rmsg(rng)) for n in rng.sample(["p", "", "a.b", "+", "="], rng.choice([0, 0, 1, 2]))])


JUNK = ["", "x", None, True, False, 0, 1, 1.5, [], {}, ["x"], {"type": "literal", "value": "x"}, {"type": "variable", "name": "x"}, {"type": "*"}, {"type": "expression"},
        {"type": "expression", "arg": {"type": "variable", "name": "x"}}, {"type": "markup", "kind": "open", "name": "b"}, {"type": "function", "name": "f"}, "literal", "variable", "expression",
        "markup", "message", "select", "input", "local", "function", "*", "open", "close", "standalone", [[]], {"x": {}}]


def paths(j, here=()):
    yield here
    if isinstance(j, dict):
        for k in j:
            yield from paths(j[k], here + (k,))
    elif isinstance(j, list):
        for i in range(len(j)):
            yield from paths(j[i], here + (i,))


def mutate(rng, j):
    ps = list(paths(j))
    p = rng.choice(ps)
    if not p:
        if rng.random() < 0.3:
            return copy.deepcopy(rng.choice(JUNK))
        p = rng.choice(ps)
        if not p:
            return j
    o = j
    for k in p[:-1]:
        o = o[k]
    k = rng.randrange(5)
    if k == 0:
        del o[p[-1]]
    elif k == 1 and isinstance(o, list):
        o.append(copy.deepcopy(rng.choice(o)))
    elif k == 2 and isinstance(o, dict):
        o[rng.choice(["type", "arg", "function", "options", "attributes", "value", "name", "kind", "keys", "declarations", "pattern", "variants", "selectors"])] = copy.deepcopy(rng.choice(JUNK))
    elif k == 3:
        q = rng.choice(ps)
        src = j
        for x in q:
            try:
                src = src[x]
            except Exception:
                return j
        o[p[-1]] = copy.deepcopy(src)
    else:
        o[p[-1]] = copy.deepcopy(rng.choice(JUNK))
    return j


def gen(rng, n, shard, tier):
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            yield {"op": "msg", "m": rmsg(rng)}
        elif r < 0.4:
            m = rmsg(rng)
            if m["t"] == "sel":  # here, an empty name is not the same as none
                for v in m["var"]:
                    for k in v["k"]:
                        if k["t"] == "any" and rng.random() < 0.1:
                            k["s"] = "="
            yield {"op": "mf2", "m": m}
        elif r < 0.6:
            yield {"op": "ent", "ent": rent(rng)}
        elif r < 0.65:
            yield {"op": "key", "key": "".join(rng.choice("..\\ab\\") for _ in range(rng.randrange(9)))}
        else:
            m = rmsg(rng)
            j = py_mf2(m)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                j = mutate(rng, j) if isinstance(j, (dict, list)) else j
            if not isinstance(j, dict):
                continue
            yield {"op": "bad", "j": j}


def py_mf2(m):
    """Data model JSON to damage (built here, so that generation does not depend on the code under test)."""
    def v(x): return {"type": "variable", "name": x["s"]} if x["t"] == "var" else {"type": "literal", "value": x["s"]}
    def o(x): return {y["n"]: v(y["v"]) for y in x}
    def a(x): return {y["n"]: True if y["v"]["t"] == "true" else v(y["v"]) for y in x}
    def e(x):
        r = {"type": "expression"}
        if x["arg"]["t"] != "none": r["arg"] = v(x["arg"])
        if x["fn"]:
            r["function"] = {"type": "function", "name": x["fn"]}
            if x["opt"]: r["function"]["options"] = o(x["opt"])
        if x["attr"]: r["attributes"] = a(x["attr"])
        return r
    def p(x):
        if x["t"] == "txt": return x["s"]
        if x["t"] == "exp": return e(x)
        r = {"type": "markup", "kind": x["kind"], "name": x["name"]}
        if x["opt"]: r["options"] = o(x["opt"])
        if x["attr"]: r["attributes"] = a(x["attr"])
        return r
    r = {"type": "message" if m["t"] == "pat" else "select",
         "declarations": [{"type": "input" if d["e"]["arg"] == VAR(d["n"]) else "local", "name": d["n"], "value": e(d["e"])} for d in m["decl"]]}
    if m["t"] == "pat":
        r["pattern"] = [p(x) for x in m["p"]]
    else:
        r["selectors"] = [v(VAR(s)) for s in m["sel"]]
        r["variants"] = [{"keys": [{"type": "literal", "value": k["s"]} if k["t"] == "key" else dict({"type": "*"}, **({"value": k["s"][1:]} if k["s"] else {})) for k in x["k"]], "value": [p(y) for y in x["p"]]} for x in m["var"]]
    return r


def execute(case):
    op = case["op"]
    if op == "bad":
        try:
            m = mf2_from_json(copy.deepcopy(case["j"]))
            out = {"k": "ok", "type": type(m).__name__}
        except Exception as e:
            out = exc(e)
        return {"op": "bad", "json": tj(case["j"]), "out": out}
    if op == "key":
        try:
            i = [cps(x) for x in entry_from_json(case["key"], {"=": []}).id]
        except Exception as e:
            return {"op": "key", "raised": True, "out": exc(e)}
        return {"op": "key", "raised": False, "key": cps(case["key"]), "idc": i}
    if op == "ent":
        ent = u_entry(case["ent"])
        e0 = pe(ent)
        try:
            k, j = entry_to_json(ent)
            back = pe(entry_from_json(k, j))
        except Exception as e:
            return {"op": op, "raised": True, "out": exc(e)}
        back["lp"] = e0["lp"]
        return {"op": op, "raised": False, "ent": e0, "json": tj(j), "key": cps(k), "idc": [cps(x) for x in case["ent"]["id"]], "back": back, "after": pe(ent)}
    m = u_message(case["m"])
    m0 = pm(m)
    to, fr = (message_to_json, message_from_json) if op == "msg" else (mf2_to_json, mf2_from_json)
    try:
        j = to(m)
        back = pm(fr(j))
    except Exception as e:
        return {"op": op, "raised": True, "out": exc(e)}
    return {"op": op, "raised": False, "msg": m0, "json": tj(j), "back": back, "after": pm(m)}


def kind(case, ev):
    return ev["op"] + ("" if ev["op"] != "bad" else "_" + ev["out"]["k"])
