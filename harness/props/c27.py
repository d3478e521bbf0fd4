import copy
from core import Model
import proj
from proj import *
from moz.l10n.model import Metadata, Entry, Section, Resource

JUDGE, VERDICT = "J_Normalize", "NormalizeVerdict"
MODELS = [Model("MC_Normalize", workers=4, emit=True, thorough_cfg="MC_Normalize_T")]
QUICK_N, THOROUGH_N = 16000, 200000
ASSUMPTIONS = ["option and attribute maps are compared as maps; declaration and variant order as sequences"]


def from_model(c):
    if c["op"] == "norm":
        return [{"op": "norm", "m": c["m"]}]
    return [{"op": "meta", "on": "entry", "init": [], "steps": [list(x) for x in c["m"]] + [["get", "k", ""], ["has", "k", "1"]]}]


NAMES = ["a", "b", "c", "d", "e", "x"]


def rexp(rng):
    arg = rng.choice([VAR(rng.choice(NAMES)), LIT("1"), NONE, VAR(rng.choice(NAMES))])
    fn = rng.choice(["", "number"]) if arg["t"] != "none" else "f"
    opt = {k: rng.choice([VAR(rng.choice(NAMES)), LIT("v")]) for k in rng.sample(["o", "p", "q"], rng.choice([0, 0, 1, 2]))} if fn else {}
    attr = {k: rng.choice([TRUE, LIT("a"), LIT("b")]) for k in rng.sample(["s", "t"], rng.choice([0, 0, 1]))}
    return EXP(arg, fn, opt, attr)


def rpart(rng):
    r = rng.random()
    if r < 0.6:
        return {"t": "txt", "s": rng.choice(["", "", "x", "y", " ", "\n", "xy"])}
    if r < 0.85:
        return rexp(rng)
    return MKU(rng.choice(["open", "close", "standalone"]), "b", {k: rng.choice([VAR(rng.choice(NAMES)), LIT("v")]) for k in rng.sample(["o", "p"], rng.choice([0, 1, 1]))}, {"at": TRUE} if rng.random() < 0.2 else {})


def rpat(rng):
    return [rpart(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]


def rmsg(rng):
    names = rng.sample(NAMES[:5], rng.choice([0, 1, 2, 3, 5]))
    decl = [{"n": n, "e": rexp(rng)} for n in names]
    if rng.random() < 0.6:
        return {"t": "pat", "decl": decl, "p": rpat(rng)}
    sel = rng.sample(NAMES[:5], rng.choice([1, 1, 2]))
    for s in sel:
        if s not in names:
            decl.append({"n": s, "e": EXP(VAR(rng.choice(NAMES)), "number")})
    keys = [[{"t": "key", "s": "one"}, {"t": "key", "s": "two"}, {"t": "any", "s": ""}, {"t": "any", "s": "=other"}] for _ in sel]
    seen, var = set(), []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ks = [rng.choice(k) for k in keys]
        h = tuple(k["s"] if k["t"] == "key" else "*" for k in ks)
        if h not in seen:
            seen.add(h)
            var.append({"k": ks, "p": rpat(rng)})
    return {"t": "sel", "decl": decl, "sel": sel, "var": var}


def gen(rng, n, shard, tier):
    for _ in range(n):
        if rng.random() < 0.7:
            yield {"op": "norm", "m": rmsg(rng)}
        else:
            ks = ["k", "l", "m", ""]
            yield {"op": "meta", "on": rng.choice(["entry", "section", "resource"]),
                   "init": [{"k": rng.choice(ks), "v": rng.choice(["1", "2", ""])} for _ in range(rng.choice([0, 1, 2, 4, 6]))],
                   "steps": [[rng.choice(["get", "has", "hasany", "set", "del"]), rng.choice(ks), rng.choice(["1", "2", ""])] for _ in range(rng.choice([1, 2, 3, 6]))]}


def execute(case):
    if case["op"] == "norm":
        m = u_message(case["m"])
        before = proj.message(m)
        try:
            empty = bool(m.is_empty())
            m.normalize()
            after = proj.message(m)
            m.normalize()
            return {"op": "norm", "raised": False, "before": before, "after": after, "twice": proj.message(m), "empty": empty}
        except Exception:
            return {"op": "norm", "raised": True}
    meta = u_meta(case["init"])
    x = {"entry": lambda: Entry(("i",), "", meta=meta), "section": lambda: Section((), [], meta=meta), "resource": lambda: Resource(None, [], meta=meta)}[case["on"]]()
    init, steps = proj.meta(x), []
    for op, k, v in case["steps"]:
        ev = {"op": op, "k": k, "v": v, "raised": False, "ret": "", "b": False, "n": 0}
        try:
            if op == "get":
                r = x.get_meta(k)
                ev["ret"] = "~" if r is None else "=" + S(r)
            elif op == "has":
                ev["b"] = bool(x.has_meta(k, v))
            elif op == "hasany":
                ev["b"] = bool(x.has_meta(k))
            elif op == "set":
                x.set_meta(k, v)
            elif op == "app":
                x.meta.append(Metadata(k, v))
            elif op == "del":
                ev["n"] = x.del_meta(k)
        except Exception:
            ev["raised"] = True
        ev["after"] = proj.meta(x)
        steps.append(ev)
    return {"op": "meta", "raised": False, "init": init, "steps": steps}


def kind(case, ev):
    return case["op"] + ":" + (case["m"]["t"] if case["op"] == "norm" else case["on"])
