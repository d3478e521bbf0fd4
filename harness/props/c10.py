import copy
from core import Model
import proj
from proj import *
from moz.l10n.resource import l10n_equal
from props.c09 import rand_res, rand_val, IDS

JUDGE, VERDICT = "J_L10nEqual", "EqualVerdict"
MODELS = [Model("MC_L10nEqual", workers=3, emit=True, thorough_cfg="MC_L10nEqual_T")]
QUICK_N, THOROUGH_N = 16000, 200000
WS = [" ", "\n", "\t", "  ", "\u00a0", "\u2003", "\r\n"]


def txt(c):
    return "".join(map(chr, c))


def comtext(r):
    """cases from the model carry comments as code points"""
    r = dict(r)
    r["com"] = txt(r["com"]) if not isinstance(r["com"], str) else r["com"]
    r["secs"] = [dict(s, com=s["com"] if isinstance(s["com"], str) else txt(s["com"]),
                      ents=[dict(e, com=e["com"] if isinstance(e["com"], str) else txt(e["com"])) for e in s["ents"]]) for s in r["secs"]]
    return r


def from_model(c):
    return [{"a": comtext(c["a"]), "b": comtext(c["b"])}]


def comcps(r):
    r["com"] = cps(r["com"])
    for s in r["secs"]:
        s["com"] = cps(s["com"])
        for e in s["ents"]:
            if "com" in e:
                e["com"] = cps(e["com"])
    return r


def neutral(rng, r):
    k = rng.randrange(8)
    secs = r["secs"]
    s = rng.choice(secs) if secs else None
    if k == 0:
        rng.shuffle(secs)
    elif k == 1 and s:
        rng.shuffle(s["ents"])
    elif k == 2 and s:
        s["ents"].insert(rng.randrange(len(s["ents"]) + 1), COM("more"))
    elif k == 3:
        secs.insert(rng.randrange(len(secs) + 1), SEC(rng.choice([[], ["x"], ["zz"]]), rng.choice([[], [COM("q")]]), com=rng.choice(["", "c9"]), meta=rng.choice([[], [("z", "1")]])))
    elif k == 4:
        objs = [r] + secs + [e for x in secs for e in x["ents"] if e["t"] == "ent"]
        o = rng.choice(objs)
        if o.get("meta"):
            o["meta"].append(dict(rng.choice(o["meta"])))
            rng.shuffle(o["meta"])
    elif k == 5:
        objs = [r] + secs + [e for x in secs for e in x["ents"] if e["t"] == "ent"]
        o = rng.choice(objs)
        o["com"] = rng.choice(WS) + o["com"] + rng.choice(WS)
    elif k == 6 and s and s["id"] == [] and not s["com"].strip() and not s["meta"] and len(s["ents"]) > 1:
        i = rng.randrange(1, len(s["ents"]))
        secs.insert(rng.randrange(len(secs) + 1), SEC([], s["ents"][i:]))
        s["ents"] = s["ents"][:i]
    elif k == 7 and s:
        for e in s["ents"]:
            if e["t"] == "ent":
                rng.shuffle(e["props"])


def meta_edit(rng, x):
    m = x["meta"]
    k = rng.randrange(4)
    if k == 0 or not m:
        m.insert(rng.randrange(len(m) + 1), {"k": rng.choice(["m", "l", ""]), "v": rng.choice(["", "1", "2", " 1"])})
    elif k == 1:
        m.pop(rng.randrange(len(m)))
    elif k == 2:
        rng.choice(m)["v"] = rng.choice(["", "1", "2", " 1", "1 "])
    else:
        rng.choice(m)["k"] = rng.choice(["m", "l", ""])


def real(rng, r):
    k = rng.randrange(15)
    secs = r["secs"]
    ents = [e for x in secs for e in x["ents"] if e["t"] == "ent"]
    e = rng.choice(ents) if ents else None
    s = rng.choice(secs) if secs else None
    if k == 0:
        r["fmt"] = rng.choice(["fluent", "ini", ""])
    elif k == 1:
        r["com"] += "x"
    elif k == 2:
        meta_edit(rng, r)
    elif k == 3 and s:
        s["id"] = s["id"] + ["w"]
    elif k == 4 and s:
        s["com"] = rng.choice(["", "s1", "s2", "s1 s2"])
    elif k == 5 and s:
        meta_edit(rng, s)
    elif k == 6 and e:
        e["id"] = rng.choice(IDS)
    elif k == 7 and e:
        e["com"] = rng.choice(["", "k1", "k2", "k 1"])
    elif k == 8 and e:
        meta_edit(rng, e)
    elif k == 9 and e:
        e["val"] = rand_val(rng)
    elif k == 10 and e:
        e["props"] = [{"n": n, "v": T(rng.choice(["1", "2", ""]))} for n in rng.sample(["p", "q", "r"], rng.choice([0, 1, 1, 2]))]
    elif k == 11 and e:
        for x in secs:
            x["ents"] = [y for y in x["ents"] if y is not e]
    elif k == 12 and s and e:
        if not any(y["t"] == "ent" and y["id"] == e["id"] for y in s["ents"]):
            s["ents"].append(copy.deepcopy(e))
    elif k == 13 and s:
        secs.remove(s)
    elif k == 14 and e and e["meta"]:
        e["meta"].pop()


def gen(rng, n, shard, tier):
    for _ in range(n):
        a = rand_res(rng)
        if rng.random() < 0.6:  # Fluent-like: many anonymous sections
            for s in a["secs"]:
                if rng.random() < 0.6:
                    s["id"] = []
        if rng.random() < 0.4:
            for s in a["secs"]:
                if rng.random() < 0.7:
                    s["com"], s["meta"] = "", []
        # a valid resource: distinct identifiers
        seen = set()
        for s in a["secs"]:
            keep = []
            for e in s["ents"]:
                if e["t"] == "ent":
                    k = (tuple(s["id"]), tuple(e["id"]))
                    if k in seen:
                        continue
                    seen.add(k)
                keep.append(e)
            s["ents"] = keep
        b = copy.deepcopy(a)
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            neutral(rng, b)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            real(rng, b)
        if rng.random() < 0.3:
            neutral(rng, a)
        yield {"a": a, "b": b}


def call(f):
    try:
        r = f()
        return {"k": "ok", "ret": r if type(r) is bool else bool(r)}
    except Exception as e:
        return exc(e)


def execute(case):
    a, b = u_res(case["a"]), u_res(case["b"])
    a0, b0 = comcps(proj.res(a)), comcps(proj.res(b))
    ab, ba = call(lambda: l10n_equal(a, b)), call(lambda: l10n_equal(b, a))
    return {"op": "equal", "a": a0, "b": b0, "ab": ab, "ba": ba, "a2": comcps(proj.res(a)), "b2": comcps(proj.res(b))}


def kind(case, ev):
    return f"equal={ev['ab'].get('ret')}"
