from core import Model
import proj
from proj import *
from moz.l10n.resource import add_entries

VERDICT = "MergeVerdict"
JUDGE = "J_Merge"
MODELS = [Model("MC_Merge", workers=4, emit=True, thorough_cfg="MC_Merge_T")]
QUICK_N, THOROUGH_N = 12000, 150000
ASSUMPTIONS = ["entries, sections and comments are compared as the data model compares them (line positions and catch-all names excluded)"]


def from_model(c):
    return [{"tgt": c["tgt"], "steps": [{"src": c["src"], "pref": c["pref"]}] * 2}]


IDS = [["a"], ["b"], ["c"], ["d"], ["a", "b"], ["e"]]
SIDS = [[], ["x"], ["y"], ["x", "y"]]


def rand_val(rng):
    r = rng.random()
    if r < 0.6:
        return T(rng.choice(["1", "2", ""]))
    if r < 0.9:
        return PM(rng.choice(["1", "2"]))
    return {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n"],
            "var": [{"k": [{"t": "key", "s": "one"}], "p": [{"t": "txt", "s": "1"}]}, {"k": [{"t": "any", "s": rng.choice(["", "=other"])}], "p": [{"t": "txt", "s": "2"}]}]}


def rmeta(rng):
    return [(rng.choice(["m", "m", "l", ""]), rng.choice(["1", "2", "", " 1"])) for _ in range(rng.choice([0, 0, 1, 2, 3]))]


def rand_res(rng, fmt=""):
    secs, used = [], set()
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        sid = rng.choice(SIDS)
        ents = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5])):
            if rng.random() < 0.15:
                ents.append(COM(rng.choice(["n1", "n2"])))
                continue
            i = rng.choice(IDS)
            k = (tuple(sid), tuple(i))
            if k in used and rng.random() < 0.85:
                continue
            used.add(k)
            ents.append(ENT(i, rand_val(rng), com=rng.choice(["", "", "k1", "k2", "\n", "k1 "]), meta=rmeta(rng),
                            props=rng.choice([[], [], [("p", T("1"))], [("p", T("1")), ("q", T("2"))]])))
        secs.append(SEC(sid, ents, com=rng.choice(["", "", "s1", "s2", " "]), meta=rmeta(rng) if rng.random() < 0.4 else []))
    return RES(fmt, secs, com=rng.choice(["", "r"]), meta=rmeta(rng) if rng.random() < 0.5 else [])


def gen(rng, n, shard, tier):
    for _ in range(n):
        steps = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            if steps and rng.random() < 0.4:
                s = dict(rng.choice(steps))
                if rng.random() < 0.2:
                    s["pref"] = not s["pref"]
            else:
                s = {"src": rand_res(rng), "pref": rng.random() < 0.5}
            steps.append(s)
        yield {"tgt": rand_res(rng), "steps": steps}


def execute(case):
    tgt = u_res(case["tgt"])
    before = proj.res(tgt)
    steps = []
    for st in case["steps"]:
        src = u_res(st["src"])
        p0 = proj.res(src)
        try:
            ret = add_entries(tgt, src, use_source_entries=True) if st["pref"] else add_entries(tgt, src)
            out = {"k": "ok", "ret": ret if type(ret) is int else -1}
        except Exception as e:
            out = exc(e)
        steps.append({"src": p0, "pref": st["pref"], "out": out, "after": proj.res(tgt), "srcafter": proj.res(src)})
    return {"op": "merge", "tgt": before, "steps": steps}


def kind(case, ev):
    return f"merges={len(ev['steps'])}"
