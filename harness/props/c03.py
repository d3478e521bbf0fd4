import json, logging, os, re, shutil
from os.path import dirname, exists, join, relpath
from core import Model
from proj import COM, ENT, EXP, LIT, MKU, PM, RES, SEC, T, VAR, cps, entry as pentry, message as pmessage, pattern as ppattern, res as pres, u_entry, u_key, u_message, u_meta, u_part, u_res, LIT as _L
from props.c04 import render
from props.c20 import deep
from props.c29 import nolp
import moz.l10n.migrate as mig
from moz.l10n.migrate import Migrate, copy, entry
from moz.l10n.migrate.utils import MigrationContext, get_entry, get_pattern, insert_entry_after, plural_message
from moz.l10n.model import CatchallKey, Entry, Expression, Markup, Metadata, PatternMessage, SelectMessage, VariableRef
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from moz.l10n.resource import parse_resource

JUDGE, VERDICT = "J_Migrate", "C03Verdict"
MODELS = [Model("MC_Migrate", workers=3, emit=True, thorough_cfg="MC_Migrate_T"), Model("MC_Migrate", cfg="MC_Migrate_S", workers=3, emit=True, thorough_cfg="MC_Migrate_ST")]
QUICK_N, THOROUGH_N = 5000, 50000
ASSUMPTIONS = ["files are read by parse_resource, before and after (C15-C25 are about this)", "migration functions are combinations of copy(), entry(), plural_message(), constants, and None; they give what the format of the target can hold, or content no format can hold",
               "no two reference paths share a target"]
# ---------------------------------------------------------------- functions
EXT = lambda p: "messages.json" if p.endswith("messages.json") else os.path.splitext(p)[1]
FMT = {".ftl": "fluent", ".properties": "properties", ".dtd": "dtd", ".inc": "inc", ".po": "gettext", ".pot": "gettext"}
NEED = {".ini", ".json", "messages.json", ".xml", ".xliff"}
MESSAGE = PM("New")


def COPY(id, ref=None, prop=None, var=None, vo=False, rep="none"):
    return {"t": "copy", "ref": [] if ref is None else [ref], "id": id, "prop": [] if prop is None else [prop], "var": [] if var is None else [var], "vo": vo, "rep": rep}


def MSG(v, after=None):
    return {"t": "msg", "v": v, "after": [] if after is None else [after]}


def FENT(e, after=None):
    return {"t": "ent", "e": e, "after": [] if after is None else [after]}


def ENTRY(value=None, props=(), partial=False, com=None, meta=None):
    return {"t": "entry", "value": [] if value is None else [value], "props": [{"n": n, "f": f} for n, f in props], "partial": partial, "com": [] if com is None else [com], "meta": [] if meta is None else [meta]}


NOTHING, STOP = {"t": "none"}, {"t": "stop"}


def rep_fn(kind):
    if kind == "none":
        return None
    ph = lambda p: isinstance(p, (Expression, Markup))
    var = lambda p: isinstance(p, Expression) and isinstance(p.arg, VariableRef)
    if kind == "up":
        return lambda p: p + "!" if isinstance(p, str) else None
    if kind in ("lit", "drop"):
        return lambda p: ("P" if kind == "lit" else "") if ph(p) else None
    if kind == "var":
        return lambda p: Expression(VariableRef("y")) if var(p) else None

    def mut(p):
        if var(p):
            p.arg = VariableRef("y")
    return mut


def const(f):
    """values of entry() that are not functions"""
    return u_message(f["v"]) if f["t"] == "msg" else u_entry(f["e"])


def build_fn(f, top=True):
    t = f["t"]
    one = lambda x: tuple(x)
    if t == "none":
        return lambda res, ctx: None
    if t == "stop":
        return lambda res, ctx: next(iter(()))
    if t in ("msg", "ent"):
        def make(res, ctx):
            v = const(f)
            if not f["after"]:
                return v
            ids = [tuple(i) for i in f["after"][0]]
            return v, ({i[0] for i in ids} if all(len(i) == 1 for i in ids) and len(ids) % 2 else set(ids))
        return make
    if t == "plural":
        def plural(res, ctx):
            other = get_pattern(res, *f["other"])
            return plural_message(f["name"], one=get_pattern(res, *f["one"], default=other), other=other), {tuple(f["one"]), tuple(f["other"])}
        return plural
    if t == "copy":
        var = f["var"][0] if f["var"] else None
        if var is not None:
            var = tuple(u_key(k) for k in var)
            if len(var) == 1 and isinstance(var[0], str) and f["vo"]:
                var = var[0]
        return copy(f["ref"][0] if f["ref"] else None, f["id"][0] if len(f["id"]) == 1 and f["vo"] else tuple(f["id"]), property=f["prop"][0] if f["prop"] else None, replace=rep_fn(f["rep"]), value_only=f["vo"] and not f["prop"], variant=var)
    arg = lambda x: const(x) if x["t"] in ("msg", "ent") and not x["after"] and (x["t"] == "msg" or not x["e"]["id"]) else build_fn(x)
    return entry(arg(f["value"][0]) if f["value"] else None, {p["n"]: arg(p["f"]) for p in f["props"]} or None, allow_partial=f["partial"], comment=f["com"][0] if f["com"] else None, meta=u_meta(f["meta"][0]) if f["meta"] else None)


def jf(f):
    """as recorded"""
    t = f["t"]
    if t == "entry":
        return {**deep({**f, "value": [], "props": [], "meta": [[{"k": m["k"], "v": m["v"]} for m in x] for x in f["meta"]]}), "value": [jf(x) for x in f["value"]], "props": [{"n": cps(p["n"]), "f": jf(p["f"])} for p in f["props"]]}
    if t == "msg":
        return {"t": t, "v": deep(pmessage(u_message(f["v"]))), "after": deep(f["after"])}
    if t == "ent":
        return {"t": t, "e": deep(nolp(pentry(u_entry(f["e"])))), "after": deep(f["after"])}
    if t == "copy":
        return {**deep(f), "rep": f["rep"], "vo": f["vo"] and not f["prop"]}
    return deep(f)


# ---------------------------------------------------------------- cases
IDS = ["a", "b", "c1", "d2", "e"]
FTL_REP = ["none", "none", "up", "lit", "var", "mut"]


def rdata(rng, ext, alt, ids):
    V = {".properties": [0, 2, 3, 5, 6, 8], ".json": [0, 1, 3, 4, 6, 7]}.get(ext, list(range(12)))
    return [{"id": i, "at": [a for a in ["x", "y"] if rng.random() < 0.3], "v": rng.choice(V), "com": rng.randrange(10), "alt": alt} for i in ids]


def parsed_ids(p, text):
    try:
        r = parse_resource(p, text)
    except Exception:
        return []
    return [list(s.id + e.id) for s in r.sections for e in s.entries if isinstance(e, Entry) and (not p.endswith(".xml") or len(e.id) == 1)]


def rmsg(rng, ext):
    w = rng.choice(["New", "Neu x", "Ж"])
    if ext in (".ftl", ".properties") and rng.random() < 0.05:
        return PM(w, MKU("open", "b"))
    if ext == ".ftl" and rng.random() < 0.4:
        return rng.choice([PM(w + " ", EXP(VAR("x"))), PM(EXP(LIT("-t"), "message")), {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n"], "var": [{"k": [{"t": "key", "s": "one"}], "p": [{"t": "txt", "s": w}]}, {"k": [{"t": "any", "s": "=other"}], "p": [EXP(VAR("n"))]}]}])
    return T(w) if rng.random() < 0.2 else PM(w)


def rbasic(rng, ext, own, others, targets, comments=True):
    """a function for a file with an extension; own: identifiers of the file, others: [(path, identifiers)]"""
    r = rng.random()
    near = lambda: None if rng.random() < 0.5 else [rng.choice(own + targets or [["q"]]) for _ in range(rng.choice([0, 1, 1, 2]))]
    src = lambda: rng.choice(own + targets) if own + targets and rng.random() < 0.9 else ["nope"]
    if ext == ".xliff":
        return NOTHING if r < 0.1 else COPY(src())
    if r < 0.06:
        return NOTHING
    if r < 0.1:
        return STOP
    if r < 0.3:
        return MSG(rmsg(rng, ext), near())
    if r < 0.4:
        return FENT(ENT(src() if rng.random() < 0.5 else [], {k: v for k, v in PM("E").items()}, com=rng.choice(["", "why"]) if comments and ext != ".json" else "", props=[("x", PM("X"))] if ext == ".ftl" and rng.random() < 0.5 else []), near())
    if r < 0.5 and ext in (".ftl", ".xml"):
        return {"t": "plural", "name": {".ftl": "n", ".xml": "quantity"}[ext], "one": src(), "other": src()}
    rep = rng.choice(FTL_REP) if ext == ".ftl" else "none"
    same = [o for o in others if EXT(o[0]) == ext and not (ext == ".xml")]
    if r < 0.7 and (same or ext == ".ftl"):
        plain = [o for o in others if EXT(o[0]) in (".properties", ".ini", ".dtd", ".inc", ".json")]
        if ext == ".ftl" and plain and (rng.random() < 0.5 or not same):
            p, ids = rng.choice(plain)
            return COPY(rng.choice(ids or [["nope"]]), p, vo=EXT(p) != ".properties" or rng.random() < 0.5, rep=rng.choice(["none", "none", "up"]))
        if same:
            p, ids = rng.choice(same)
            f = rvar(rng, ext, COPY(rng.choice((ids or [["nope"]]) + targets), p, rep=rep))
            return f
    return rvar(rng, ext, COPY(src(), rep=rep))


def rvar(rng, ext, f):
    r = rng.random()
    if r < 0.25:
        f["vo"] = True
    elif r < 0.4 and ext in (".ftl", ".xml", ".po", ".pot"):
        f["var"] = [[rng.choice([{"t": "key", "s": "one"}, {"t": "key", "s": "other"}, {"t": "any", "s": ""}])]]
        f["vo"] = rng.random() < 0.4
    elif r < 0.5 and ext == ".ftl":
        f["prop"] = [rng.choice(["x", "y"])]
        if rng.random() < 0.4:
            f["var"] = [[{"t": "key", "s": "one"}]]
    if ext in (".po", ".pot") and (f["vo"] or f["var"]):
        f["vo"], f["var"] = False, []
    return f


def rfn(rng, ext, own, others, targets):
    if rng.random() < 0.25:
        b = lambda: rbasic(rng, ext, own, others, targets)
        if ext != ".ftl":
            return ENTRY(b(), partial=rng.random() < 0.3, com=rng.choice([None, None, "", "said"]) if ext not in (".json", ".xliff") else None)
        return ENTRY(b() if rng.random() < 0.8 else None, [(n, b()) for n in rng.sample(["x", "y", "z"], rng.choice([0, 1, 2]))], rng.random() < 0.4, rng.choice([None, None, "", "said"]), [] if rng.random() < 0.1 else None)
    return rbasic(rng, ext, own, others, targets)


def rapply(rng):
    files = []
    exts = [".ftl"] * 5 + [".properties", ".ini", ".json", "messages.json", ".dtd", ".inc", ".po", ".pot", ".xml", ".xliff"]
    for i in range(rng.choice([1, 2, 2, 3])):
        ext = rng.choice(exts) if not files or rng.random() < 0.6 else EXT(files[0]["p"])
        p = rng.choice(["", "", "", "d/", "d/e/"]) + (f"m{i}/messages.json" if ext == "messages.json" else f"m{i}{ext}")
        mk = lambda alt, ext=ext: rdata(rng, ext, alt, rng.sample(IDS, rng.choice([1, 2, 3, 5])))
        one = lambda alt: (None if rng.random() < 0.25 else "bad" if rng.random() < 0.08 else mk(alt))
        files.append({"p": p, "src": mk("") if rng.random() < 0.9 else "bad", "locs": {lc: one(lc) for lc in ("fr", "de", "sl")}})
    config = rng.random() < 0.4
    if config:
        for f in files:
            if rng.random() < 0.15:
                f["src"] = None
            if rng.random() < 0.15:
                f["special"] = rng.choice([["de"], ["fr", "sl"]])
            elif rng.random() < 0.1:
                f["only"] = ["fr", "de"]
    info = {}
    for f in files:
        ids = []
        for d in f["locs"].values():
            if isinstance(d, list):
                ids += [i for i in parsed_ids(f["p"].replace(".pot", ".po"), render(EXT(f["p"]).replace(".pot", ".po"), d)) if i not in ids]
        info[f["p"]] = ids
    maps = []
    for f in rng.sample(files, rng.choice([1, 1, len(files)])):
        p, ext, own = f["p"], EXT(f["p"]), info[f["p"]]
        pre = lambda i: [rng.choice(["S", "S", "T", "U"]) if ext == ".ini" else rng.choice(["f", "g", "f", "h"]), i] if ext in (".ini", ".xliff") and rng.random() < 0.95 else [i, "k"] if ext in (".po", ".pot") and rng.random() < 0.3 else [i]
        targets = []
        for n in range(rng.choice([1, 2, 3, 4])):
            t = rng.choice(own) if own and rng.random() < 0.15 else pre(f"-n{n}" if ext == ".ftl" and rng.random() < 0.1 else f"n{n}")
            if t not in targets:
                targets.append(t)
        others = [(o["p"], info[o["p"]]) for o in files if o["p"] != p] + ([("nope.ftl", [["a"]])] if rng.random() < 0.1 else []) + ([(p, own)] if rng.random() < 0.5 else [])
        for m in maps:
            others = [(o, ids + ([x["id"] for x in m["ents"]] * 2 if o == m["path"] else [])) for o, ids in others]
        ents = [{"id": t, "f": rfn(rng, ext, own, others, targets)} for t in targets]
        for x in ents:  # terms need a value
            if x["id"][0].startswith("-") and x["f"]["t"] == "entry":
                x["f"] = MSG(MESSAGE)
        maps.append({"path": p, "ents": ents})
    return {"op": "apply", "files": files, "config": config, "map": maps, "runs": rng.choice([[False], [True, False], [False, False], [True, False, False], [False, True]]), "v": rng.randrange(4)}


def rpat(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        out.append(rng.choice([{"t": "txt", "s": rng.choice(["a", "", "x "])}, EXP(VAR("x")), EXP(VAR("n"), "f", {"o": LIT("1")}, {"source": LIT("s")}), EXP(LIT("l")), MKU("open", "b", {"o": VAR("x")})]))
    return out


def rmessage(rng):
    if rng.random() < 0.6:
        return {"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("x"), "f")}] if rng.random() < 0.2 else [], "p": rpat(rng)}
    two = rng.random() < 0.3
    key = lambda: rng.choice([{"t": "key", "s": "one"}, {"t": "key", "s": "other"}, {"t": "any", "s": rng.choice(["", "=other"])}])
    ks = {}
    for _ in range(rng.choice([1, 2, 3])):
        k = [key() for _ in range(2 if two else 1)]
        ks[str([(x["t"], x["s"] if x["t"] == "key" else "") for x in k])] = k
    if rng.random() < 0.7:
        k = [{"t": "any", "s": ""}] * (2 if two else 1)
        ks.setdefault(str([("any", "")] * len(k)), k)
    return {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n", "n"][:2 if two else 1], "var": [{"k": k, "p": rpat(rng)} for k in ks.values()]}


SIDS = [[], [], ["S"], ["S", "T"], ["R"]]
EIDS = [["a"], ["b"], ["c"], ["T", "a"], ["S", "a"], ["a", "b"]]


def rresource(rng):
    secs = []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        ents = []
        for i in rng.sample(EIDS, rng.choice([0, 1, 2, 3])):
            if rng.random() < 0.2:
                ents.append(COM("c"))
            ents.append(ENT(i, rmessage(rng), rng.choice(["", "c"]), [("k", "v")] if rng.random() < 0.2 else [], [(n, rmessage(rng)) for n in rng.sample(["x", "y"], rng.choice([0, 0, 1, 2]))]))
            if rng.random() < 0.1:
                ents.append(ents[-1])
        secs.append(SEC(rng.choice(SIDS), ents))
    return RES("", secs)


def rfull(rng, res=None):
    all_ = [s["id"] + e["id"] for s in (res or {"secs": []})["secs"] for e in s["ents"] if e["t"] == "ent"]
    return rng.choice(all_) if all_ and rng.random() < 0.7 else rng.choice(SIDS) + rng.choice(EIDS)


def rdirect(rng):
    res = rresource(rng)
    op = rng.choice(["insert", "insert", "lookup", "fn", "fn", "fn", "plural"])
    if op == "insert":
        return {"op": op, "res": res, "ent": ENT(rfull(rng, res if rng.random() < 0.3 else None), MESSAGE), "ids": [rfull(rng, res) for _ in range(rng.choice([0, 1, 2, 3]))], "v": rng.randrange(2)}
    var = lambda: [rng.choice([{"t": "key", "s": "one"}, {"t": "key", "s": "other"}, {"t": "any", "s": ""}]) for _ in range(rng.choice([1, 1, 1, 2]))]
    if op == "lookup":
        return {"op": op, "res": res, "id": rfull(rng, res), "prop": rng.choice([[], [], ["x"], ["z"]]), "var": [var()] if rng.random() < 0.5 else [], "dflt": [rpat(rng)] if rng.random() < 0.3 else []}
    if op == "plural":
        return {"op": op, "name": rng.choice(["n", "quantity"]), "keys": sorted(rng.sample(range(5), rng.randrange(5))), "pats": [rpat(rng) for _ in range(3)], "use": [rng.randrange(3) for _ in range(6)]}
    others = [{"path": f"o{i}.ftl", "res": rresource(rng)} for i in range(rng.choice([0, 1, 2]))]

    def basic():
        r = rng.random()
        if r < 0.1:
            return NOTHING
        if r < 0.13:
            return STOP
        if r < 0.25:
            return MSG(rng.choice([rmessage(rng), T("s")]), rng.choice([None, [["a"]], [["a"], ["S", "a"]]]))
        if r < 0.35:
            return FENT(ENT(rng.choice([[], ["a"]]), rmessage(rng), rng.choice(["", "c"]), [("k", "v")] if rng.random() < 0.5 else []), rng.choice([None, [["a"]]]))
        if r < 0.45:
            return {"t": "plural", "name": "n", "one": rfull(rng, res), "other": rfull(rng, res)}
        o = rng.choice(others) if others and rng.random() < 0.4 else None
        prop = rng.choice(["x", "y"]) if rng.random() < 0.3 else None
        return COPY(rfull(rng, o["res"] if o else res), o["path"] if o else "gone.ftl" if rng.random() < 0.05 else None, prop, var() if rng.random() < 0.3 else None, rng.random() < 0.3, rng.choice(["none", "up", "lit", "drop", "var", "mut"]))
    f = basic() if rng.random() < 0.6 else ENTRY(basic() if rng.random() < 0.8 else None, [(n, basic()) for n in rng.sample(["x", "y", "z"], rng.choice([0, 1, 2]))], rng.random() < 0.5, rng.choice([None, None, "", "said"]), rng.choice([None, None, [], [{"k": "m", "v": "w"}]]))
    return {"op": "fn", "res": res, "others": others, "f": f}


def gen(rng, n, shard, tier, direct=0.6):
    for _ in range(n):
        yield rdirect(rng) if rng.random() < direct else rapply(rng)


def from_model(c):
    S = lambda x: "".join(map(chr, x))
    I = lambda x: [S(y) for y in x]
    data = lambda es, alt: [{"id": S(e[-1]), "at": [], "v": 0, "com": 0, "alt": alt} for e in es]
    fn = {"copy": lambda x: COPY(I(x["id"]), "m1" + ext if x["ref"] else None), "msg": lambda x: MSG(MESSAGE, [I(i) for i in x["after"][0]] if x["after"] else None), "none": lambda x: NOTHING, "entry": lambda x: ENTRY(fn[x["value"][0]["t"]](x["value"][0]), partial=x["partial"])}
    out = []
    if c["named"]:
        # sections S and T are made of identifiers by c04.render: use the resource as such
        return []
    for ext in [".properties" if (len(c["map"]) + len(c["own"]["ids"]) + len(c["other"]["ids"]) + len(c["map"][0]["ents"])) % 2 and not c["own"]["bad"] else ".ftl"]:
        own = "bad" if c["own"]["bad"] else data(c["own"]["ids"], "fr") if c["own"]["has"] else None
        other = data(c["other"]["ids"], "fr") if c["other"]["has"] else None
        files = [{"p": "m0" + ext, "src": data([[[97]]], ""), "locs": {"fr": own}}, {"p": "m1" + ext, "src": data([[[97]]], ""), "locs": {"fr": other}}]
        out.append({"op": "apply", "files": files, "config": False, "map": [{"path": "m%d%s" % (m["path"][1] - 48, ext), "ents": [{"id": I(x["id"]), "f": fn[x["f"]["t"]](x["f"])} for x in m["ents"]]} for m in c["map"]], "runs": [True, False, False], "v": 0})
    return out


# ---------------------------------------------------------------- execution
CASE_TIMEOUT = 20


class Ctx(MigrationContext):
    def get_resource(self, ref_path):
        return self.table.get(ref_path)


def mangle(x):
    """change all there is in a result"""
    if isinstance(x, Entry):
        mangle(x.value)
        for p in x.properties.values():
            mangle(p)
        x.properties["zz"] = PatternMessage(["zz"])
        x.meta.append(Metadata("zz", "zz"))
    elif isinstance(x, PatternMessage):
        mangle(x.pattern)
        x.declarations["zz"] = Expression("zz")
    elif isinstance(x, SelectMessage):
        for p in x.variants.values():
            mangle(p)
        x.variants[("zz",)] = []
    else:
        for p in x:
            if isinstance(p, (Expression, Markup)):
                p.options["zz"] = "zz"
                p.attributes["zz"] = "zz"
                if isinstance(p, Expression):
                    p.arg = "zz"
        x.append("zz")


def direct(case):
    op = case["op"]
    R = lambda r: deep(nolp(pres(r)))
    if op == "plural":
        pats = [[u_part(p) for p in ps] for ps in case["pats"]]
        names = ["zero", "one", "two", "few", "many"]
        keys = case["keys"]
        args = {names[k]: pats[case["use"][i]] for i, k in enumerate(keys)}
        m = plural_message(case["name"], **args, other=pats[case["use"][5]])
        vs = [{"k": [{"t": "key", "s": names[k]}], "p": ppattern(args[names[k]])} for k in keys] + [{"k": [{"t": "any", "s": "=other"}], "p": ppattern(pats[case["use"][5]])}]
        ev = {"op": op, "name": cps(case["name"]), "vs": deep(vs), "m": deep(pmessage(m))}
        snap = json.dumps([ppattern(p) for p in pats])
        first, *more = m.variants.values()
        snap2 = json.dumps([ppattern(p) for p in more])
        mangle(first)
        return {**ev, "alias": json.dumps([ppattern(p) for p in pats]) != snap or json.dumps([ppattern(p) for p in more]) != snap2}
    res = u_res(case["res"])
    ev = {"op": op, "res": R(res)}
    if op == "insert":
        e = u_entry(case["ent"])
        ids = [tuple(i) for i in case["ids"]]
        ev.update(ent=deep(nolp(pentry(e))), ids=deep(case["ids"]))
        try:
            insert_entry_after(res, e, *(i[0] if len(i) == 1 and case["v"] else i for i in ids))
            ev["out"] = {"k": "ok", "res": R(res)}
        except StopIteration:
            ev["out"] = {"k": "stop", "res": R(res)}
        return ev
    if op == "lookup":
        e = get_entry(res, *case["id"])
        dflt = [u_part(p) for p in case["dflt"][0]] if case["dflt"] else None
        var = tuple(u_key(k) for k in case["var"][0]) if case["var"] else None
        if var and len(var) == 1 and isinstance(var[0], str) and len(case["id"]) == 1:
            var = var[0]
        try:
            pat = [deep(ppattern(get_pattern(res, *case["id"], property=case["prop"][0] if case["prop"] else None, default=dflt, variant=var)))]
        except StopIteration:
            pat = []
        return {**ev, "id": deep(case["id"]), "prop": deep(case["prop"]), "var": deep(case["var"]), "dflt": [deep(ppattern(dflt))] if dflt is not None else [],
                "out": {"ent": [] if e is None else [deep(nolp(pentry(e)))], "pat": pat}}
    table = {o["path"]: u_res(o["res"]) for o in case["others"]}
    ev.update(others=[{"path": cps(p), "res": R(r)} for p, r in table.items()], f=jf(case["f"]))
    ctx = Ctx(None, "m.ftl", "fr", {}, ("target",))
    ctx.table = table
    snap = lambda: json.dumps([pres(res)] + [pres(r) for r in table.values()])
    before = snap()
    none = deep(nolp(pentry(Entry((), PatternMessage([])))))
    try:
        out = build_fn(case["f"])(res, ctx)
    except StopIteration:
        return {**ev, "out": {"k": "stop", "ent": False, "e": none, "ids": [], "changed": snap() != before, "alias": False}}
    changed = snap() != before
    if out is None:
        return {**ev, "out": {"k": "none", "ent": False, "e": none, "ids": [], "changed": changed, "alias": False}}
    ids = []
    if isinstance(out, tuple):
        out, raw = out
        ids = [[cps(i) if False else [cps(p) for p in (i if isinstance(i, tuple) else (i,))] for i in sorted(raw, key=str)]]
    if isinstance(out, str):
        out = PatternMessage([out])
    ent = isinstance(out, Entry)
    e = deep(nolp(pentry(out if ent else Entry((), out))))
    before = snap()
    mangle(out)
    return {**ev, "out": {"k": "some", "ent": ent, "e": e, "ids": ids, "changed": changed, "alias": snap() != before}}


def execute(case):
    if case["op"] != "apply":
        return direct(case)
    S = join(os.path.realpath(os.environ["VERIF_SCRATCH"]), "migrate")
    shutil.rmtree(S, ignore_errors=True)
    lv, hs = logging.root.level, logging.root.handlers[:]
    logging.root.handlers[:] = [logging.NullHandler()]
    try:
        return _apply(case, S)
    finally:
        logging.root.setLevel(lv)
        logging.root.handlers[:] = hs
        mig.all_migrations.clear()
        shutil.rmtree(S, ignore_errors=True)


NORES = {"fmt": "", "com": [], "meta": [], "secs": []}


def put(path, d, ext):
    if d is None:
        return
    os.makedirs(dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b"\xff\xfe\xfa = \x81\n" if d == "bad" else render(ext, d).encode("utf-8"))


def rd(path):
    if not exists(path):
        return {"st": "missing", "res": NORES}
    try:
        r = parse_resource(path)
    except Exception:
        return {"st": "bad", "res": NORES}
    return {"st": "res", "res": {**deep(nolp(pres(r))), "fmt": r.format.name}}


def _apply(case, S):
    files, config = case["files"], case["config"]
    lcs = sorted({lc for f in files for lc in f["locs"]})
    root = join(S, "root")
    pot = lambda p: p[:-1] if p.endswith(".pot") else p

    def target(f, lc):
        d = "sp/" if lc in f.get("special", ()) else ""
        return join(root, d + lc, pot(f["p"]))
    for f in files:
        put(join(root, "en", f["p"]), f["src"], EXT(f["p"]))
        for lc, d in f["locs"].items():
            if not f.get("only") or lc in f["only"]:
                put(target(f, lc), d, EXT(pot(f["p"])))
    for lc in ["en"] + lcs:  # so that there are such
        put(join(root, lc, "keep.ftl"), [], ".ftl")
    wanted = {f["p"]: sorted(f.get("only") or lcs) for f in files}
    if config:
        paths = ""
        for f in files:
            ps = [f'[[paths]]\nreference = "en/{f["p"]}"\nl10n = "{{locale}}/{f["p"]}"\n' + (f'locales = {json.dumps(f["only"])}\n' if f.get("only") else "")]
            if f.get("special"):
                ps.append(f'[[paths]]\nreference = "en/{f["p"]}"\nl10n = "sp/{{locale}}/{f["p"]}"\nlocales = {json.dumps(f["special"])}\n')
            paths += "".join(ps if case["v"] % 2 else ps[::-1])
        put(join(root, "x"), "bad", "")
        with open(join(root, "l10n.toml"), "w") as fh:
            fh.write(f"locales = {json.dumps(lcs)}\n" + paths)
        P = L10nConfigPaths(join(root, "l10n.toml"))
    else:
        P = L10nDiscoverPaths(root) if case["v"] % 2 else root
    pre = "en/" if config else ""
    refname = lambda p: pre + (p[:-1] if p.endswith(".pot") and case["v"] == 3 else p)

    def at(f):
        return {**f, "ref": [refname(f["ref"][0])]} if f["t"] == "copy" and f["ref"] else {**f, "value": [at(x) for x in f["value"]], "props": [{"n": p["n"], "f": at(p["f"])} for p in f["props"]]} if f["t"] == "entry" else f
    m = Migrate({refname(x["path"]): {(e["id"][0] if len(e["id"]) == 1 and case["v"] % 2 else tuple(e["id"])): build_fn(at(e["f"])) for e in x["ents"]} for x in case["map"]}, P)
    known = {target(f, lc): (lc, f["p"]) for f in files for lc in lcs if not f.get("only") or lc in f["only"]}
    state = lambda: [{"lc": cps(lc), "path": cps(p), **rd(t)} for t, (lc, p) in known.items()]

    def snap():
        out = {}
        for d, _, fs in os.walk(root):
            for n in fs:
                p = join(d, n)
                with open(p, "rb") as fh:
                    out[p] = (fh.read(), os.stat(p).st_mtime_ns)
        return out
    refs = []
    for f in files:
        need = EXT(f["p"]) in NEED
        r = rd(join(root, "en", f["p"])) if need else {"st": "res", "res": {**NORES, "fmt": FMT[EXT(f["p"])]}}
        refs.append({"path": cps(f["p"]), "need": need, **r})
    ev = {"op": "apply", "files": state(), "refs": refs, "map": [{"path": cps(x["path"]), "lcs": [cps(lc) for lc in wanted[x["path"]]], "ents": [{"id": deep(e["id"]), "f": jf(e["f"])} for e in x["ents"]]} for x in case["map"]], "runs": []}
    for dry in case["runs"]:
        for d, _, fs in os.walk(root):
            for n in fs:
                os.utime(join(d, n), ns=(10**18, 10**18))
        before = snap()
        run = {"dry": dry, "exc": False, "ret": [], "what": ""}
        try:
            ret = m.apply(dry_run=dry)
            for p, ents in ret.items():
                lc, path = known.get(os.path.normpath(p), ("?", p))
                run["ret"].append({"lc": cps(lc), "path": cps(path), "ents": [deep(nolp(pentry(e))) for e in ents]})
        except Exception as e:
            run.update(exc=True, what=repr(e))
        after = snap()
        ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
        run["touched"] = [{"lc": cps(known[p][0]), "path": cps(known[p][1])} for p in ch if p in known]
        run["stray"] = any(p not in known for p in ch)
        run["files"] = state()
        ev["runs"].append(run)
        if run["exc"]:
            break
    return ev


def kind(case, ev):
    return ev["op"] + ("" if ev["op"] != "apply" else "_refused" if ev["runs"][-1]["exc"] else "_adding" if any(r["ret"] for r in ev["runs"]) else "_nothing")
