import copy
from core import Model
import proj
from proj import *
from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import MF2ValidationError, mf2_parse_message, mf2_serialize_message, mf2_validate_message
from moz.l10n.message import serialize_message
from moz.l10n.model import Markup, PatternMessage, SelectMessage
from props import c23
from props.c20 import deep

JUDGE, VERDICT = "J_Mf2", "Mf2Verdict"
MODELS = [Model("MC_Mf2", workers=3, emit=True, thorough_cfg="MC_Mf2_T")]
QUICK_N, THOROUGH_N = 24000, 400000
ASSUMPTIONS = ["the grammar is that of LDML 46", "names are compared as sequences of code points", "NUL cannot be written, so no message with NUL is valid", "the kind of a markup is hashable; declarations, variants, options and attributes that are maps are mutable dicts"]


def tostr(x):
    if isinstance(x, list):
        return "".join(map(chr, x)) if all(isinstance(y, int) for y in x) else [tostr(y) for y in x]
    return {k: (tostr(v) if k not in ("p", "decl", "var", "opt", "attr", "sel", "k") or v else []) for k, v in x.items()} if isinstance(x, dict) else x


def from_model(c):
    if c["op"] == "parse":
        return [{"op": "pv", "src": "".join(map(chr, c["src"]))}]
    m = tostr(c["m"])
    return [{"op": "val", "m": m}]


NAMES = ["x", "y", "z", "w", "a.b", "\xe9", "_1"]
BADN = ["", "1", "a b", "-x", "a:b", "$x", "a\u200e", "x\u037e", "x\n"]
IDS = ["f", "number", "ns:f", "a-b", "\u3001"]
BADI = ["", ":", "a:", ":a", "a:b:c", "1", "f g", "f\n"]
STR = ["", "", "x", "{", "}", "\\", ".", "\n", " ", "|", "$", "*", "\xe9\u2028", "\U0001f600", "\ud800", "1", "01", "1.5", "1x5", "-0", "1 5", "1}5", "1e5", "\u0661", "1\n", "x\n", "\u200e", "\x01", "{{", "}}", ".input", "a:b", "@a", "\\|"]
BADS = ["\x00", "a\x00b"]
JUNK = [None, 42, True, "str", [], {}, ["x"], {"x": "y"}, {"o": 1}, ()]


class G:
    def __init__(self, rng, bad):
        self.r, self.bad = rng, bad

    def pick(self, good, bad):
        return self.r.choice(bad) if self.bad and self.r.random() < 0.03 else self.r.choice(good)

    def name(self): return self.pick(NAMES, BADN)
    def ident(self): return self.pick(IDS, BADI)
    def s(self): return self.pick(STR, BADS)

    def opts(self):
        return {self.pick(IDS + ["o", "p"], BADI): VAR(self.name()) if self.r.random() < 0.35 else LIT(self.s()) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 3]))}

    def attrs(self):
        return {self.pick(IDS + ["o", "p", "source"], BADI): TRUE if self.r.random() < 0.4 else LIT(self.s()) for _ in range(self.r.choice([0, 0, 0, 1, 2]))}

    def exp(self, arg=None):
        a = arg or self.r.choice([VAR(self.name()), LIT(self.s()), NONE])
        fn = self.ident() if self.r.random() < 0.5 or a["t"] == "none" and not (self.bad and self.r.random() < 0.05) else ""
        return EXP(a, fn, self.opts() if fn or (self.bad and self.r.random() < 0.03) else {}, self.attrs())

    def part(self):
        x = self.r.random()
        if x < 0.45:
            return {"t": "txt", "s": self.s()}
        return self.exp() if x < 0.75 else MKU(self.pick(["open", "close", "standalone"], ["x", "", "Open"]), self.ident(), self.opts(), self.attrs())

    def pat(self): return [self.part() for _ in range(self.r.choice([0, 0, 1, 2, 3, 4]))]

    def decls(self, acyclic):
        r = self.r
        ns = r.sample(NAMES, r.choice([0, 0, 1, 2, 3, 4, 6]))
        ds = []
        for i, n in enumerate(ns):
            e = self.exp(VAR(n) if r.random() < 0.35 else VAR(r.choice(ns[:i])) if i and r.random() < 0.6 else None)
            if acyclic:  # refer only to earlier or undeclared names
                for o in e["opt"]:
                    if o["v"]["t"] == "var":
                        o["v"] = VAR(r.choice(ns[:i])) if i else VAR("undeclared")
                if e["arg"]["t"] == "var" and e["arg"]["s"] in ns[i + 1:]:
                    e["arg"] = VAR(r.choice(ns[:i] + ["q"]))
            ds.append({"n": n, "e": e})
        r.shuffle(ds)
        if self.bad and ds and r.random() < 0.03:
            ds[0]["n"] = r.choice(BADN)
        return ds

    def key(self):
        r = self.r
        return r.choice([{"t": "key", "s": self.s()}, {"t": "key", "s": "one"}, {"t": "any", "s": ""}, {"t": "any", "s": r.choice(["", "=other", "=one"])}])

    def msg(self):
        r = self.r
        ds = self.decls(r.random() < 0.8)
        if r.random() < 0.5:
            return {"t": "pat", "decl": ds, "p": self.pat()}
        ok = [d["n"] for d in ds if d["e"]["fn"]]
        ok += [d["n"] for d in ds if d["e"]["arg"]["t"] == "var" and d["e"]["arg"]["s"] in ok]
        if not ok:
            ds.append({"n": "sel", "e": EXP(VAR("sel"), "f")})
            ok = ["sel"]
        sel = [r.choice(ok if r.random() < 0.95 else NAMES) for _ in range(r.choice([1, 1, 2, 3]))]
        if self.bad and r.random() < 0.03:
            sel = r.choice([[], sel + [self.name()]])
        seen, var = set(), []
        vs = [[self.key() for _ in sel] for _ in range(r.choice([0, 1, 2, 3]))]
        if not self.bad or r.random() < 0.95:
            vs.append([{"t": "any", "s": ""} for _ in sel])
        r.shuffle(vs)
        if self.bad and vs and r.random() < 0.03:
            r.choice(vs).append(self.key())
        for ks in vs:
            h = tuple((k["t"], k["s"] if k["t"] == "key" else "") for k in ks)
            if h not in seen:
                seen.add(h)
                var.append({"k": ks, "p": self.pat()})
        return {"t": "sel", "decl": ds, "sel": sel, "var": var}


def gen(rng, n, shard, tier):
    g, b = G(rng, False), G(rng, True)
    t = c23.G(rng)
    for _ in range(n):
        x = rng.random()
        if x < 0.4:
            yield {"op": "val", "m": g.msg()}
        elif x < 0.75:
            yield {"op": "val", "m": b.msg()}
        elif x < 0.85:
            yield {"op": "junk", "m": g.msg(), "at": rng.randrange(1000), "j": rng.randrange(len(JUNK)), "f": rng.randrange(7)}
        else:
            yield {"op": "pv", "src": t.message()}


def fixed_cases():
    yield {"op": "val", "m": PM(".", " ", decl=())}
    yield {"op": "val", "m": PM("", "\u200e", ".x")}
    yield {"op": "val", "m": PM(EXP(LIT("")), EXP(LIT(""), "f"))}
    yield {"op": "val", "m": PM("x", decl=[{"n": "a", "e": EXP(VAR("z"))}, {"n": "m", "e": EXP(LIT("1"))}, {"n": "z", "e": EXP(LIT("2"))}])}


def holders(m):
    """The places of a message that can be given a value of a wrong type."""
    def val(o, maps):
        out = [(o, "options"), (o, "attributes")]
        if isinstance(o, Markup):
            out += [(o, "name")]
        else:
            out += [(o, "arg"), (o, "function")]
        for mp in maps:
            out += [(mp, k) for k in mp]
        return out
    res = [(m, "declarations")]
    for e in m.declarations.values():
        res += val(e, [e.options, e.attributes])
    res += [(m.declarations, k) for k in m.declarations]
    if isinstance(m, PatternMessage):
        pats = [m.pattern]
        res.append((m, "pattern"))
    else:
        pats = list(m.variants.values())
        res += [(m, "selectors"), (m, "variants")] + [(m.variants, k) for k in m.variants] + [(m.declarations, k) for k in m.declarations]
    for p in pats:
        for i, x in enumerate(p):
            res.append((p, i))
            if not isinstance(x, str):
                res += val(x, [x.options, x.attributes])
    return res


def project(m):
    try:
        r = proj.message(m)
    except Exception:
        return {"t": "odd", "s": []}
    if isinstance(m, (PatternMessage, SelectMessage)) and (type(m.declarations) is not dict or isinstance(m, PatternMessage) and type(m.pattern) is not list
                                                           or isinstance(m, SelectMessage) and (type(m.variants) is not dict or type(m.selectors) is not tuple or any(type(p) is not list for p in m.variants.values()))):
        return {"t": "odd", "s": []}
    return deep(r)


def execute(case):
    op = case["op"]
    if op == "pv":
        try:
            m = mf2_parse_message(case["src"])
        except Exception:
            return {"op": "idle"}
    else:
        m = u_message(case["m"])
    if op == "junk":
        hs = holders(m)
        o, k = hs[case["at"] % len(hs)]
        j = copy.deepcopy(JUNK[case["j"]])
        if k in ("pattern",) and isinstance(j, (list, tuple, dict)) or isinstance(o, dict) and o is getattr(m, "variants", None) and isinstance(j, (list, tuple, dict)):
            return {"op": "idle"}  # iterables do for a pattern
        if isinstance(o, (dict, list)):
            o[k] = j
        else:
            setattr(o, k, j)
    m0 = project(m)
    ev = {"op": op, "msg": m0, "raised": False, "type": "", "after": m0, "text": [], "serr": "", "final": m0}
    try:
        mf2_validate_message(m)
    except Exception as e:
        ev["raised"], ev["type"] = True, type(e).__name__
    ev["after"] = project(m)
    if ev["raised"]:
        return ev
    try:
        t = mf2_serialize_message(m)
        ev["text"] = cps(t)
        if serialize_message(Format.mf2, m) != t or mf2_serialize_message(m) != t:
            ev["serr"] = "differs"
    except Exception as e:
        ev["serr"] = type(e).__name__
    ev["final"] = project(m)
    return ev


def kind(case, ev):
    return ev["op"] if ev["op"] == "idle" else case["op"] + ("_invalid" if ev["raised"] else "_valid")
