import copy
from core import Model
import proj
from proj import *
from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.resource import parse_resource, serialize_resource
from props import c24, c25, c29
from props.c20 import Odd, deep

JUDGE, VERDICT = "J_Refuse", "RefuseVerdict"
MODELS = [Model("MC_Refuse", workers=3, emit=True, thorough_cfg="MC_Refuse_T")]
QUICK_N, THOROUGH_N = 20000, 200000
ASSUMPTIONS = ["content is what the marked words it has (a letter, digits, a q), by kind: identifiers, values, properties, comments and metadata; the exact text is the concern of C15-C24",
               "in XLIFF the notes among the metadata of an entry take the place of its comment; without comments neither comments nor metadata are written",
               "declarations do not refer to each other in circles; units of XLIFF have sources; metadata of Xcode selects is that of their variants, and metadata of XLIFF elements what they can hold",
               "a resource is well typed; what a format cannot hold is listed in Refuse.tla"]
FMTS = c29.FMTS
MFMTS = ["dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "android", "xliff", "mf2"]


def undeep(x, k=""):
    if isinstance(x, list):
        if x and all(isinstance(c, int) for c in x):
            return "".join(map(chr, x))
        return "" if not x and k in ("com", "s", "n", "name", "fn") else [undeep(v) for v in x]
    return {n: undeep(v, n) for n, v in x.items()} if isinstance(x, dict) else x


def from_model(c):
    r = undeep(c["res"])
    if r["fmt"] == "xliff":
        for s in r["secs"]:
            for e in s["ents"]:
                if e["t"] == "ent":
                    e["meta"].insert(0, {"k": "source", "v": "src"})
    if r["fmt"] == "android":
        for m in r["meta"]:
            m["v"] = "http://schemas.android.com/" + m["v"]
    return [{"op": "res", "res": r, "trim": t, "opt": {}, "own": r["fmt"], "plain": True} for t in (False, True)]


# ------------------------------------------------- random cases
class Words:
    """Texts with a word of their own."""
    def __init__(self, rng, fmt):
        self.r, self.n, self.fmt = rng, 0, fmt

    def w(self, p="w"):
        self.n += 1
        return f"{p}{self.n}q"

    def text(self):
        r = self.r
        return r.choice(["", "", "a ", "A b, ", "é", "\n", "b\n", " ", "\t", "\\", "{", "'", "<", "&", "\"", "#", "$", "@", "["] + ([] if self.fmt == "android" else ["%"])) + self.w() + r.choice(["", "", " z", "\n", "  ", "\n\nc", "}", "'", "=", "\\", ";", " ;", "]", ">", "--", ":"]) + (self.w() if r.random() < 0.1 else "")

    def plain(self):
        return self.r.choice(["", "", "a ", "A b, "]) + self.w() + self.r.choice(["", "", " z", ", é"])

    def t(self, plain):
        return self.plain() if plain or self.r.random() < 0.5 else self.text()


def marked(rng, W, v, plain):
    """Words of their own in a message."""
    def pat(ps):
        for p in ps:
            if p["t"] == "txt":
                p["s"] = W.t(plain)
    if v["t"] == "str":
        v["s"] = W.plain()
    elif v["t"] == "pat":
        pat(v["p"])
    else:
        for x in v["var"]:
            pat(x["p"])
    return v


def odd(rng, W, fmt):
    """Values that few formats can hold."""
    sel = lambda keys, fn="number": {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), fn)}], "sel": ["n"], "var": [{"k": [{"t": "any", "s": rng.choice(["", "=" + k])} if i == len(keys) - 1 else {"t": "key", "s": k}], "p": [{"t": "txt", "s": W.plain()}]} for i, k in enumerate(keys)]}
    src = lambda: {} if rng.random() < 0.4 else {"source": rng.choice([LIT("%s"), LIT("%1$s"), LIT("$1"), LIT("{ $x }"), LIT("<b>"), LIT("&foo;"), LIT(""), TRUE])}
    return rng.choice([
        lambda: sel(rng.choice([["one", "other"], ["other"], ["0", "1"], ["a", "b", "c"], ["one", "two", "few", "other"]])),
        lambda: sel(["one", "other"], rng.choice(["", "string", "x"])),
        lambda: {"t": "sel", "decl": [{"n": x, "e": EXP(VAR(x), "number")} for x in "nm"], "sel": ["n", "m"], "var": [{"k": [{"t": "key", "s": "one"}, {"t": "any", "s": ""}], "p": [{"t": "txt", "s": W.plain()}]}, {"k": [{"t": "any", "s": ""}] * 2, "p": [{"t": "txt", "s": W.plain()}]}]},
        lambda: PM(W.plain() + " ", EXP(VAR(rng.choice(["arg1", "x"])), "", {}, src()), " " + W.plain()),
        lambda: PM(W.plain() + " ", EXP(VAR("x"), rng.choice(["number", "string", "integer", "message", "f"]), rng.choice([{}, {"o": LIT("p")}]), src())),
        lambda: PM(W.plain() + " ", EXP(LIT(W.w()), rng.choice(["", "string", "number", "entity", "message"]), {}, src())),
        lambda: PM(MKU("open", "b", {}, src()), W.plain(), MKU("close", "b", {}, src())),
        lambda: PM(MKU(rng.choice(["open", "close", "standalone"]), rng.choice(["b", "x", ""]), rng.choice([{}, {"id": LIT("i")}]), src()), W.plain()),
        lambda: {"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("arg1"), rng.choice(["", "", "number", "source"]), {}, src())}], "p": [{"t": "txt", "s": W.plain() + " "}, EXP(VAR("x"), "", {}, src())]},
        lambda: {"t": "pat", "decl": [], "p": []},
    ])()


NOT = {"dtd": "sec_meta ent_meta", "fluent": "sec_meta ent_meta", "gettext": "sec_comment sec_meta standalone", "inc": "res_meta sec_meta ent_meta", "ini": "res_meta sec_meta ent_meta",
       "plain_json": "res_meta sec_meta ent_meta res_comment sec_comment standalone ent_comment", "properties": "res_meta sec_meta ent_meta", "webext": "res_meta sec_meta ent_meta res_comment sec_comment standalone", "android": "sec_meta", "xliff": ""}


def fitted(r):
    """Without what the format has no place for."""
    no = NOT[r["fmt"]].split()
    for s in r["secs"]:
        if "sec_meta" in no:
            s["meta"] = []
        if "sec_comment" in no:
            s["com"] = ""
        if "standalone" in no:
            s["ents"] = [e for e in s["ents"] if e["t"] == "ent"]
        for e in s["ents"]:
            if "ent_meta" in no and e["t"] == "ent":
                e["meta"] = []
            if "ent_comment" in no:
                e["com"] = ""
    if "res_meta" in no:
        r["meta"] = []
    if "res_comment" in no:
        r["com"] = ""


def rcase(rng, fmt):
    W = Words(rng, fmt)
    plain = rng.random() < 0.6
    r = c29.xcode(rng) if fmt == "xliff" and rng.random() < 0.15 else c29.rres(rng, fmt, plain)
    f = rng.choice([0, 0, 0.05, 0.15])  # how much of what may not fit
    if rng.random() < 0.7:
        fitted(r)
    C = lambda: rng.choice(["", "", "a ", "# ", "é\n", "\n"] + ([] if plain else ["## ", "#", "\t", "-", "--", "<!--", "/", "*/", ";"])) + W.w() + rng.choice(["", "", " z", "\n" + W.w(), "\n\n" + W.w()] + ([] if plain else ["\n", "-->", "\n# " + W.w(), " ", "\\", "-", "\x0b" + W.w(), "\r" + W.w()]))
    com = lambda old: "" if not old and rng.random() > f else C()
    r["com"] = com(r["com"])
    ids, names = [], {}
    for s in r["secs"]:
        s["com"] = com(s["com"])
        for m in s["meta"] + r["meta"]:
            if m["k"] in ("header/note", "x", "Language", "header/comment()", "note"):
                m["v"] = W.w("m")
        if rng.random() < f:
            s["id"] = rng.choice([[], [W.w("s")], [W.w("s"), W.w("s")], [""], ["!ENTITY"]])
        if rng.random() < f:
            s["meta"].append({"k": rng.choice(["x", "note", "@x", "comment()"] if fmt != "xliff" else ["@x", "comment()"]), "v": W.w("m")})
        for e in s["ents"]:
            e["com"] = com(e["com"])
            if e["t"] == "com":
                continue
            marked(rng, W, e["val"], plain)
            for p in e["props"]:
                marked(rng, W, p["v"], plain)
            for m in e["meta"]:
                if m["k"] in ("x", "note", "translator-comments", "reference", "note[2]", "info", "product", "comment()", "@from", "context-group/note"):
                    m["v"] = W.w("m")
            e["id"] = [names.setdefault(p, p + W.w("k")) if len(p) > 1 else p for p in e["id"]]
            if rng.random() < f and not (fmt == "xliff" and e["val"]["t"] == "sel"):
                e["val"] = odd(rng, W, fmt)
            if rng.random() < f:
                e["props"].append({"n": W.w("p"), "v": PM(W.plain())})
            if rng.random() < f and not (fmt == "xliff" and e["val"]["t"] == "sel"):
                e["meta"].append({"k": rng.choice(["x", "note", "@x", "comment()", ""] if fmt != "xliff" else ["x", "note", "@x", "comment()"]), "v": W.w("m")})
            if rng.random() < f:
                e["id"] = rng.choice([lambda: [], lambda: [W.w("k"), W.w("k")], lambda: [W.w("k"), W.w("k"), W.w("k")], lambda: [""], lambda: [W.w("k") + rng.choice([" ", ".", "=", ":", "\n", "<", "#", "]", "-"]) + W.w("k")], lambda: [W.w("k"), ""], lambda: ["", W.w("k")], lambda: list(rng.choice(ids or [["q1"]]))])()
            ids.append(e["id"])
        if rng.random() < f / 2:
            s["ents"].append(COM(C()))
    if rng.random() < f / 2:
        r["secs"].append(SEC(rng.choice([[], [W.w("s")], r["secs"][0]["id"]]) if r["secs"] else [], [ENT([W.w("k")], PM(W.plain()))]))
    if rng.random() < f / 2:
        r["meta"].append({"k": rng.choice(["x", "note", "@x", "comment()", ""]), "v": W.w("m")})
    if fmt == "xliff":
        for s in r["secs"]:
            if len(s["id"]) == 1:  # notes of files are in their headers
                s["meta"] = [m for m in s["meta"] if not m["k"].startswith("note")]
    own = r["fmt"] if rng.random() < 0.9 else rng.choice(FMTS + [""])
    opt = {}
    if fmt == "gettext" and rng.random() < 0.2:
        opt = {"gettext_plurals": rng.choice([["one", "other"], ["other"], ["one", "few", "other"], ["0", "1"]])}
    return {"op": "res", "res": r, "trim": rng.random() < 0.25, "opt": opt, "own": own}


def circular(m):
    """Whether a declaration depends on itself, other than by its argument of that name."""
    refs = {d["n"]: {v["s"] for v in [d["e"]["arg"]] + [o["v"] for o in d["e"]["opt"]] if v["t"] == "var"} - ({d["n"]} if not any(o["v"] == VAR(d["n"]) for o in d["e"]["opt"]) else set()) for d in m.get("decl", ())}
    seen = set(refs)
    while seen:
        free = {n for n in seen if not refs[n] & seen}
        if not free:
            return True
        seen -= free
    return False


def rmsg(rng, fmt):
    while circular((c := rmsg_(rng, fmt))["m"]):
        pass
    return c


def rmsg_(rng, fmt):
    W = Words(rng, fmt)
    plain = rng.random() < 0.5
    x = rng.random()
    if x < 0.5:
        v = marked(rng, W, c29.rval(rng, fmt, plain), plain)
        if v["t"] == "str":
            v = PM(v["s"])
    elif x < 0.8:
        v = odd(rng, W, fmt)
    elif fmt == "mf2" or x < 0.85:
        v = marked(rng, W, c24.G(rng, rng.random() < 0.3).msg(), plain)
    else:
        v = c25.rmsg(rng)
        marked(rng, W, v, plain)
    return {"op": "msg", "fmt": fmt, "m": v, "list": v["t"] == "pat" and not v["decl"] and rng.random() < 0.3}


def gen(rng, n, shard, tier):
    for i in range(n):
        if rng.random() < 0.35:
            yield rmsg(rng, MFMTS[i % len(MFMTS)])
        else:
            yield rcase(rng, FMTS[i % len(FMTS)])


# ------------------------------------------------- running
def fail(e):
    return {"k": "err", "ve": isinstance(e, ValueError), "s": type(e).__name__}


def text(it):
    try:
        return {"k": "ok", "ve": True, "s": ascii("".join(it()))}, None
    except Exception as e:
        return fail(e), e


def both(a, b):
    """Two iterators, by turns."""
    outs, its = [[], []], [None, None]
    done = [None, None]
    while None in done:
        for i, f in enumerate((a, b)):
            if done[i] is not None:
                continue
            try:
                if its[i] is None:
                    its[i] = f()
                outs[i].append(next(its[i]))
            except StopIteration:
                done[i] = {"k": "ok", "ve": True, "s": ascii("".join(outs[i]))}
            except Exception as e:
                done[i] = fail(e)
    return done


def nolp(x):
    return c29.nolp(x)


def wrap(p, fmt):
    d = deep(nolp(p))
    d["fmt"] = fmt
    return d


EMPTY = RES("dtd", [])


def execute(case):
    if case["op"] == "msg":
        f = Format[case["fmt"]]
        m = u_message(case["m"])
        if case["list"]:
            m = m.pattern
        old = copy.deepcopy(m)
        pm = lambda x: deep(nolp(proj.message(PatternMessage(x) if isinstance(x, list) else x, False)))
        before = pm(m)
        outs = []
        for _ in range(2):
            try:
                s = serialize_message(f, m)
                outs.append({"k": "ok", "ve": True, "s": ascii(s)})
            except Exception as e:
                outs.append(fail(e))
        back = {"k": "none", "m": deep(T(""))}
        if outs[0]["k"] == "ok":
            try:
                back = {"k": "ok", "m": deep(proj.message(parse_message(f, s)))}
            except Exception as e:
                back["k"] = "err"
        return {"op": "msg", "fmt": case["fmt"], "before": before, "after": pm(m), "same": old == m and repr(old) == repr(m), "outs": outs, "back": back}
    r = u_res(case["res"])
    f = Format[case["res"]["fmt"]]
    r.format = Format[case["own"]] if case["own"] else None
    old = copy.deepcopy(r)
    before = wrap(proj.res(r, False), f.name)
    go = lambda: serialize_resource(r, f, case["trim"], **case["opt"])
    outs = [text(go)[0], text(go)[0]] + both(go, go)
    back = {"k": "none", "res": wrap(EMPTY, "dtd")}
    if outs[0]["k"] == "ok":
        try:
            back = {"k": "ok", "res": wrap(proj.res(parse_resource(f, "".join(go()), **case["opt"])), f.name)}
        except Exception as e:
            back["k"] = "err"
    return {"op": "res", "fmt": f.name, "trim": case["trim"], "plain": case.get("plain", False), "before": before, "after": wrap(proj.res(r, False), f.name), "same": old == r and repr(old) == repr(r), "outs": outs, "back": back}


def kind(case, ev):
    return ev["op"] + ("" if ev["op"] == "idle" else "_" + ev["fmt"] + ("_refused" if ev["outs"][0]["k"] == "err" else ""))
