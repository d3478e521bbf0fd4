"""Projection of moz.l10n values to the records of spec/Model.tla, and back."""
from __future__ import annotations
from typing import Any

from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef


def S(x: Any) -> str:
    return x if type(x) is str else f"\u0000{type(x).__name__}:{x!r}"


def cps(x: Any) -> list[int]:
    """A string as its code points; anything else is out of range on purpose."""
    return [ord(c) for c in x] if isinstance(x, str) else [-1]


def val(x: Any):
    if isinstance(x, VariableRef):
        return {"t": "var", "s": S(x.name)}
    if x is None:
        return {"t": "none", "s": ""}
    if x is True:
        return {"t": "true", "s": ""}
    if type(x) is str:
        return {"t": "lit", "s": x}
    return {"t": "odd", "s": repr(x)}


def omap(d: Any, sort=True):
    try:
        items = list(d.items())
    except Exception:
        return [{"n": "\u0000odd", "v": {"t": "odd", "s": repr(d)}}]
    r = [{"n": S(k), "v": val(v)} for k, v in items]
    return sorted(r, key=lambda x: x["n"]) if sort else r


def part(x: Any, sort=True):
    if type(x) is str:
        return {"t": "txt", "s": x}
    if isinstance(x, Expression):
        return {"t": "exp", "arg": val(x.arg), "fn": "" if x.function is None else S(x.function) or "\u0000", "opt": omap(x.options, sort), "attr": omap(x.attributes, sort)}
    if isinstance(x, Markup):
        return {"t": "mku", "kind": S(x.kind), "name": S(x.name), "opt": omap(x.options, sort), "attr": omap(x.attributes, sort)}
    return {"t": "odd", "s": repr(x)}


def pattern(p: Any, sort=True):
    try:
        return [part(x, sort) for x in p]
    except Exception:
        return [{"t": "odd", "s": repr(p)}]


def key(k: Any):
    if isinstance(k, CatchallKey):
        return {"t": "any", "s": "" if k.value is None else "=" + S(k.value)}
    return {"t": "key", "s": S(k)}


def message(m: Any, sort=True):
    if isinstance(m, PatternMessage):
        return {"t": "pat", "decl": [{"n": S(n), "e": part(e, sort)} for n, e in m.declarations.items()], "p": pattern(m.pattern, sort)}
    if isinstance(m, SelectMessage):
        return {"t": "sel", "decl": [{"n": S(n), "e": part(e, sort)} for n, e in m.declarations.items()],
                "sel": [S(v.name) if isinstance(v, VariableRef) else S(v) + "\u0000" for v in m.selectors],
                "var": [{"k": [key(k) for k in ks] if isinstance(ks, tuple) else [{"t": "odd", "s": repr(ks)}], "p": pattern(p, sort)} for ks, p in m.variants.items()]}
    if type(m) is str:
        return {"t": "str", "s": m}
    return {"t": "odd", "s": repr(m)}


def lp(x: Any):
    x = getattr(x, "linepos", None)
    return [] if x is None else [x.start, x.key, x.value, x.end]


def meta(x: Any):
    return [{"k": S(m.key), "v": S(m.value)} for m in x.meta]


def ident(x: Any):
    return [S(p) for p in x] if isinstance(x, tuple) else ["\u0000" + repr(x)]


def entry(e: Any, sort=True):
    if isinstance(e, Comment):
        return {"t": "com", "com": S(e.comment), "lp": lp(e)}
    if isinstance(e, Entry):
        return {"t": "ent", "id": ident(e.id), "val": message(e.value, sort), "props": [{"n": S(k), "v": message(v, sort)} for k, v in e.properties.items()],
                "com": S(e.comment), "meta": meta(e), "lp": lp(e)}
    return {"t": "odd", "s": repr(e)}


def section(s: Any, sort=True):
    return {"id": ident(s.id), "ents": [entry(e, sort) for e in s.entries], "com": S(s.comment), "meta": meta(s), "lp": lp(s)}


def res(r: Any, sort=True):
    if not isinstance(r, Resource):
        return {"fmt": "\u0000" + repr(r), "secs": [], "com": "", "meta": []}
    return {"fmt": r.format.name if isinstance(r.format, Format) else S(r.format) if r.format is not None else "", "secs": [section(s, sort) for s in r.sections], "com": S(r.comment), "meta": meta(r)}


# ---------------------------------------------------------------- back


def u_val(v):
    return {"var": lambda: VariableRef(v["s"]), "lit": lambda: v["s"], "none": lambda: None, "true": lambda: True}[v["t"]]()


def u_part(p):
    if p["t"] == "txt":
        return p["s"]
    o = {x["n"]: u_val(x["v"]) for x in p.get("opt", ())}
    a = {x["n"]: u_val(x["v"]) for x in p.get("attr", ())}
    if p["t"] == "exp":
        fn = p.get("fn", "")
        return Expression(u_val(p["arg"]), None if fn == "" else "" if fn == "\u0000" else fn, o, a)
    return Markup(p["kind"], p["name"], o, a)


def u_key(k):
    return k["s"] if k["t"] == "key" else CatchallKey(k["s"][1:] if k["s"] else None)


def u_message(m):
    if m["t"] == "str":
        return m["s"]
    d = {x["n"]: u_part(x["e"]) for x in m.get("decl", ())}
    if m["t"] == "pat":
        return PatternMessage([u_part(p) for p in m["p"]], d)
    return SelectMessage(d, tuple(VariableRef(s) for s in m["sel"]), {tuple(u_key(k) for k in v["k"]): [u_part(p) for p in v["p"]] for v in m["var"]})


def u_meta(x):
    return [Metadata(m["k"], m["v"]) for m in x]


def u_entry(e):
    if e["t"] == "com":
        return Comment(e["com"])
    return Entry(tuple(e["id"]), u_message(e["val"]), {p["n"]: u_message(p["v"]) for p in e.get("props", ())}, e.get("com", ""), u_meta(e.get("meta", ())))


def u_section(s):
    return Section(tuple(s["id"]), [u_entry(e) for e in s["ents"]], s.get("com", ""), u_meta(s.get("meta", ())))


def u_res(r):
    return Resource(Format[r["fmt"]] if r["fmt"] else None, [u_section(s) for s in r["secs"]], r.get("com", ""), u_meta(r.get("meta", ())))


# ---------------------------------------------------------------- building blocks for generators


def T(s):
    return {"t": "str", "s": s}


def PM(*parts, decl=()):
    return {"t": "pat", "decl": list(decl), "p": [{"t": "txt", "s": p} if isinstance(p, str) else p for p in parts]}


def LIT(s):
    return {"t": "lit", "s": s}


def VAR(s):
    return {"t": "var", "s": s}


NONE = {"t": "none", "s": ""}
TRUE = {"t": "true", "s": ""}


def EXP(arg=NONE, fn="", opt=None, attr=None):
    return {"t": "exp", "arg": arg, "fn": fn, "opt": [{"n": k, "v": v} for k, v in (opt or {}).items()], "attr": [{"n": k, "v": v} for k, v in (attr or {}).items()]}


def MKU(kind, name, opt=None, attr=None):
    return {"t": "mku", "kind": kind, "name": name, "opt": [{"n": k, "v": v} for k, v in (opt or {}).items()], "attr": [{"n": k, "v": v} for k, v in (attr or {}).items()]}


def ENT(id, val, com="", meta=(), props=()):
    return {"t": "ent", "id": list(id), "val": val, "props": [{"n": n, "v": v} for n, v in props], "com": com, "meta": [{"k": k, "v": v} for k, v in meta]}


def COM(c):
    return {"t": "com", "com": c}


def SEC(id, ents, com="", meta=()):
    return {"id": list(id), "ents": list(ents), "com": com, "meta": [{"k": k, "v": v} for k, v in meta]}


def RES(fmt, secs, com="", meta=()):
    return {"fmt": fmt, "secs": list(secs), "com": com, "meta": [{"k": k, "v": v} for k, v in meta]}


def exc(e):
    """Outcome record of a raised exception: class name plus whether it is a ValueError / the given families."""
    return {"k": "exc", "type": type(e).__name__, "ve": isinstance(e, ValueError)}
