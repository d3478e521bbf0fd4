from core import Model
from proj import cps, res
from moz.l10n.formats import Format
from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource
from props.c29 import nolp

JUDGE, VERDICT = "J_LinePos", "LinePosVerdict"
MODELS = [Model("MC_LinePos", workers=3, emit=True, thorough_cfg="MC_LinePos_T")]
QUICK_N, THOROUGH_N = 16000, 160000
ASSUMPTIONS = ["no comment starts with an empty line", "the lines of a file end alike", "no empty Fluent comment lines end in CR LF or the end of the file (the Fluent parser library reads them as errors)"]
HARD = ["", "", "", "\u2028", "\x85", "\x1c", "é𝕏", "\u2029"]


def from_model(c):
    v = len(c["blocks"]) + sum(b["n"] + 2 * b["v"] for b in c["blocks"])
    return [{"fmt": c["fmt"], "blocks": c["blocks"], "seed": v, "eol": v % 3, "last": v % 2 == 0, "hard": v % 5 == 0}]


def gen(rng, n, shard, tier):
    for _ in range(n):
        f = rng.choice(["fluent", "properties"])
        bs = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 14])):
            k = rng.choice(["blank", "com", "com", "ent", "ent", "ent", "ent"] + (["group", "close", "res"] if f == "fluent" else []))
            if bs and (k in ("com", "res") and k == bs[-1]["k"] or k in ("group", "close") and bs[-1]["k"] in ("group", "close")):
                bs.append({"k": "blank", "n": rng.choice([1, 1, 2]), "v": 0})
            n = 1 if k == "close" else rng.choice([1, 1, 2, 3, 5, 8])
            bs.append({"k": k, "n": n, "v": rng.randrange(n) if k == "ent" and rng.random() < 0.5 else 0})
        yield {"fmt": f, "blocks": bs, "seed": rng.randrange(10**6), "eol": rng.randrange(3), "last": rng.random() < 0.5, "hard": rng.random() < 0.3}


def comment(p, r, n, w, bare):
    """n lines of a comment, of which only later ones may be empty"""
    return [p + " " + w(), *(r.choice([p if bare else p + " -", p + " " + w(), p + "   " + w()]) for _ in range(n - 2)), *([p + " " + w()] if n > 1 else [])]


def fluent_entry(r, i, n, v, w):
    """lines of a message or term; the value starts on the line v"""
    id = r.choice(["m", "m", "-t"]) + str(i)
    if v:  # on its own line, after blank ones
        ls = [id + r.choice([" =", "=", " = "])] + [r.choice(["", "", "  ", "    "]) for _ in range(v - 1)]
        k = n - v
    else:
        ls, k = [], n
    head = "    " if v else id + r.choice([" = ", "=", " =   "])
    ind = r.choice([" ", "    "])

    def pattern(head, k):
        """k lines of a pattern or select"""
        if k >= 4 and r.random() < 0.5:
            vs = [f"{ind}{r.choice(['[one]', '[a]'])} {w()}" if j < k - 3 else f"{ind} *[other] {w()}" for j in range(k - 2)]
            vs = [x.replace("[one]", f"[k{j}]").replace("[a]", f"[k{j}]") for j, x in enumerate(vs)]
            return [head + r.choice(["{ $n ->", "{$n   ->", "{ NUMBER($n) ->"])] + vs + [ind + "}" + r.choice(["", w()])]
        if k == 3 and r.random() < 0.3:
            return [head + "{ $n ->", ind + "*[other] " + w(), ind + "}"]
        out = [head + r.choice([w(), "{ $x }" + w(), w() + " { -t }", '{ "" }' + w()])]
        for j in range(k - 1):
            out.append("" if j < k - 2 and r.random() < 0.3 else ind + r.choice([w(), "{ $x }", w() + "  "]))
        return out
    if k >= 2 and r.random() < 0.4:  # with attributes
        a = r.randrange(1, k) if v or id[0] == "-" or r.random() < 0.7 else 0
        if a:
            ls += pattern(head, a)
        else:
            ls.append(id + " =")
            a = 1
        j = 0
        while len(ls) < n:
            m = r.randrange(1, n - len(ls) + 1)
            j += 1
            if m >= 2 and r.random() < 0.4:
                ls += [f"{ind}.a{j} ="] + pattern(ind + "    ", m - 1)
            else:
                ls += pattern(f"{ind}.a{j} = ", m)
        return ls
    return ls + pattern(head, k)


def properties_entry(r, i, n, v, w):
    """lines of an entry, where the value starts on the line v, be it empty"""
    ws = lambda: r.choice(["", " ", "\t", "   ", "\f"])
    key = f"k{i}"
    b = "\\"
    ls = []
    if v:  # the key, or the space after it, goes on
        c = r.randrange(3)
        if c == 0:
            ls = [key + b] + [ws() + f"x{j}" + b for j in range(v - 1)]
            head = ws() + "y" + r.choice(["=", " = ", ":", " "])
        else:
            ls = [ws() + key + " " + b] + [ws() + b for j in range(v - 1)]
            head = ws() + r.choice(["= ", ":", "="])
    else:
        head = ws() + key + r.choice(["=", " = ", ":", " ", "\t=", "   :  "])
    k = n - v
    if k == 1:
        return ls + [head + r.choice([w(), w(), w() if v else "", w() + b + b, w() + b + "u0041", w() + "=" + w(), w() + " # x"])]
    first = r.choice([w(), "", w() + b + b])
    if not first and not head.strip().endswith(("=", ":")):  # the space after the key would go on
        first = "z"
    out = [head + first + b] + [ws() + r.choice([w(), "", w() + b + b]) + b for _ in range(k - 2)] + [ws() + r.choice([w(), "# " + w(), "= x"])]
    return ls + out


def render(case):
    import random
    r = random.Random(case["seed"])
    f = case["fmt"]
    w = lambda: r.choice(["a", "foo", "Ж b", "x y"]) + (r.choice(HARD) if case["hard"] else "") + r.choice(["", "c"])
    lines = []
    for i, b in enumerate(case["blocks"]):
        n = b["n"]
        if b["k"] == "blank":
            ls = [r.choice(["", "", "", "  "] + (["\t", " \f "] if f == "properties" else [])) for _ in range(n)]
        elif b["k"] in ("com", "group", "res"):
            p = {"com": "#", "group": "##", "res": "###"}[b["k"]]
            if f == "properties":
                ls = comment("#", r, n, w, True)
                ls = [r.choice(["", " ", "\t"]) + r.choice(["#", "!"]) + x[1:] if r.random() < 0.3 else x for x in ls]
            else:
                ls = comment(p, r, n, w, case["eol"] != 1)
        elif b["k"] == "close":
            ls = ["##"]
        else:
            ls = (fluent_entry if f == "fluent" else properties_entry)(r, i, n, b["v"], w)
        assert len(ls) == n, (b, ls)
        lines += ls
    return lines


def lp(x):
    return [x.start, x.key, x.value, x.end] if x else []


def secs(r):
    return [{"lp": lp(s.linepos), "ents": [lp(e.linepos) for e in s.entries]} for s in r.sections]


def execute(case):
    lines = render(case)
    f = case["fmt"]
    if "close" in [b["k"] for b in case["blocks"]] and case["eol"] == 1:
        case = {**case, "eol": 0}
    eol = ["\n", "\r\n", "\r"][case["eol"]]
    if f == "fluent" and eol == "\r":
        eol = "\n"
    text = eol.join(lines) + (eol if case["last"] or case["blocks"][-1]["k"] == "close" else "")
    parse = {"fluent": fluent_parse, "properties": properties_parse}[f]
    k = case["seed"] % 7
    if k == 6 and f == "fluent":
        a, b = fluent_parse(text), fluent_parse(text, with_linepos=False)
        return {"op": "off", "none": not any(x["lp"] or any(x["ents"]) for x in secs(b)), "same": a == b and nolp(res(a)) == nolp(res(b))}
    if k == 5 and f == "fluent" and case["blocks"][-1]["k"] == "ent" and all(b["k"] == "com" for b in case["blocks"][:-1]):
        try:
            e = fluent_parse_entry(text)
            none = fluent_parse_entry(text, with_linepos=False)
            return {"op": "entry", "blocks": case["blocks"], "ok": none.linepos is None and none == e, "lp": lp(e.linepos)}
        except Exception as x:
            return {"op": "entry", "blocks": case["blocks"], "ok": False, "lp": [], "exc": repr(x)}
    runs = []
    for how, fn in (("parse", lambda: parse(text)), ("bytes", lambda: parse(text.encode())), ("by_format", lambda: parse_resource(Format[f], text)), ("by_name", lambda: parse_resource("x.ftl" if f == "fluent" else "x.properties", text.encode()))):
        if how in ("bytes",) and f == "properties":
            fn = lambda: parse(text.encode(), "utf-8") if case["seed"] % 2 else parse(text.encode())
        try:
            runs.append({"how": how, "ok": True, "secs": secs(fn())})
        except Exception as x:
            runs.append({"how": how, "ok": False, "secs": [], "exc": repr(x)})
    return {"op": "file", "fmt": f, "blocks": case["blocks"], "lines": len(lines), "runs": runs, "text": cps(text)}


def kind(case, ev):
    return ev["op"] + ("_" + case["fmt"] if ev["op"] == "file" else "")
