from core import Model
from proj import cps, S
from moz.l10n.model import Expression, VariableRef
from moz.l10n.util.printf import parse_printf_pattern

JUDGE, VERDICT = "J_Printf", "PrintfVerdict"
MODELS = [Model("MC_Printf", workers=4, emit=True)]
QUICK_N, THOROUGH_N = 24000, 400000
ASSUMPTIONS = ["word characters in argument names: ASCII and three sample non-ASCII letters"]


def from_model(c):
    return [{"s": "".join(map(chr, c["s"]))}]


ATOMS = ["%", "%", "%", "%%", "1$", "2$", "9$", "0$", "12$", "$", "(a)", "(foo.bar)", "(é_1)", "(a b)", "()", "(", ")", "-", "#", "+", " ", "0", ",", "5", "10", ".", ".2", "*",
         "h", "hh", "l", "ll", "L", "z", "j", "q", "t", "T", "tY", "TH", "s", "d", "i", "f", "@", "c", "x", "S", "D", "U", "u", "o", "p", "e", "G", "A", "n", "M", "É", "é", "\n", "あ", "ت", "-d"]


def gen(rng, n, shard, tier):
    for _ in range(n):
        if rng.random() < 0.5:  # well-formed specifiers in text
            s = ""
            for _ in range(rng.choice([1, 1, 2, 3])):
                s += rng.choice(["", "a", " ", "x y", "100"])
                s += "%" + rng.choice(["", "", "1$", "3$", "(name)", "(a.b)", "(x1)"]) + rng.choice(["", "", "-", "#", "+", " ", "0", ","]) + rng.choice(["", "", "5", "10.2", ".3", "."])
                s += rng.choice(["", "", "h", "hh", "l", "ll", "L", "z", "j", "q", "t", "T"]) + rng.choice("csCSdDoOpuUxXaAeEfFgGiInkbBtThlLzjq%@YMm")
            s += rng.choice(["", "", "%", "z", "0"])
            yield {"s": s}
        else:
            yield {"s": "".join(rng.choice(ATOMS) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8, 12])))}


def part(p):
    if isinstance(p, str):
        return {"t": "txt", "kind": "", "arg": cps(p), "fn": "", "src": cps(p)}
    if isinstance(p, Expression) and set(p.attributes) == {"source"} and not p.options:
        k = "var" if isinstance(p.arg, VariableRef) else "lit"
        return {"t": "exp", "kind": k, "arg": cps(p.arg.name if k == "var" else p.arg), "fn": "" if p.function is None else S(p.function), "src": cps(p.attributes["source"])}
    return {"t": "odd", "kind": repr(p), "arg": [], "fn": "", "src": []}


def execute(case):
    s = case["s"]
    try:
        parts = []
        for p in parse_printf_pattern(s):
            if isinstance(p, str) and parts and parts[-1]["t"] == "txt":
                q = part(p)
                parts[-1]["arg"] = parts[-1]["src"] = parts[-1]["src"] + q["src"]
            elif p != "":
                parts.append(part(p))
    except Exception:
        return {"op": "printf", "raised": True}
    return {"op": "printf", "raised": False, "s": cps(s), "parts": parts}


def kind(case, ev):
    return f"placeholders={sum(p['t'] == 'exp' for p in ev.get('parts', []))}"
