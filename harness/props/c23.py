from core import Model
import proj
from proj import *
from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import mf2_parse_message
from moz.l10n.message import parse_message
from props.c20 import deep

JUDGE, VERDICT = "J_Mf2", "Mf2Verdict"
MODELS = [Model("MC_Mf2", workers=3, emit=True, thorough_cfg="MC_Mf2_T")]
QUICK_N, THOROUGH_N = 30000, 500000
ASSUMPTIONS = ["the grammar is that of LDML 46, with any number of bidirectional marks around a name", "names are compared as sequences of code points", "a repeated attribute is an error"]


def from_model(c):
    return [{"op": "parse", "src": "".join(map(chr, c["src"]))}] if c["op"] == "parse" else []


W = [" ", " ", " ", "\n", "\t", "\r", "\u3000", "  ", "\u200e ", " \u2067", "\u061c \u200f"]
NM = ["a", "b", "x", "y", "x", "y", "foo", "a.b", "a-1", "_", "\xe9", "\xb5", "x\xb7", "\u0300"[:0] + "n\u0301", "\u3001", "\U0001f600", "\uffef", "\u200dz"]
LITS = ["0", "1", "-1", "1.5", "0.0", "-0", "1e5", "1E-3", "12.34e+56", "a", "one", "x.y", "|a|", "||", "|a b|", "|*|", "|\\||", "|\\\\|", "|\\{\\}|", "|{}|", "|\n|", "|\u200e|", "|.|", "|1|", "|one|"]
BADL = ["01", "1.", ".5", "1x5", "1 5", "1}5", "+1", "1e", "1.e3", "-", "--1", "\u0661", "1\u0661", "1.\u0661", "|", "|a", "|\\a|", "|\\", "|\x00|", "*", "$x", "a:b", "\ud800", "\xd7", "\x80", "1e1e1", "1.2.3", "0x10", "1:2"]
TXT = ["a", "b c", " ", ".", "|", "@", "#", "\\\\", "\\{", "\\}", "\\|", "\n", "\u200e", "x \u3000", "\xe9", "\U0001f600", "\ud800", "}}"[:0] + "$x", "0", "\x7f", "\x01", "'"]
BADT = ["{", "}", "}}", "{{", "\\", "\\a", "\\\n", "\x00", "\\\x00", "{}", "{ }", "{{}}"]


class G:
    def __init__(self, rng):
        self.r = rng

    def o(self):
        return self.r.choice(["", "", "", "", " ", "\n", "\u200e", "\u2068\u2069", "  ", "\u3000"])

    def s(self):
        return self.r.choice(W)

    def name(self):
        n = self.r.choice(NM)
        if self.r.random() < 0.06:
            n = self.r.choice(["\u200e", "\u2067", "", "\u061c\u200f"]) + n + self.r.choice(["", "\u200e", "\u2069"])
        return n

    def ident(self):
        return self.name() if self.r.random() < 0.85 else self.name() + ":" + self.name()

    def lit(self):
        return self.r.choice(BADL) if self.r.random() < 0.04 else self.r.choice(LITS) if self.r.random() < 0.7 else self.name()

    def var(self):
        return "$" + self.name()

    def opts(self):
        return "".join(self.s() + self.ident() + self.o() + "=" + self.o() + self.r.choice([self.var, self.lit])() for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 3])))

    def attrs(self):
        return "".join(self.s() + "@" + self.ident() + (self.o() + "=" + self.o() + self.lit() if self.r.random() < 0.5 else "") for _ in range(self.r.choice([0, 0, 0, 1, 1, 2])))

    def fn(self):
        return ":" + self.ident() + self.opts()

    def exp(self, arg=None):
        if arg is None:
            arg = self.r.choice([self.var, self.var, self.lit, lambda: ""])()
        if arg:
            b = arg + (self.s() + self.fn() if self.r.random() < 0.5 else "")
        else:
            b = self.fn()
        return "{" + self.o() + b + self.attrs() + self.o() + "}"

    def mku(self):
        k = self.r.choice(["#", "/", "#/"])
        return "{" + self.o() + k[0] + self.ident() + self.opts() + self.attrs() + self.o() + k[1:] + "}"

    def pat(self):
        p = ""
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 4])):
            x = self.r.random()
            p += self.r.choice(BADT) if x < 0.015 else self.r.choice(TXT) if x < 0.5 else self.exp() if x < 0.85 else self.mku()
        return p

    def quoted(self):
        return "{{" + self.pat() + "}}"

    def complex(self):
        r = self.r
        res, names = self.o(), []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            n = r.choice([x for x in ["x", "y", "z", "w", "foo", "k"] if x not in names] if r.random() < 0.95 else NM)
            if r.random() < 0.6:
                res += ".input" + self.o() + ("{$" + n + self.s() + self.fn() + self.o() + "}" if r.random() < 0.7 else self.exp("$" + n))
            else:
                res += ".local" + self.s() + "$" + n + self.o() + "=" + self.o() + self.exp("$" + r.choice(names) if names and r.random() < 0.5 else None)
            names.append(n)
            res += self.o()
        if r.random() < 0.4:
            return res + self.quoted() + self.o()
        sel = [r.choice(names) if names and r.random() < 0.93 else self.name() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]) or r.choice([0, 1]))]
        res += ".match" + "".join(self.s() + "$" + n for n in sel) + self.s()
        vs = [[r.choice(["*", "*", self.lit(), self.lit(), self.name()[:3] or "a", r.choice(["1", "one", "|1|", "2", "-3"])]) for _ in sel] for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if r.random() < 0.9:
            vs.append(["*" for _ in sel])
        r.shuffle(vs)
        if r.random() < 0.03 and vs:
            r.choice(vs).append("*")
        for v in vs:
            for i, k in enumerate(v):
                res += (self.s() if i else "") + k
            res += self.o() + self.quoted() + self.o()
        return res

    def message(self):
        x = self.r.random()
        return self.pat() if x < 0.3 else self.o() + self.quoted() + self.o() if x < 0.4 else self.complex()


TOK = ["{", "}", "{{", "}}", " ", "\n", "\\", "|", "$x", "$", ":f", ":", "@a", "@", "=", "#b", "/", "*", "1", ".", ".input", ".local", ".match", "a", "\u200e", "\x00", "-", "1.5", "e", "\u3000", "\\|", ""]


def gen(rng, n, shard, tier):
    g = G(rng)
    for _ in range(n):
        s = g.message()
        k = rng.random()
        if k < 0.35 and s:  # damage
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                i = rng.randrange(len(s) + 1)
                x = rng.random()
                if x < 0.4:
                    s = s[:i] + s[i + rng.choice([1, 1, 2]):]
                elif x < 0.8:
                    s = s[:i] + rng.choice(TOK) + s[i:]
                else:
                    s = s[:i] + rng.choice(TOK) + s[i + 1:]
        elif k < 0.4:
            s = "".join(rng.choice(TOK) for _ in range(rng.randrange(9)))
        yield {"op": "parse", "src": s}


def fixed_cases():
    for s in ["abc\\", "{||:f}", "{|a|\u200e:f}", "Costs {1}5", ".input {$x :f} .input {$y :f} .match $x $y 1 5 {{}} * * {{}}", "{0x5}", "{1\u0661}", ".input{$x :f}.match $x *\u200e{{}}", "", " ", ".", "\u200e.local", " {{}} "]:
        yield {"op": "parse", "src": s}


def execute(case):
    s = case["src"]
    def one(f):
        try:
            return {"k": "ok", "msg": deep(proj.message(f()))}
        except Exception as e:
            return {"k": "exc", "type": type(e).__name__, "msg": []}
    fs = [lambda: mf2_parse_message(s), lambda: parse_message(Format.mf2, s)]
    try:
        b = s.encode()
        fs.append(lambda: mf2_parse_message(b))
    except UnicodeEncodeError:
        pass
    outs = [one(f) for f in fs]
    return {"op": "parse", "src": cps(s), "outs": [o for i, o in enumerate(outs) if o not in outs[:i]]}


def kind(case, ev):
    o = ev["outs"][0]
    return o["msg"]["t"] if o["k"] == "ok" else o["type"]
