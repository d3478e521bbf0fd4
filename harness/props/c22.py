from copy import deepcopy
from lxml import etree
from core import Model
from proj import COM, ENT, EXP, LIT, MKU, PM, T, VAR, TRUE, NONE, cps, message as pmessage, res as pres, u_message, u_res
from props.c20 import deep
from props.c21 import dtree, xe
from props.c29 import nolp
from moz.l10n.formats.xliff.parse import xliff_parse, xliff_parse_message
from moz.l10n.formats.xliff.serialize import xliff_serialize, xliff_serialize_message

JUDGE, VERDICT = "J_Xliff", "XliffVerdict"
MODELS = [Model("MC_Xliff", workers=3, emit=True, thorough_cfg="MC_Xliff_T")]
QUICK_N, THOROUGH_N = 7000, 90000
ASSUMPTIONS = ["lxml's reading of the XML is right: documents are judged by their trees", "no processing instructions, and prefixes are declared on the root",
               "at most one substitution in an Xcode message, and no other placeholders in its base: more are documented as unsupported", "elements that are empty by definition (x, bx, ex) have no content",
               "the order of different elements in a unit is not kept; comments with two dashes in a row are written with zero width spaces"]
NS = "urn:oasis:names:tc:xliff:document:1.2"
XML = "{http://www.w3.org/XML/1998/namespace}"


# ---------------------------------------------------------------- trees
class OutOfDomain(Exception):
    pass


def aname(el, k):
    if not k.startswith("{"):
        return k
    q = etree.QName(k)
    if k.startswith(XML):
        return "xml:" + q.localname
    ps = [p for p, u in el.nsmap.items() if u == q.namespace and p]
    if len(ps) != 1:
        raise OutOfDomain
    return f"{ps[0]}:{q.localname}"


def kids(el, root=None):
    out = []

    def txt(s):
        if s:
            out.append({"t": "txt", "s": s})
    txt(el.text)
    for c in el:
        if isinstance(c, etree._Comment):
            out.append({"t": "com", "s": c.text or ""})
        elif isinstance(c, (etree._ProcessingInstruction, etree._Entity)):
            raise OutOfDomain
        else:
            q = etree.QName(c.tag)
            if c.nsmap != el.nsmap or (c.prefix and c.prefix.startswith("ns")):
                raise OutOfDomain
            out.append({"t": "el", "n": f"{c.prefix}:{q.localname}" if c.prefix else q.localname, "at": [{"k": aname(c, k), "v": v} for k, v in c.attrib.items()], "kids": kids(c)})
            if out[-1]["n"] in ("x", "bx", "ex") and out[-1]["kids"]:
                raise OutOfDomain
        txt(c.tail)
    return out


def tree(text):
    root = etree.fromstring(text.encode() if isinstance(text, str) else text)
    coms = [c.text or "" for c in root.itersiblings(etree.Comment, preceding=True)][::-1]
    meta = [{"k": "@" + aname(root, k), "v": v} for k, v in root.attrib.items()] + [{"k": f"@xmlns:{k}" if k else "@xmlns", "v": v} for k, v in root.nsmap.items()]
    v = root.attrib.get("version")
    return {"tag": root.tag, "ns": root.nsmap.get(None) or "", "version": [] if v is None else [v], "coms": coms, "meta": meta, "kids": kids(root)}


# ---------------------------------------------------------------- documents
WORD = ["a", "b c", "é", "😀", " ", " ", "  ", "\n", "\n    ", "\t", "\xa0", "\u2028", "\u200b", "<", "&", ">", '"', "'", "{x}", "-", "--", "]]>", "\r"]
CONV = ["%", "%%", "%@", "%d", "%1$@", "%2$d", "%#@n@", "%1$#@n@", "%#@é@", "%#@", "%#", "%ld", "%lld", "%qd", "%zu", "%hhX", "%hx", "%Lf", "%.2f", "%F", "%s", "%-5d", "% %", "%0$d", "%l", "%ls", "%5", "%1$", "%+.3e", "%,d", "%2$#@m_1@", "%p", "%C", "%S", "%c", "%D", "%O", "%U", "%X", "%x", "%o", "%u", "%E", "%G", "%g", "%A", "%a", "%i", "%b", "%n", "%1$%", "%arg"]
COMS = [" c ", "c", " c d ", "\n    c\n    d\n  ", "", "  ", " a\n   - b\n   - c ", " a\n   - b", "\n\n c \n\n d\n", " é\u2028x ", "\t-x- ", " - ", "😀", " a\n   -   b "]


def rtext(rng, xc=False, n=None):
    return "".join(rng.choice(CONV) if xc and rng.random() < 0.4 else rng.choice(WORD) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if n is None else n))


def rcom(rng):
    return f"<!--{rng.choice(COMS)}-->"


ATT = ['', '', '', ' a="1"', ' xml:space="preserve"', ' x:k="é &amp;&lt;&#10;&quot;"', ' state="translated" xml:lang="fr"', ' a=""']


def inline(rng, xc, depth=0):
    out = ""
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6:
            out += xe(rtext(rng, xc or rng.random() < 0.1)).replace("\r", "&#13;")
        elif r < 0.65:
            out += rng.choice(["<!-- c -->", "<!---->"])
        elif r < 0.68:
            out += "<![CDATA[a<b]]>"
        elif depth < 3 and r < 0.82:
            out += f'<{rng.choice(["x", "bx", "ex"])} id="{rng.choice("12")}"{rng.choice(ATT)}/>'
        elif depth < 3:
            n = rng.choice(["g", "g", "ph", "mrk", "it", "bpt", "sub", "x:y"])
            out += f"<{n}{rng.choice(ATT)}>{inline(rng, xc, depth + 1) if rng.random() < 0.8 else ''}</{n}>"
    return out


def ws(rng):
    return rng.choice(["\n  ", "\n  ", "", "\n\n", " "])


def note(rng):
    return f'<note{rng.choice(["", "", " from=\"dev\"", " from=\"\" priority=\"1\"", " xml:lang=\"en\""])}>{rng.choice(["n", "é\n  m", " n ", "", " ", "a &lt;b&gt;", "\xa0", "-"])}</note>'


def extra(rng, depth=0):
    """an element that is metadata"""
    r = rng.random()
    if depth > 2 or r < 0.3:
        return rng.choice(["<e/>", "<e>t</e>", '<e a="1"/>', '<x:e x:a="é">u</x:e>', "<e> </e>", "<e>\n</e>", "<f>a<!-- c -->b</f>", "<f><!--c--></f>"])
    n = rng.choice(["context-group", "alt-trans", "count-group", "e", "x:p", "source", "target", "seg-source", "note"])
    body = "".join(rng.choice([ws(rng), "t", " u "]) * (rng.random() < 0.3) + extra(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3])))
    return f"<{n}{rng.choice(ATT)}>{body}{rng.choice(['', ws(rng), 'v'])}</{n}>"


def uid(rng):
    return rng.choice(["a", "b", "c d", "é", "x.y", "a/b", "", "k1", "k2", "k3", "a&amp;b", "&#10;"])


def unit(rng, xc):
    parts = [f"<source{rng.choice(ATT)}>{inline(rng, xc)}</source>"] if rng.random() < 0.96 else []
    if rng.random() < 0.03:
        parts.append("<source>again</source>")
    if rng.random() < 0.75:
        parts.append(f"<target{rng.choice(ATT)}>{inline(rng, xc)}</target>" if rng.random() < 0.9 else "<target/>")
    if rng.random() < 0.03:
        parts.append(rng.choice(["<target>again</target>", "<target/>"]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        parts.append(note(rng))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        parts.append(extra(rng) if rng.random() < 0.8 else rcom(rng))
    if rng.random() < 0.2:
        rng.shuffle(parts)
    if rng.random() < 0.01:
        parts.append("stray")
    i = f' id="{uid(rng)}"' if rng.random() < 0.99 else ""
    return f"<trans-unit{i}{rng.choice(ATT)}>" + "".join(ws(rng) + p for p in parts) + ws(rng) + "</trans-unit>"


def content(rng, xc, depth=0, group=False):
    out = ws(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.6:
            out += unit(rng, xc)
        elif r < 0.7:
            out += rcom(rng)
        elif r < 0.78:
            out += f'<bin-unit id="{uid(rng)}"{rng.choice(ATT)}>{rng.choice(["", "<bin-source><external-file href=\"x\"/></bin-source>", "<bin-source/><bin-target a=\"b\"/><note>n</note>", "<note>n</note><!--c--><bin-source/>"])}</bin-unit>'
        elif r < 0.95 and depth < 3:
            i = rng.choice([f' id="{uid(rng)}"', f' id="g{rng.randrange(99)}"', f' id="g{rng.randrange(99)}"', f' id="g{rng.randrange(99)}"', ""])
            out += f"<group{i}{rng.choice(ATT)}>" + "".join(ws(rng) + extra(rng) for _ in range(rng.choice([0, 0, 1, 2]))) + content(rng, xc, depth + 1, True) + "</group>"
        elif group:
            out += rng.choice([note(rng), extra(rng)])
        elif r > 0.99:
            out += rng.choice(["stray", "<e/>"])
        out += ws(rng)
    return out


XCODE = '<header><tool tool-id="com.apple.dt.xcode" tool-name="Xcode"/></header>'
CATS = ["zero", "one", "two", "few", "many", "other"]


def xunit(rng, i, src, tgt, notes=True):
    t = "" if tgt is None else f'<target{rng.choice(["", "", " state=\"translated\""])}>{xe(tgt)}</target>'.replace("\r", "&#13;")
    n = "".join(rng.choice(['<note/>', "<note>n</note>", "<note>n</note>", '<note from="d">m</note>', "<note> </note>"]) for _ in range(rng.choice([0, 0, 1, 1, 2]))) if notes else ""
    if rng.random() < 0.01:
        n += rng.choice(["<x/>", "<!-- c -->", "<source/>", "<target/>"])
    return f'<trans-unit id="{xe(i)}"{rng.choice(["", "", " xml:space=\"preserve\""])}>{ws(rng)}<source>{xe(src)}</source>{t}{n}</trans-unit>'.replace("\r", "&#13;")


def stringsdict(rng):
    out = []
    for m in rng.sample(["a", "b.c", "[d/e]", "é f", ":dict"], rng.choice([1, 1, 2, 3])):
        v = rng.choice(["n", "VAR_1", "é"])
        us = []
        if rng.random() < 0.6:
            s = rng.choice([f"%#@{v}@", f"%#@{v}@", f"x %#@{v}@ y", f"%1$#@{v}@", "none", "", "%#@other@"] if rng.random() < 0.2 else [f"%#@{v}@", f"x %#@{v}@ y"])
            us.append(xunit(rng, f"/{m}:dict/NSStringLocalizedFormatKey:dict/:string", s, rng.choice([None, s, f"%#@{v}@ z", ""])))
        for c in sorted(rng.sample(CATS, rng.choice([0, 1, 2, 2, 3])), key=CATS.index):
            us.append(xunit(rng, f"/{m}:dict/{v}:dict/{c if rng.random() < 0.98 else 'x'}:dict/:string", rtext(rng, True), rng.choice([None, rtext(rng, True), rtext(rng, True)])))
        if rng.random() < 0.03 and us:
            us.append(rng.choice(us))
        out += us
    if rng.random() < 0.15:
        rng.shuffle(out)
    if rng.random() < 0.03:
        out.append(unit(rng, True))
    if rng.random() < 0.03:
        out.append(xunit(rng, rng.choice(["/a:dict/:string", "/a:dict/x:dict/:string", "/a:dict/b:dict/c:dict/one:dict/:string"]), "s", None))
    return out


def xcstrings(rng):
    out = []
    for m in rng.sample(["a", "b.c", "[d/e]", "é f", "", "%lld items"], rng.choice([1, 1, 2, 3])):
        r = rng.random()
        us = []
        tx = lambda: rtext(rng, True)
        if r < 0.3:
            us.append(xunit(rng, m, tx(), rng.choice([None, tx(), tx()])))
        elif r < 0.6:
            ph = rng.choice(["%d", "%lld", "%1$d", "%.1f", "%@", "%%", "", "%arg"])
            for c in [c for c in CATS if rng.random() < 0.3 or (c == "other" and rng.random() < 0.97)]:
                s = rng.choice(["", "a ", " "]) + (ph if rng.random() < 0.8 else "") + rng.choice([" b", "", " %2$@"])
                us.append(xunit(rng, f"{m}|==|plural.{c}", s, rng.choice([None, s, s.upper().replace("%D", "%d").replace("%LLD", "%lld").replace("$D", "$d").replace("1F", "1f").replace("%ARG", "%arg")]), rng.random() < 0.5))
        elif r < 0.75:
            for c in rng.sample(["iphone", "ipad", "mac", "applewatch"], rng.choice([0, 1, 2])) + (["other"] if rng.random() < 0.97 else []):
                us.append(xunit(rng, f"{m}|==|device.{c}", tx(), rng.choice([None, tx(), tx()]), rng.random() < 0.5))
        else:
            ph, nt = rng.choice([("%#@n@", "%d"), ("%#@n@", "%arg"), ("%1$#@n@", "%1$d"), ("%#@n@", "")]), rng.random() < 0.3
            base = lambda: rng.choice(["", "You have ", "é "]) + ph[0] + rng.choice(["", " left", "."])
            us.append(xunit(rng, m, base(), None if nt and rng.random() < 0.8 else base()))
            for c in [c for c in CATS if rng.random() < 0.3 or c == "other"]:
                s = lambda: rng.choice(["", "x "]) + (ph[1] if rng.random() < 0.85 else "") + rng.choice([" day", ""])
                us.append(xunit(rng, f"{m}|==|substitutions.n.plural.{c if rng.random() < 0.99 else 'x'}", s(), None if nt else s(), rng.random() < 0.5))
        if rng.random() < 0.03 and us:
            us.append(rng.choice(us))
        out += us
    if rng.random() < 0.15:
        rng.shuffle(out)
    if rng.random() < 0.03:
        out.append(xunit(rng, rng.choice(["a|==|plural", "a|==|x.y", "a|==|plural.one.two", "a|==|b|==|c", "a|==|substitutions.n.other", "a|==|device.ipad"]), "s", None))
    return out


def rdoc(rng):
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n' if rng.random() < 0.5 else ""]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        out.append(rcom(rng) + "\n")
    ns = rng.choice([NS] * 12 + [NS[:-1] + "1", NS[:-1] + "0", "", "urn:foo"])
    ver = rng.choice(["1.2"] * 20 + ["1.1", "1.0", "2.0", None])
    out.append("<xliff" + (f' xmlns="{ns}"' if ns else "") + ' xmlns:x="urn:x"' + rng.choice(["", ' xmlns:y="http://y"']) + (f' version="{ver}"' if ver else "") + rng.choice(["", ' x:k="1"', ' a="b"']) + ">" + ws(rng))
    names = ["a.txt", "b.strings", "é/c", "d.stringsdict", "e.xcstrings", "f.stringsdict", "g.xcstrings", ""]
    for nm in rng.sample(names, rng.choice([0, 1, 1, 1, 2, 3])) if rng.random() < 0.98 else ["a.txt", "a.txt"]:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append(rcom(rng) + ws(rng))
        xc = rng.random() < (0.9 if "." in nm and nm[0] in "defg" else 0.25)
        head = XCODE if xc else rng.choice(["", "", "<header/>", "<header><tool tool-id=\"t\"/></header>", "<header>" + extra(rng) + "</header>", "<header a='1'><note>n</note>" + rcom(rng) + "</header>"])
        if xc and nm.endswith("stringsdict") and rng.random() < 0.9:
            body = "".join(ws(rng) + u for u in stringsdict(rng)) + ws(rng)
        elif xc and nm.endswith("xcstrings") and rng.random() < 0.99:
            body = "".join(ws(rng) + u for u in xcstrings(rng)) + ws(rng)
        else:
            body = content(rng, xc)
        if xc and nm[:1] in "defg" and rng.random() < 0.05:
            body = rcom(rng) + body
        b = f"<body{rng.choice([''] * 20 + [' a=\"b\"'])}>{body}</body>" if rng.random() < 0.99 else ""
        if rng.random() < 0.01:
            b += rng.choice(["<body/>", "<body><trans-unit id='z'><source>z</source></trans-unit></body>", "stray", "<e/>"])
        orig = f' original="{nm}"' if rng.random() < 0.99 else ""
        out.append(f'<file{orig} source-language="en"{rng.choice(ATT)}>{ws(rng)}{rcom(rng) if rng.random() < 0.1 else ""}{head}{ws(rng)}{b}{rcom(rng) if rng.random() < 0.05 else ""}{ws(rng)}</file>{ws(rng)}')
    return "".join(out) + rng.choice(["", "", "", "", "", "", "stray", "<e/>"] if rng.random() < 0.05 else [""]) + "</xliff>"


# ---------------------------------------------------------------- resources
def rpattern(rng, xc):
    out, opened = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.5:
            out.append({"t": "txt", "s": rtext(rng, xc)})
        elif r < 0.65:
            out.append(rng.choice([EXP(VAR("int"), "integer", attr={"source": LIT("%d")}), EXP(VAR("x"), "", attr={"source": LIT("{x}")}), EXP(LIT("q"), "f", attr={"source": LIT(rtext(rng))})]))
        elif r < 0.67:
            out.append(rng.choice([EXP(VAR("x")), EXP(LIT("a")), EXP(VAR("x"), "f", {}, {"source": TRUE}), EXP(NONE, "f"), MKU("standalone", "x", {"id": VAR("v")}), MKU("close", "g"), MKU("standalone", "zz:q"), MKU("standalone", "x", {"zz:k": LIT("v")}), MKU("open", "g")]))
        elif r < 0.8:
            out.append(MKU("standalone", rng.choice(["x", "bx", "ph", "x:y"]), {"id": LIT("é<&\n")} if rng.random() < 0.6 else {}))
        elif opened and rng.random() < 0.6:
            out.append(MKU("close", opened.pop()) if rng.random() < 0.97 else MKU("close", opened.pop(), {"a": LIT("b")}))
        else:
            opened.append(rng.choice(["g", "ph", "mrk", "x:y"]))
            out.append(MKU("open", opened[-1], {rng.choice(["id", "xml:space", "x:k"]): LIT("1")} if rng.random() < 0.5 else {}))
    while opened:
        out.append(MKU("close", opened.pop()))
    return out


RCOMS = ["c", "c\nd", " c ", "a\n\nb", "a -- b", "---", "x-", "-", "é\u2028x", "\ta\n  b", "😀", "a\n   - b", " "]


def edit(rng, r):
    """some other resource near r"""
    if rng.random() < 0.2:
        r["com"] = rng.choice(RCOMS)
    if rng.random() < 0.01:
        r["meta"].append({"k": "k", "v": "v"})
    for s in r["secs"]:
        if len(s["id"]) == 1 and rng.random() < 0.2:
            s["com"] = rng.choice(RCOMS)
        if rng.random() < 0.02:
            s["meta"].append({"k": rng.choice(["@zz:a", "zz:b"]), "v": "v"})
        xc = any(m == {"k": "header/tool/@tool-id", "v": "com.apple.dt.xcode"} for m in s["meta"])
        dc = s["id"] and (s["id"][0].endswith("stringsdict") or s["id"][0].endswith("xcstrings"))
        for e in s["ents"]:
            if e["t"] == "com":
                if rng.random() < 0.3:
                    e["com"] = rng.choice(RCOMS)
                continue
            if e["val"]["t"] == "sel" or dc:
                continue
            q = rng.random()
            bin = any(p["t"] == "exp" and any(a["n"] == "bin-unit" for a in p["attr"]) for p in e["val"]["p"])
            if q < 0.3 and not bin:
                e["val"] = {"t": "pat", "decl": [], "p": rpattern(rng, xc)}
            elif q < 0.4 and not bin:
                e["val"] = T(rtext(rng, xc))
            elif q < 0.42:
                e["val"] = rng.choice([{"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("x"), "f")}], "p": []}, {"t": "sel", "decl": [{"n": "n", "e": EXP(VAR("n"), "number")}], "sel": ["n"], "var": [{"k": [{"t": "any", "s": ""}], "p": []}]}])
            if rng.random() < 0.3:
                e["meta"] = [m for m in e["meta"] if not m["k"].startswith("note")]
                e["com"] = rng.choice(RCOMS + ["", ""])
            if rng.random() < 0.02:
                e["meta"] = [m for m in e["meta"] if not m["k"].startswith("source")]
            if rng.random() < 0.01:
                e["id"] = rng.choice([[], ["a", "b"]])
        if not dc and rng.random() < 0.2:
            s["ents"].insert(rng.randrange(len(s["ents"]) + 1), COM(rng.choice(RCOMS)))
        if not dc and rng.random() < 0.2:
            s["ents"].append(ENT(["new"], PM(rtext(rng)), rng.choice(RCOMS + ["", "", ""]), [("source", rtext(rng)), ("target/@state", "s")]))
    if rng.random() < 0.05 and r["secs"]:
        i = rng.randrange(len(r["secs"]))
        if len(r["secs"][i]["id"]) > 1:
            par = r["secs"][i]["id"][:-1]
            r["secs"] = [s for s in r["secs"] if s["id"] != par and (len(par) > 1 or s["id"][:1] != par or s is r["secs"][i])]
    if rng.random() < 0.08:
        # sections under parents that may not be there, or be in common
        top = rng.choice(["new.txt", "a.txt", "b.strings"])
        for _ in range(rng.choice([1, 2, 2, 3])):
            i = [top, rng.choice(["g", "h"]), rng.choice(["i", "j"])][: rng.choice([1, 2, 3, 3])]
            r["secs"].append({"id": i, "com": "" if len(i) > 1 else rng.choice(["", "", "c"]), "lp": [],
                              "meta": [{"k": "@a", "v": "b"}] if rng.random() < 0.4 else [], "ents": [ENT([f"n{rng.randrange(3)}"], PM(rtext(rng)), "", [("source", "s")])]})
    if rng.random() < 0.02 and r["secs"]:
        r["secs"].append(deepcopy(rng.choice(r["secs"])) if rng.random() < 0.5 else {"id": [], "ents": [], "com": "", "meta": [], "lp": []})
    return r


def gen(rng, n, shard, tier):
    for _ in range(n):
        q = rng.random()
        if q < 0.6:
            yield {"op": "parse", "text": rdoc(rng), "src": rng.random() < 0.35, "b": rng.random() < 0.3}
        elif q < 0.85:
            text, src = rdoc(rng), rng.random() < 0.35
            try:
                tree(text)
                r = pres(xliff_parse(text, source_entries=src))
            except Exception:
                continue
            yield {"op": "ser", "res": edit(rng, r), "src": src}
        elif q < 0.95:
            xc = rng.random() < 0.5
            yield {"op": "pmsg", "text": inline(rng, xc).replace("x:", "").replace("ex ", "bx "), "xc": xc}
        else:
            yield {"op": "smsg", "m": T("a") if rng.random() < 0.02 else {"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("x"), "f")}] if rng.random() < 0.02 else [], "p": rpattern(rng, False)}}


def render(kids):
    out = ""
    for k in kids:
        if k["t"] == "el":
            n = "".join(map(chr, k["n"]))
            at = "".join(f' {"".join(map(chr, a["k"]))}="{xe("".join(map(chr, a["v"])))}"' for a in k["at"])
            out += f"<{n}{at}>{render(k['kids'])}</{n}>"
        else:
            s = "".join(map(chr, k["s"]))
            out += f"<!--{s}-->" if k["t"] == "com" else xe(s)
    return out


def from_model(c):
    if c["mode"] == "text":
        return [{"op": "pmsg", "text": xe("".join(map(chr, c["s"]))), "xc": True}]
    return [{"op": "parse", "text": f'<xliff xmlns="{NS}" version="1.2">{render(c["kids"])}</xliff>', "src": c["src"], "b": False}]


# ---------------------------------------------------------------- execution
R = lambda r: deep(nolp(pres(r)))
ND = {"tag": [], "ns": [], "version": [], "coms": [], "meta": [], "kids": []}


def ser(r, src):
    try:
        text = "".join(xliff_serialize(r, source_entries=src))
    except Exception as e:
        return {"k": "err", "ve": isinstance(e, ValueError), "d": ND}, None
    try:
        return {"k": "ok", "ve": False, "d": dtree(tree(text))}, text
    except Exception:
        return {"k": "bad", "ve": False, "d": ND}, None


def execute(case):
    op = case["op"]
    if op == "parse":
        text, src = case["text"], case["src"]
        try:
            d = tree(text)
        except (etree.XMLSyntaxError, OutOfDomain):
            return {"op": "idle"}
        ev = {"op": op, "d": dtree(d), "src": src}
        try:
            r = xliff_parse(text.encode() if case["b"] else text.replace('<?xml version="1.0" encoding="UTF-8"?>', ""), source_entries=src)
        except Exception as e:
            return {**ev, "out": {"k": "err", "ve": isinstance(e, ValueError)}}
        p = R(r)
        again, text2 = ser(r, src)
        again["same"] = True
        if text2 is not None:
            try:
                text3 = "".join(xliff_serialize(xliff_parse(text2, source_entries=src), source_entries=src))
                again["same"] = "".join(xliff_serialize(xliff_parse(text3, source_entries=src), source_entries=src)) == text3
            except Exception:
                again["same"] = False
        return {**ev, "out": {"k": "ok", "res": p}, "again": again}
    if op == "ser":
        r = u_res(case["res"])
        return {"op": op, "res": R(r), "src": case["src"], "out": ser(r, case["src"])[0]}
    if op == "pmsg":
        text = case["text"]
        try:
            k = kids(etree.fromstring(f"<target>{text}</target>".encode()))
        except (etree.XMLSyntaxError, OutOfDomain):
            return {"op": "idle"}
        ev = {"op": op, "kids": dtree(k), "xc": case["xc"]}
        try:
            m = xliff_parse_message(text, is_xcode=case["xc"])
        except Exception as e:
            return {**ev, "out": {"k": "err", "ve": isinstance(e, ValueError)}}
        return {**ev, "out": {"k": "ok", "m": deep(pmessage(m))}, "again": smsg(m)}
    m = u_message(case["m"])
    return {"op": op, "m": deep(pmessage(m)), "out": smsg(m)}


def smsg(m):
    try:
        text = xliff_serialize_message(m)
    except Exception as e:
        return {"k": "err", "ve": isinstance(e, ValueError), "kids": []}
    try:
        return {"k": "ok", "ve": False, "kids": dtree(kids(etree.fromstring(f"<target>{text}</target>".encode())))}
    except Exception:
        return {"k": "bad", "ve": False, "kids": []}


def kind(case, ev):
    return "idle" if ev["op"] == "idle" else ev["op"] + "_" + ev["out"]["k"]
