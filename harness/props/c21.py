import re
from lxml import etree
from core import Model
from proj import COM, ENT, EXP, LIT, MKU, PM, RES, SEC, T, VAR, TRUE, NONE, cps, exc, message as pmessage, res as pres, u_message, u_res
from props.c20 import deep
from props.c29 import nolp
from moz.l10n.formats.android.parse import android_parse, android_parse_message
from moz.l10n.formats.android.serialize import android_serialize, android_serialize_message

JUDGE, VERDICT = "J_Android", "AndroidVerdict"
MODELS = [Model("MC_Android", workers=3, emit=True, thorough_cfg="MC_Android_T")]
QUICK_N, THOROUGH_N = 14000, 160000
ASSUMPTIONS = ["lxml's reading of the XML is right: documents are judged by their trees", "text with % or < is read back as what it is the source of: compared as characters",
               "plurals and arrays have no text next to their items", "comments with two dashes in a row are written with zero width spaces", "references are to declared entities, and entity values have no <"]
XLIFF = "urn:oasis:names:tc:xliff:document:1.2"
TOOLS = "http://schemas.android.com/tools"


# ---------------------------------------------------------------- trees
def kids(el):
    out = []

    def txt(s):
        if s:
            if out and out[-1]["t"] == "txt":
                out[-1]["s"] += s
            else:
                out.append({"t": "txt", "s": s})
    txt(el.text)
    for c in el:
        if isinstance(c, etree._Entity):
            out.append({"t": "ent", "n": c.name})
        elif not isinstance(c, (etree._Comment, etree._ProcessingInstruction)):
            out.append(node(c))
        txt(c.tail)
    return out


def node(c):
    q = etree.QName(c.tag)
    return {"t": "el", "n": f"{c.prefix}:{q.localname}" if c.prefix else c.tag, "g": c.tag == f"{{{XLIFF}}}g", "at": [{"k": k, "v": v} for k, v in c.attrib.items()], "kids": kids(c)}


def child(c):
    if isinstance(c, etree._Comment):
        return {"t": "com", "s": c.text or "", "nl": (c.tail or "").count("\n")}
    if isinstance(c, etree._Entity):
        return {"t": "ent", "n": c.name}
    if isinstance(c, etree._ProcessingInstruction):
        return {"t": "pi"}
    n = node(c)
    if c.tag in ("plurals", "string-array"):
        n["kids"] = [child(x) for x in c]
    return n


PARSER = lambda: etree.XMLParser(resolve_entities=False)


def tree(text):
    root = etree.fromstring(text.encode() if isinstance(text, str) else text, PARSER())
    coms = [c.text or "" for c in root.itersiblings(etree.Comment, preceding=True)][::-1]
    dtd = root.getroottree().docinfo.internalDTD
    ents = [{"n": e.name, "s": e.content or ""} for e in dtd.iterentities()] if dtd is not None else []
    meta = [{"k": k, "v": v} for k, v in root.attrib.items()] + [{"k": f"xmlns:{k}" if k else "xmlns", "v": v} for k, v in root.nsmap.items()]
    return {"root": root.tag, "coms": coms, "meta": meta, "ents": ents, "kids": [child(c) for c in root]}


def dtree(x):
    """strings as code points, except kinds of nodes"""
    if isinstance(x, str):
        return cps(x)
    if isinstance(x, list):
        return [dtree(y) for y in x]
    if isinstance(x, dict):
        return {k: v if k == "t" else dtree(v) for k, v in x.items()}
    return x


def mkids(text):
    names = sorted(set(re.findall(r"&([^#\s;&]+);", text)) - {"amp", "lt", "gt", "quot", "apos"})
    dt = "<!DOCTYPE string [" + "".join(f'<!ENTITY {n} "">' for n in names) + "]>"
    return kids(etree.fromstring(f"{dt}<string>{text}</string>".encode(), PARSER()))


# ---------------------------------------------------------------- cases
def xe(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


TOK = ["a", "b c", "é", "Ж", "😀", " ", " ", "  ", "\n", "\n   ", "\t", "\xa0", "\u2003", "\u3000x", "\u200b", '"', '"', '"q  r"', '\\"', "\\\\", "\\'", "'", "\\n", "\\t", "\\u0020", "\\u00e9", "\\u000a", "\\ud83d\\ude00", "\\ud83d", "\\u12", "\\x", "\\@", "\\", "\\ ", "@", "?", "&", "=", "{0}", "{x}", ":", "/",
       "%", "%s", "%1$s", "%2$d", "%d", "%%", "%n", "% d", "%-5.2f", "%1$tY", "%<te", "%<s", "%@", "%1$", "%b", "%T", "%\\n", "50% ", "%,d", "%9$X", "%.3e", "%(d",
       "<b>", "</b>", "<p>", "</p>", " <p>", " </ul>", "<li>", "<br>", "<br/>", "<br/> ", "<hr> x", "<br />", '<a href="x">', "<a href=\\\"x\\\">", "</a>", "<", ">", "<>", "< >", "<a href='%1$s'>", "<h1>", "<pre>", "<div class=\"a\">", "<b\\u0020c>", "<x\\ny>", "]]>", "]]"]
PLAIN = [t for t in TOK if "%" not in t]
COMS = [" c ", "c", " c d ", "\n    c\n    d\n  ", "", "  ", " a\n   - b\n   - c ", " a\n   - b", "\n\n c \n\n d\n", " é\u2028x ", "\t-x- ", " - ", "😀"]


def rtext(rng, n=None):
    return "".join(rng.choice(TOK if rng.random() < 0.9 else PLAIN) for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3, 4, 6])))


def rx(rng, depth=0):
    """the XML of a message"""
    if rng.random() < 0.05 and not depth:
        return rng.choice(["@string/foo", "?attr", "?a:b/c", "@a:b/c", "@foo", " @string/x", "?", "@string/x y", "?é", "@string/", "@a:b", "?a/b/c"])
    out = ""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.6:
            t = rtext(rng)
            out += f"<![CDATA[{t}]]>" if rng.random() < 0.15 and "]]>" not in t else xe(t) if rng.random() < 0.9 else "".join(f"&#{ord(c)};" for c in t)
        elif r < 0.7:
            out += rng.choice(["&foo;", "&bar;"])
        elif r < 0.72:
            g = rng.choice(["<xliff:g>z</xliff:g>", "<b>z</b>", '<xliff:g id="n">  %1$s</xliff:g>', "&foo;", "%1$s", "<xliff:g>a  b <b>c  d</b></xliff:g>"])
            out += rng.choice(['"', '"a  b', 'x" y ', '""  "', '\\"a  "']) + g + rng.choice(["  a   b", '  a" b   c', ' "d  e', "\n x  y\""])
        elif r < 0.74:
            out += rng.choice(["<!-- x -->", "<!---->", "<?pi x?>"])
        elif depth < 2:
            tag, at = rng.choice([("b", ""), ("i", ""), ("a", ' href="é x&amp;&lt;&quot;%20"'), ("br", ""), ("annotation", ' name="n" font="&#10;t"'), ("tools:x", ' tools:y="z"'), ("script", ""), ("p", ""), ("xliff:g", ""), ("xliff:g", ""), ("xliff:g", ' id="n"'), ("xliff:g", ' id="%2$s" example="1"'), ("xliff:g", ' example="x"'), ("xliff:g", ' id=""'), ("xliff:x", "")])
            body = rx(rng, depth + 1) if rng.random() < 0.8 else ""
            if tag == "xliff:g" and rng.random() < 0.6:
                body = rng.choice(["%1$s", "%d", "Foo", "it\\'s", "it's", "{x}", "{0a}", "&foo;", "", " ", " a  b", "\\u0020", "a\n b", "a &foo; b", '"q"', "é", "@x", "\\\\"])
            out += f"<{tag}{at}/>" if not body and rng.random() < 0.5 else f"<{tag}{at}>{body}</{tag}>"
    return out


def rcom(rng):
    return f"<!--{rng.choice(COMS)}-->"


def rdoc(rng):
    ws = lambda: rng.choice(["\n  ", "\n  ", "\n\n  ", "", " \n \n", "\r\n", "\n"])
    nm = iter("abcdefghijklmnop")
    body = ws()
    attrs = lambda: rng.choice(["", "", "", ' translatable="false"', ' tools:ignore="A,B"', ' formatted="false" comment="é &lt; &#9;&quot;x&quot;"'])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        name = rng.choice([next(nm), "é_1", "a.b-c"]) if rng.random() < 0.9 else rng.choice(["a b", "", "1x", "a:b"])
        if r < 0.3:
            body += rcom(rng)
        elif r < 0.65:
            body += f'<string name="{name}"{attrs()}>{rx(rng)}</string>'
        elif r < 0.8:
            its = ""
            for q in rng.sample(["zero", "one", "two", "few", "many", "other"], rng.choice([0, 1, 2, 2, 3])) + (["other"] if rng.random() < 0.05 else []):
                its += ws() + (rcom(rng) + ws() if rng.random() < 0.25 else "") + f'<item quantity="{q if rng.random() < 0.98 else "x"}">{rx(rng)}</item>'
            body += f'<plurals name="{name}"{attrs()}>{its}{ws()}{rcom(rng) if rng.random() < 0.15 else ""}{ws()}</plurals>'
        elif r < 0.97:
            its = ""
            for _ in range(rng.choice([0, 1, 2, 3])):
                its += ws() + (rcom(rng) + ws() if rng.random() < 0.25 else "") + f"<item>{rx(rng)}</item>"
            body += f'<string-array name="{name}"{attrs()}>{its}{ws()}{rcom(rng) if rng.random() < 0.15 else ""}{ws()}</string-array>'
        else:
            body += rng.choice(["<foo name='x'>y</foo>", "<string>x</string>", "<?pi x?>", "<plurals name='x'><foo/></plurals>", "<string-array name='x'><string/></string-array>", "<item name='x'/>"])
        body += ws()
    pro = "".join(rng.choice(["\n", ""]) + rcom(rng) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    ents = '<!DOCTYPE resources [<!ENTITY foo "%s"><!ENTITY bar "%s">]>' % (rng.choice(["Foo", "", "a &amp; b", "&quot;q&quot;", "a&#38;#38;b", "&#37;s", "é\n x", "&apos;"]), rng.choice(["Bar &foo;", "x", "&foo;&foo; y", "a & b".replace("&", "&amp;amp;")]))
    root = rng.choice(["resources"] * 60 + ["string"])
    nsd = rng.choice(["", "", ' x="y"', ' tools:locale="é"'])
    return f'<?xml version="1.0" encoding="utf-8"?>{pro}{ents}<{root} xmlns:tools="{TOOLS}" xmlns:xliff="{XLIFF}"{nsd}>{body}</{root}>'


# resources
CH = ["a", "b", " ", " ", "  ", "\n", "\t", "'", '"', "\\", "@", "?", "&", "<", ">", "%", "%s", "%1$d", "<b>", "<p>", "</p>", "<br>", "<br/>", "\xa0", "\u2003", "\u2028", "é", "😀", "\x00", "\x1b", "\x1f", "\x7f", "\x85", "\ufffe", "\uffff", "\ud800", "{x}", "]]>", "-", "u0041", "n", "\r", "\u200b"]


def rstring(rng):
    return "".join(rng.choice(CH) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))


def rpattern(rng, plain=False):
    if rng.random() < 0.04:
        return [EXP(LIT(rng.choice(["@string/x", "?a", "@foo", "x", "?a:b/c"])), "reference")]
    out, opened = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.5:
            out.append({"t": "txt", "s": rstring(rng)})
        elif r < 0.58:
            out.append(EXP(VAR("foo"), "entity") if rng.random() < 0.95 else EXP(LIT("foo"), "entity"))
        elif r < 0.68:
            out.append(rng.choice([EXP(VAR("arg1"), "string", attr={"source": LIT("%1$s")}), EXP(VAR("arg"), "integer", attr={"source": LIT("%d")}), EXP(LIT("%"), attr={"source": LIT("%%")}), EXP(LIT("<b>"), "html"), EXP(LIT("</p>"), "html"), EXP(LIT("<br>"), "html"), EXP(LIT('<a href="x">'), "html"), EXP(LIT(rstring(rng)), rng.choice(["", "f"]), {"o": LIT("x")} if rng.random() < 0.3 else {})]))
        elif r < 0.8:
            opt = rng.choice([{}, {}, {"id": LIT("n")}, {"example": LIT("é<&\n")}, {"id": LIT("")}])
            at = {"translate": LIT("no")}
            out.append(rng.choice([EXP(LIT(rstring(rng).replace("\ud800", "")), "xliff:g" if opt else "", opt, at), EXP(VAR("x"), "xliff:g", opt, {**at, "source": LIT(rng.choice(["%1$s", "x", "", "{x}", "it\\'s", " a  b"]))}), EXP(VAR("x"), "", {}, {**at, "source": LIT(rng.choice(["%1$s", "{x}", "y"]))}), EXP(VAR("x"), "", {}, at), EXP(VAR("foo"), "entity", opt, at), EXP(LIT("a"), "f", {"o": VAR("v")}, at)]))
        elif r < 0.84:
            out.append(rng.choice([EXP(VAR("x")), EXP(VAR("x"), "f", {}, {"source": TRUE}), EXP(NONE, "f"), EXP(VAR("x"), "f", {}, {"source": LIT("%\x00")}), MKU("standalone", "b", {"x": VAR("y")})]))
        elif r < 0.87:
            out.append(MKU("standalone", rng.choice(["br", "img", "x:y", "tools:q"]), {"src": LIT("é x&<\"%20\xa0")} if rng.random() < 0.5 else {}))
        elif opened and rng.random() < 0.6:
            n, at = opened.pop() if rng.random() < 0.95 else ("zz", {})
            out.append(MKU("close", n, {}, at))
        else:
            o = rng.choice([("b", {}), ("a", {}), ("script", {}), ("tools:q", {}), ("p:q", {}), ("xliff:g", {"translate": LIT("no")}), ("z", {"translate": LIT("no")})])
            opened.append(o)
            out.append(MKU("open", o[0], {"href": LIT("x y")} if rng.random() < 0.4 else {}, o[1]))
    while opened and rng.random() < 0.97:
        n, at = opened.pop()
        out.append(MKU("close", n, {}, at))
    return out


def rmsg(rng, sel=True):
    r = rng.random()
    if r < 0.15:
        return T(rstring(rng))
    if r < 0.8 or not sel:
        return {"t": "pat", "decl": [{"n": "x", "e": EXP(VAR("x"), "f")}] if rng.random() < 0.02 else [], "p": rpattern(rng)}
    ks = [{"t": "key", "s": q} for q in rng.sample(["zero", "one", "two", "few", "many"] + (["other"] if rng.random() < 0.2 else []), rng.choice([0, 1, 2]))]
    if rng.random() < 0.9:
        ks.append({"t": "any", "s": rng.choice(["=other", "=other", "", "=many"])})
    if rng.random() < 0.03:
        ks.append({"t": "key", "s": "x"})
    other = any(k["t"] == "key" and k["s"] == "other" for k in ks)
    seen, vs = set(), []
    for k in ks:
        n = k["s"] if k["t"] == "key" else k["s"][1:] if other else "other"
        if n not in seen:
            vs.append({"k": [k], "p": rpattern(rng)})
        seen.add(n)
    nm = "quantity" if rng.random() < 0.9 else "n"
    return {"t": "sel", "decl": [{"n": nm, "e": EXP(VAR(nm), "number" if rng.random() < 0.97 else "string")}], "sel": [nm], "var": vs}


RCOMS = ["", "", "", "c", "c\nd", " c ", "a\n\nb", "\n", "a -- b", "---", "x-", "-", "\x00", "é\u2028x", "\ta\n  b", "😀", "a\n   - b"]


def rres(rng):
    meta = lambda: rng.choice([[]] * 8 + [[("translatable", "false")], [("{%s}ignore" % TOOLS, "é\n\"<&")], [("a", "1"), ("b", "")], [("name", "x")], [("a", "1"), ("a", "2")], [("a", "\x00")]])
    secs, nm = [], 0
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ents, sid = [], rng.choice([[]] * 30 + [["S"]])
        if rng.random() < 0.15:
            sid = ["!ENTITY"]
            for n in rng.sample(["foo", "bar", "x.y"], rng.choice([0, 1, 2])):
                v = [{"t": "txt", "s": rng.choice(["a", "a & b", '"q"', "%s", "a--b", "-", "--", "é\n", "'", "&foo;", "😀", "x\ry"])}, EXP(VAR("foo"), "entity")][:rng.choice([1, 2]) if n != "foo" else 1]
                ents.append(ENT([n], rng.choice([{"t": "pat", "decl": [], "p": v}, T(v[0]["s"]) if v else T("")])))
            if rng.random() < 0.08:
                ents.append(rng.choice([ENT(["z"], PM("a"), "com"), ENT(["z"], PM("a"), "", [("k", "v")]), COM("c"), ENT(["a b"], PM("a")), ENT(["z"], PM(EXP(VAR("x")))), ENT(["z"], PM("\x00")), ENT(["z"], PM(MKU("open", "b")))]))
        else:
            for _ in range(rng.choice([0, 1, 2, 3])):
                nm += 1
                r = rng.random()
                if r < 0.2:
                    ents.append(COM(rng.choice(RCOMS)))
                elif r < 0.75:
                    ents.append(ENT([rng.choice([f"n{nm}", "é", "a.b-c"])] if rng.random() < 0.98 else rng.choice([["a b"], [""], [], ["a", "b", "c"], ["1"]]), rmsg(rng), rng.choice(RCOMS), meta()))
                else:
                    m = meta()
                    for i in range(rng.choice([1, 2, 3])):
                        ents.append(ENT([f"n{nm}", str(i) if rng.random() < 0.97 else rng.choice(["x", "5"])], rmsg(rng, rng.random() < 0.03), rng.choice(RCOMS), m if rng.random() < 0.98 else meta()))
                        if rng.random() < 0.03:
                            ents.append(COM("mid"))
        secs.append(SEC(sid, ents, rng.choice([""] * 6 + RCOMS), [("k", "v")] if rng.random() < 0.01 else []))
    if not any(s["id"] == ["!ENTITY"] and any(e["t"] == "ent" and e["id"] == ["foo"] for e in s["ents"]) for s in secs):
        secs.insert(rng.choice([0, len(secs)]), SEC(["!ENTITY"], [ENT(["foo"], PM("Foo"))]))
    return RES("android", secs, rng.choice(RCOMS), rng.choice([[]] * 6 + [[("xmlns:xliff", XLIFF)], [("xmlns:tools", TOOLS)], [("x", "y"), ("xmlns:p", "urn:p")], [("xmlns", "urn:d")], [("x", "1"), ("x", "2")], [("name", "é")]]))


def gen(rng, n, shard, tier):
    for _ in range(n):
        r = rng.random()
        o = {"ascii": rng.random() < 0.2, "lit": rng.random() < 0.2}
        if r < 0.35:
            yield {"op": "parse", "text": rdoc(rng), "o": o, "b": rng.random() < 0.3}
        elif r < 0.6:
            yield {"op": "pmsg", "text": rx(rng), "o": o}
        elif r < 0.85:
            yield {"op": "ser", "res": rres(rng)}
        else:
            yield {"op": "smsg", "m": rmsg(rng), "cdata": rng.random() < 0.3}


def from_model(c):
    if c["mode"] == "msg":
        s = xe("".join(map(chr, c["s"])))
        return [{"op": "pmsg", "text": s, "o": {"ascii": False, "lit": False}}]
    body = ""
    for i, k in enumerate(c["k"]):
        n, x = f'name="n{i + 1}"', f"<!-- c{i + 1} -->"
        body += {"c1": x, "c2": x + "\n", "s": f"<string {n}>a</string>", "a0": f"<string-array {n}></string-array>", "a": f"<string-array {n}><item>a</item>{x}<item>b</item></string-array>", "ac": f"<string-array {n}>{x}<item>a</item>{x}</string-array>",
                 "p": f'<plurals {n}>{x}<item quantity="other">other</item></plurals>', "pc": f'<plurals {n}><item quantity="one">one</item>{x}<item quantity="other">other</item>{x}</plurals>'}[k] + "\n"
    return [{"op": "parse", "text": f"<resources>{body}</resources>", "o": {"ascii": False, "lit": False}, "b": False}]


# ---------------------------------------------------------------- execution
R = lambda r: deep(nolp(pres(r)))
ND = {"root": [], "coms": [], "meta": [], "ents": [], "kids": []}


def ser(r):
    try:
        text = "".join(android_serialize(r))
    except Exception as e:
        return {"k": "err", "ve": isinstance(e, ValueError), "d": ND}
    try:
        return {"k": "ok", "ve": False, "d": dtree(tree(text))}
    except Exception:
        return {"k": "bad", "ve": False, "d": ND}


def smsg(m, cdata):
    try:
        text = android_serialize_message(m, allow_cdata=cdata)
    except Exception as e:
        return {"k": "err", "ve": isinstance(e, ValueError), "kids": []}
    try:
        return {"k": "ok", "ve": False, "kids": dtree(mkids(text))}
    except Exception:
        return {"k": "bad", "ve": False, "kids": []}


def execute(case):
    op = case["op"]
    if op == "parse":
        text, o = case["text"], case["o"]
        try:
            d = tree(text)
        except etree.XMLSyntaxError:
            return {"op": "idle"}
        ev = {"op": op, "d": dtree(d), "o": o}
        try:
            r = android_parse(text.encode() if case["b"] else text, ascii_spaces=o["ascii"], literal_quotes=o["lit"])
        except Exception as e:
            return {**ev, "out": {"k": "err", "ve": isinstance(e, ValueError)}}
        return {**ev, "out": {"k": "ok", "res": R(r)}, "again": ser(r)}
    if op == "pmsg":
        text, o = case["text"], case["o"]
        for a, b in (("xliff:g", f'xliff:g xmlns:xliff="{XLIFF}"'), ("xliff:x", f'xliff:x xmlns:xliff="{XLIFF}"'), ("tools:x", f'tools:x xmlns:tools="{TOOLS}"')):
            text = re.sub(f"<{a}\\b", "<" + b, text)
        try:
            k = mkids(text)
        except etree.XMLSyntaxError:
            return {"op": "idle"}
        ev = {"op": op, "kids": dtree(k), "o": o}
        try:
            m = android_parse_message(text, ascii_spaces=o["ascii"], literal_quotes=o["lit"])
        except Exception as e:
            return {**ev, "out": {"k": "err", "ve": isinstance(e, ValueError)}}
        return {**ev, "out": {"k": "ok", "m": deep(pmessage(m))}, "again": smsg(m, False)}
    if op == "ser":
        r = u_res(case["res"])
        return {"op": op, "res": R(r), "out": ser(r)}
    m = u_message(case["m"])
    return {"op": op, "m": deep(pmessage(m)), "out": smsg(m, case["cdata"])}


def kind(case, ev):
    if ev["op"] == "idle":
        return "idle"
    return ev["op"] + "_" + ev["out"]["k"]
