import copy, json, re
from xml.sax.saxutils import quoteattr
import proj
from core import Model
from proj import cps, u_message
from props.c20 import deep
from props.c24 import G
from props.c29 import nolp
from moz.l10n.formats import Format
from moz.l10n.formats.android.parse import android_parse_message
from moz.l10n.formats.android.serialize import android_serialize_message
from moz.l10n.formats.fluent.parse import fluent_parse_message
from moz.l10n.formats.fluent.serialize import fluent_serialize_message
from moz.l10n.formats.mf2.message_parser import mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.properties.parse import properties_parse_message
from moz.l10n.formats.properties.serialize import properties_serialize_message
from moz.l10n.formats.webext.parse import webext_parse_message
from moz.l10n.formats.webext.serialize import webext_serialize_message
from moz.l10n.formats.xliff.parse import xliff_parse_message
from moz.l10n.formats.xliff.serialize import xliff_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import PatternMessage
from moz.l10n.resource import parse_resource
from moz.l10n.util.printf import parse_printf_pattern

JUDGE, VERDICT = "J_MsgApi", "MsgVerdict"
MODELS = [Model("MC_MsgApi", workers=3, emit=True, thorough_cfg="MC_MsgApi_T")]
QUICK_N, THOROUGH_N = 16000, 160000
ASSUMPTIONS = ["a message is compared to that of a file where its text can stand there as it is","an escape within what would be a placeholder without it (as in %#\\$d) need not come back"]
FMTS = ["android", "dtd", "fluent", "gettext", "inc", "ini", "mf2", "plain_json", "properties", "webext", "xliff"]
TOKS = ["x", "y z", " ", "%s", "%1$d", "%%", "$P$", "$1", "$$", "{ $x }", "{$x}", "{", "}", "<b>", "</b>", "&amp;", "&lt;", "\\n", "\\u00e9", "\\", '"', "'", "\n", "\u2003", "é𝕏", "%n", "%@", "%(a)s",
        "<xliff:g>", "{ -t }", '{ "" }', "<x id=\"a\"/>", "=", "#", ".input", "{{", "}}", "|", "\t", "%"]
PH = {"P": {"content": "$1", "example": "e"}, "q": {"content": "Q"}}


def from_model(c):
    s = "".join("".join(map(chr, t)) for t in c["toks"])
    return [{"op": "parse", "fmt": c["fmt"], "s": s, "o": [i in c["opts"] for i in ("ascii", "printf", "ph", "xcode")], "f": [len(s) % 2 == 0, len(s) % 5 != 0]}]


def gen(rng, n, shard, tier):
    for _ in range(n):
        f = rng.choice(FMTS)
        if rng.random() < 0.75:
            s = "".join(rng.choice(TOKS) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])))
            if f == "mf2" and rng.random() < 0.4:
                s = mf2_serialize_message(u_message(G(rng, False).msg()))
            yield {"op": "parse", "fmt": f, "s": s, "o": [rng.random() < 0.5 for _ in range(4)], "f": [rng.random() < 0.5, rng.random() < 0.8]}
        else:
            m = G(rng, rng.random() < 0.2).msg()
            if rng.random() < 0.4:  # a plain pattern of text and placeholders which carry their source, or nearly
                xs = [rng.choice(["x", "a b", " ", "{", "<"]) if rng.random() < 0.5 else
                      proj.EXP(proj.VAR(rng.choice("xy")), "", {}, rng.choice([{}, {"source": proj.LIT("%s")}, {"source": proj.LIT("%s")}, {"source": proj.LIT("")}, {"source": proj.TRUE}, {"src": proj.LIT("%s")}]))
                      for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                m = proj.PM(*xs)
            yield {"op": "ser", "fmt": f, "m": m, "f": [rng.random() < 0.5, rng.random() < 0.5]}


def pm(m):
    return deep(nolp(proj.message(m, False)))


NOM = pm(PatternMessage([]))


def out(fn, *a, **k):
    try:
        return {"k": "ok", "m": pm(fn(*a, **k))}
    except ValueError as e:
        return {"k": "err", "m": NOM}
    except Exception as e:
        return {"k": "err" if type(e).__name__ in ("XMLSyntaxError", "ParseError") else "other", "m": NOM, "x": repr(e)[:100]}


def txt(fn, *a, **k):
    try:
        return {"k": "ok", "s": cps(fn(*a, **k))}
    except ValueError:
        return {"k": "err", "s": []}
    except Exception as e:
        return {"k": "other", "s": [], "x": repr(e)[:100]}


def own_parse(f, s, o):
    if f == "android":
        return android_parse_message(s, ascii_spaces=o[0])
    if f == "webext":
        return webext_parse_message(s, PH if o[2] else None)
    if f == "xliff":
        return xliff_parse_message(s, is_xcode=o[3])
    if f == "properties":
        return properties_parse_message(s, printf_placeholders=o[1])
    if f == "fluent":
        return fluent_parse_message(s)
    if f == "mf2":
        return mf2_parse_message(s)
    return PatternMessage(list(parse_printf_pattern(s)) if o[1] else [s] if s else [])


def own_ser(f, m, fl):
    if f == "fluent":
        return fluent_serialize_message(m, escape_empty=fl[0], escape_syntax=fl[1])
    if f == "webext":
        return webext_serialize_message(m)[0]
    fn = {"android": android_serialize_message, "xliff": xliff_serialize_message, "properties": properties_serialize_message, "mf2": mf2_serialize_message}.get(f)
    if fn:
        return fn(m)
    if not isinstance(m, PatternMessage) or m.declarations:
        raise ValueError
    return "".join(x if isinstance(x, str) else source(x) for x in m.pattern)


def source(x):
    s = x.attributes.get("source")
    if not isinstance(s, str):
        raise ValueError
    return s


def opts(o):
    return {"android_ascii_spaces": o[0], "printf_placeholders": o[1], "webext_placeholders": PH if o[2] else None, "xliff_is_xcode": o[3]}


def embedded(f, s, o):
    """A file with the text as the value of its entry, or None where it can not stand there."""
    one = "\n" not in s and "\r" not in s
    if f == "android":
        return '<?xml version="1.0" encoding="utf-8"?>\n<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"><string name="a">' + s + "</string></resources>", {"android_ascii_spaces": o[0]}
    if f == "xliff" and not o[3]:
        return '<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"><file original="f" source-language="en" datatype="plaintext"><body><trans-unit id="a"><source>S</source><target>' + s + "</target></trans-unit></body></file></xliff>", {}
    if f == "properties" and s == s.strip() and s and one and (len(s) - len(s.rstrip("\\"))) % 2 == 0 and s[0] not in "=:":
        return "a = " + s + "\n", {"properties_printf_placeholders": o[1]}
    if f == "webext":
        return json.dumps({"a": {"message": s, **({"placeholders": PH} if o[2] else {})}}), {}
    if f == "fluent" and s.strip() and s.strip() == s.strip(" \n") and not any(x.lstrip()[:1] in (".", "[", "*") for x in s.split("\n") if x.strip()):  # other white space at the ends is left out on its own
        return "a = " + s.strip().replace("\n", "\n    ") + "\n", {}
    if o[1]:
        return None
    if f == "plain_json":
        return json.dumps({"a": s}), {}
    if f == "gettext" and s:
        return 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\nmsgid "a"\nmsgstr ' + '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"\n', {}
    if f == "ini" and one and s == s.strip() and s and s[0] not in "=:#;" and " ;" not in s and "\u2003" not in s:
        return "[S]\na = " + s + "\n", {}
    if f == "inc" and one and s == s.strip() and s:
        return "#define a " + s + "\n", {}
    if f == "dtd" and not set(s) & set('"&%<') and s:
        return '<!ENTITY a "' + s + '">\n', {}
    return None


def then(f, m, fl, again, safe):
    F = Format[f]
    kw = {"fluent_escape_empty": fl[0], "fluent_escape_syntax": fl[1]}
    old = copy.deepcopy(m)
    ser = txt(serialize_message, F, m, **kw)
    e = {"op": "ser", "fmt": f, "m": pm(m), "ser": ser, "serown": txt(own_ser, f, m, fl), "list": ser, "back": {"k": "none", "m": NOM}, "safe": safe and ser["k"] == "ok"}
    if isinstance(m, PatternMessage) and not m.declarations:
        e["list"] = txt(serialize_message, F, m.pattern, **kw)
    if e["safe"]:
        e["back"] = again("".join(map(chr, ser["s"])))
    e["changed"] = m != old or repr(m) != repr(old)
    return e


def execute(case):
    f, fl = case["fmt"], case["f"]
    if case["op"] == "ser":
        return then(f, u_message(case["m"]), fl, None, False)
    s, o = case["s"], case["o"]
    F = Format[f]
    api = out(parse_message, F, s, **opts(o))
    e = {"op": "parse", "fmt": f, "s": cps(s), "printf": o[1], "api": api, "own": out(own_parse, f, s, o), "emb": {"k": "none", "m": NOM}}
    em = embedded(f, s, o)
    if em:
        e["emb"] = out(lambda: parse_resource(F, em[0], **em[1]).sections[0].entries[0].value)
    if api["k"] == "ok":
        m = parse_message(F, s, **opts(o))
        e["then"] = then(f, m, fl, lambda t: out(parse_message, F, t, **opts(o)), (f != "fluent" or fl[1]) and not re.search(r"%[^a-zA-Z%@]*[\\<&{]", s))
    else:
        e["then"] = {"op": "idle"}
    return e


def kind(case, ev):
    return ev["op"] + "_" + case["fmt"] + ("" if ev["op"] != "parse" else "_" + ev["api"]["k"])
