import contextlib, hashlib, importlib, json, os, re, sys
import xml.parsers.expat as expat
from core import Model
from proj import cps, exc
import moz.l10n.formats as F
import moz.l10n.resource as R
from moz.l10n.formats import Format
from props import c07, c19

JUDGE, VERDICT = "J_Detect", "DetectVerdict"
MODELS = [Model("MC_Detect", workers=3, emit=True, thorough_cfg="MC_Detect_T")]
QUICK_N, THOROUGH_N = 20000, 300000
ASSUMPTIONS = ["the root of XML contents is told by expat; contents that are not well-formed may be refused or taken for what they begin as",
               "texts have no unpaired surrogates and no more nesting or digits than the JSON library takes",
               "PO texts given as contents have no line separators other than CR and LF (a library defect, listed as known finding), nor a UTF-8 text declared as another charset"]
WIDE = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def _load(no_lxml):
    """The library's functions, from a copy of it that finds no lxml if asked."""
    if not no_lxml:
        return F.detect_format, R.parse_resource, R.serialize_resource
    keep = {k: v for k, v in sys.modules.items() if k.split(".")[0] in ("moz", "lxml")}
    for k in keep:
        del sys.modules[k]
    with hidden():
        f = importlib.import_module("moz.l10n.formats")
        r = importlib.import_module("moz.l10n.resource")
    for k in [k for k in sys.modules if k.split(".")[0] in ("moz", "lxml")]:
        del sys.modules[k]
    sys.modules.update(keep)
    return f.detect_format, r.parse_resource, r.serialize_resource


@contextlib.contextmanager
def hidden():
    keep = {k: sys.modules.get(k) for k in ("lxml", "lxml.etree")}
    sys.modules.update({k: None for k in keep})
    try:
        yield
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


_LIB = {}


def lib(no_lxml):
    if no_lxml not in _LIB:
        _LIB[no_lxml] = _load(no_lxml)
    return _LIB[no_lxml]


def direct(fmt, mode):
    m = importlib.import_module(f"moz.l10n.formats.{fmt}")
    return getattr(m, f"{fmt}_{mode}")


def from_model(c):
    n, t = "".join(map(chr, c["name"])), "".join(map(chr, c["text"]))
    return [{"op": "detect", "name": n, "text": t, "undec": False, "lxml": (len(t) + len(n)) % 3 != 0}]


STEMS = ["a", "messages", "", ".a", "a.b", "a.ftl", "é", "..", "x y", "a.ftl/b", "en-US/a", "./a", ".json", "a.xml/b"]
EXTS = [".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml", ".txt", "", ".", ".FTL", ".ftlx", ".js", ".xlifff", ".po~"]
NS = ["", "", "", "urn:oasis:names:tc:xliff:document:1.2", "urn:oasis:names:tc:xliff:document:1.1", "urn:oasis:names:tc:xliff:document:1.0", "urn:oasis:names:tc:xliff:document:2.0", "urn:oasis:names:tc:xliff:document:1.2 ", "http://x"]


def rxml(rng):
    s = rng.choice(["", "", '<?xml version="1.0" encoding="utf-8"?>\n', "<?xml version='1.0'?>", '<?xml version="1.0" encoding="iso-8859-1"?>', "\n", "\ufeff"])
    s += rng.choice(["", "", "", "<!-- c -->\n", "<!-- <resources> -->", "<?p i?>", "<!DOCTYPE resources [\n<!ENTITY a \"b\">\n]>\n", " \n"])
    if rng.random() < 0.4:
        k = rng.random()
        body = (c07.AN if k < 0.4 else c07.XL).split("?>\n", 1)[1]
        if k > 0.8:
            body = body.replace("1.2\" v", rng.choice(["1.1", "1.0", "2.0"]) + "\" v")
        return s + body
    p = rng.choice(["", "", "", "x:"])
    tag = rng.choice(["resources", "resources", "xliff", "Resources", "x", "resource"])
    ns = rng.choice(NS)
    at = (f' xmlns="{ns}"' if ns or rng.random() < 0.1 else "") + (f' xmlns:x="{rng.choice(NS[3:])}"' if p or rng.random() < 0.2 else "") + rng.choice(["", "", ' a="b"', ' version="1.2"'])
    inner = rng.choice([None, "", "x", "<string name='a'>A</string>", '<file original="f" source-language="en" datatype="x"><body/></file>', '<resources/>', "\xe9"])
    return s + (f"<{p}{tag}{at}/>" if inner is None else f"<{p}{tag}{at}>{inner}</{p}{tag}>") + rng.choice(["", "\n", "<!-- c -->", "x" if rng.random() < 0.2 else ""])


def rtext(rng):
    r = rng.random()
    if r < 0.3:
        t = c19.jdump(rng, c19.rwebext(rng) if rng.random() < 0.5 else c19.rtree(rng) if rng.random() < 0.9 else rng.choice([[], None, "x", True, 3, [{}], {}]), rng.random() < 0.4)
        if rng.random() < 0.1:
            t = "\ufeff" + t
    elif r < 0.4:
        t = c19.jdump(rng, {rng.choice(["a", "b"]): {rng.choice(["message", "message", "description", "placeholders", "x"]): rng.choice(["x", "y", {}, {"m": "x"}, {"a": {"content": "x"}}]) for _ in range(rng.choice([1, 1, 2, 3]))} for _ in range(rng.choice([1, 1, 2]))}, rng.random() < 0.3)
    elif r < 0.7:
        t = rxml(rng)
    elif r < 0.76:
        cs = rng.choice(["ISO-8859-1", "UTF-8", "iso-8859-2", "CHARSET", "windows-1252", "utf-8", "US-ASCII"])
        t = rng.choice(["", "# \xe9\n"]) + f'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset={cs}\\n"\n\nmsgid "a"\nmsgstr "{rng.choice(["x", chr(0xe9), chr(0xc3) + chr(0xa9), chr(0xb1)])}"\n'
        try:
            return t.encode("latin1").decode(), False
        except UnicodeDecodeError:
            return t, True
    else:
        x, k, c = rng.choice(c07.POOL)
        try:
            t = c.encode("latin1").decode()
        except UnicodeDecodeError:
            return c, True
    if rng.random() < 0.15:
        t = c07.damage(rng, t)
    if rng.random() < 0.04:  # bytes that are no UTF-8
        i = rng.randrange(len(t) + 1)
        b = t[:i].encode() + rng.choice([b"\xff", b"\xe9", b"\x80", b"\xc3"]) + t[i:].encode()
        try:
            b.decode()
        except UnicodeDecodeError:
            return b.decode("latin1"), True
    return t, False


def rsens(rng):
    """texts that options make a difference for"""
    w = lambda: rng.choice(["x", "\u2003", " ", "  ", "\u00a0", "y", '"', "'", "\\n", "%d", "%1$s", "{", "}", "\u3000z"])
    t = "".join(w() for _ in range(rng.randrange(1, 8)))
    k = rng.randrange(5)
    if k == 0:
        return "android", '<?xml version="1.0" encoding="utf-8"?>\n<resources><string name="a">' + t.replace("'", "\\'") + "</string></resources>"
    if k == 1:
        q = t.replace('"', "q").replace("\\n", "n")
        o = 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
        for i in range(rng.choice([1, 2, 3])):
            pre = rng.choice(["", "", "#~ "])
            o += f'{pre}msgid "m{i}"\n' + (f'{pre}msgid_plural "ms"\n' + "".join(f'{pre}msgstr[{j}] "{q}{j}"\n' for j in range(rng.choice([2, 3]))) if rng.random() < 0.6 else f'{pre}msgstr "{q}"\n') + "\n"
        return "gettext", o
    if k == 2:
        return "properties", "a = " + t + "\nb=%s\n"
    if k == 3:
        return "xliff", '<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"><file original="f" source-language="en" datatype="x"><body><trans-unit id="a"><source>' + t + "</source>" + rng.choice(["", "<target>T</target>"]) + "</trans-unit></body></file></xliff>"
    return rng.choice(["plain_json", "webext"]), '{"a": {"message": ' + json.dumps(t) + "}}" if rng.random() < 0.5 else '{"a": ' + json.dumps(t) + "}"


KNOWN = {"op": "detect", "name": "a.po", "text": "msgid \"a\"\nmsgstr \"b\u2028c\"\n", "undec": False, "lxml": True}


def gen(rng, n, shard, tier):
    for i in range(n):
        t, undec = rtext(rng)
        name = rng.choice(STEMS) + rng.choice(EXTS + ["", ".json", ".xml", ".txt"] * 3)
        if rng.random() < 0.06:
            f, x = rsens(rng)
            yield {"op": "dispatch", "text": x, "fmt": f, "out": rng.choice(["", f, "fluent", rng.choice([f.name for f in Format])]), "opts": [rng.random() < 0.5 for _ in range(6)], "trim": rng.random() < 0.3}
        elif rng.random() < 0.15 and not undec:
            yield {"op": "dispatch", "text": t, "fmt": rng.choice([f.name for f in Format]), "out": rng.choice([f.name for f in Format] + [""]), "opts": [rng.random() < 0.5 for _ in range(6)], "trim": rng.random() < 0.3}
        else:
            yield {"op": "detect", "name": name, "text": t, "undec": undec, "lxml": rng.random() < 0.8}


def root(b):
    out = {"wf": True, "ns": "", "tag": None}
    m = re.match(rb"(?:\xef\xbb\xbf)?<\?xml(.*?)\?>", b, re.S)
    if m and not re.fullmatch(rb"""\s+version=(['"])1\.0\1(\s+encoding=(['"])(?i:utf-8|iso-8859-1)\3)?\s*""", m[1]):
        return {"wf": False, "ns": "", "tag": ""}
    p = expat.ParserCreate(namespace_separator=" ")
    q = expat.ParserCreate()

    def ns(prefix, uri):
        if prefix is None and out["tag"] is None:
            out["ns"] = uri or ""

    def start(tag, at):
        if out["tag"] is None:
            out["tag"] = tag

    p.StartNamespaceDeclHandler = ns
    q.StartElementHandler = start
    ons = []
    p.StartElementHandler = lambda t, a: ons.append(out["ns"]) if not ons else None
    try:
        q.Parse(b, True)
        tag, out["tag"] = out["tag"], None
        p.Parse(b, True)
        out["tag"] = tag
        out["ns"] = ons[0]
    except (expat.ExpatError, LookupError, ValueError):
        return {"wf": False, "ns": "", "tag": ""}
    return out


def run(f, *a, **k):
    try:
        return hashlib.sha1(repr(f(*a, **k)).encode("utf-8", "surrogatepass")).hexdigest()[:12]
    except Exception as e:
        n = type(e).__name__
        return "!" + (n if n == "UnsupportedFormat" else "ValueError" if isinstance(e, (ValueError, OSError, SyntaxError)) else n)


def execute(case):
    text = case["text"]
    if case["op"] == "dispatch":
        return dispatch(case)
    b = text.encode("latin1") if case["undec"] else text.encode()
    det, parse, _ = lib(not case["lxml"])
    name = case["name"]
    base = os.path.join(os.environ["VERIF_SCRATCH"], "d")
    ctx = contextlib.nullcontext() if case["lxml"] else hidden()
    with ctx:
        srcs = [b] if case["undec"] else [text, b]
        dets = []
        for s in srcs:
            try:
                d = det(name, s)
                dets.append("none" if d is None else d.name)
            except Exception as e:
                dets.append("!" + type(e).__name__)
        bare = det(name)
        fmt = dets[0]
        if fmt == "gettext":
            if case != KNOWN and set(text) & set(WIDE) and not case["undec"]:
                return {"op": "idle"}
            if "charset=" in text and "charset=UTF-8" not in text:
                srcs = [b]
        runs = [run(parse, name, s) for s in srcs]
        if fmt in Format.__members__:
            f2 = type(det("a.ftl"))[fmt]
            runs += [run(parse, f2, s) for s in srcs]
            if case["lxml"]:
                runs += [run(direct(fmt, "parse"), s) for s in srcs]
        fn = os.path.basename(name)
        if "/" not in name and fn not in ("", ".", ".."):
            os.makedirs(base, exist_ok=True)
            p = os.path.join(base, fn)
            with open(p, "wb") as f:
                f.write(b)
            try:
                runs.append(run(parse, p))
            finally:
                os.remove(p)
    return {"op": "detect", "name": cps(name), "src": {"text": [] if case["undec"] else cps(text), "undec": case["undec"], "xml": root(b)},
            "lxml": case["lxml"], "dets": dets, "bare": "none" if bare is None else bare.name, "runs": runs}


def dispatch(case):
    o, t = case["opts"], case["text"]
    kw = {"android_ascii_spaces": o[0], "android_literal_quotes": o[1], "gettext_plurals": ["one", "few", "other"] if o[2] else None, "gettext_skip_obsolete": o[3], "properties_printf_placeholders": o[4], "xliff_source_entries": o[5]}
    own = {"android": {"ascii_spaces": o[0], "literal_quotes": o[1]}, "gettext": {"plurals": kw["gettext_plurals"], "skip_obsolete": o[3]}, "properties": {"printf_placeholders": o[4]}, "xliff": {"source_entries": o[5]}}
    f = case["fmt"]
    pairs, refused = [], []
    if f == "mf2":
        refused.append(run(R.parse_resource, Format.mf2, t))
    else:
        for x in (t, t.encode()):
            pairs.append([run(R.parse_resource, Format[f], x, **kw), run(direct(f, "parse"), x, **own.get(f, {}))])
    d = F.detect_format(None, t)
    try:
        res = R.parse_resource(Format[f] if o[0] or d is None else d, t, **kw)
    except Exception:
        return {"op": "dispatch", "pairs": pairs, "refused": refused}
    out = case["out"] or res.format.name
    skw = {"fluent_escape_syntax": o[1], "gettext_plurals": kw["gettext_plurals"], "xliff_source_entries": o[5]}
    sown = {"fluent": {"escape_syntax": o[1]}, "gettext": {"plurals": kw["gettext_plurals"]}, "xliff": {"source_entries": o[5]}}
    ser = lambda *a, **k: "".join(R.serialize_resource(*a, **k))
    a = run(ser, res, Format[case["out"]] if case["out"] else None, case["trim"], **skw)
    if out == "mf2":
        refused.append(a)
    else:
        pairs.append([a, run(lambda: "".join(direct(out, "serialize")(res, trim_comments=case["trim"], **sown.get(out, {}))))])
        res.format = None
        pairs[-1].append(run(ser, res, Format[out], case["trim"], **skw))
        refused.append(run(ser, res))
    return {"op": "dispatch", "pairs": pairs, "refused": refused}


def kind(case, ev):
    return ev["op"] if ev["op"] != "detect" else f"detect_{ev['dets'][0]}"
