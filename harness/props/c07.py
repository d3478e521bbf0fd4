import glob, logging, os, shutil
from core import Model
from click.testing import CliRunner
import moz.l10n.bin
from moz.l10n.bin.fix import fix
from moz.l10n.bin.lint import lint
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.paths.config import L10nConfigPaths
from moz.l10n.paths.discover import L10nDiscoverPaths
from moz.l10n.resource import parse_resource, serialize_resource

JUDGE, VERDICT = "J_Fix", "FixVerdict"
MODELS = [Model("MC_Fix", workers=2, emit=True, thorough_cfg="MC_Fix_T")]
QUICK_N, THOROUGH_N = 20000, 300000
ASSUMPTIONS = ["what a content parses and serializes to is recorded from parse_resource and serialize_resource (C15-C24 are about these), and for the pool of contents is known beforehand",
               "the order of the files matched by a glob expression is that of the standard library", "no write fails, no concurrent change of a file"]
L10N = (".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml")

PO = 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
XL = '<?xml version="1.0" encoding="utf-8"?>\n<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2">\n  <file original="f" source-language="en" datatype="plaintext">\n    <body>\n      <trans-unit id="a">\n        <source>A</source>\n      </trans-unit>\n    </body>\n  </file>\n</xliff>\n'
AN = '<?xml version="1.0" encoding="utf-8"?>\n<resources>\n  <string name="a">A</string>\n</resources>\n'
# extension, kind, content
POOL = [
    (".ftl", "canonical", "a = A\n"), (".ftl", "canonical", "# C\na = A { $x }\n"), (".ftl", "other", "a=A"), (".ftl", "other", "a =\n    A\nb = B"), (".ftl", "canonical", ""),
    (".ftl", "other", "a = { $n ->\n *[x] X\n}\n"), (".ftl", "other", "\n\n# comment\n\n\na = \xe9"),
    (".ftl", "fail", "= x\n"), (".ftl", "fail", "a = { x"), (".ftl", "fail", "a = { 1 -> }"),
    (".dtd", "canonical", '<!ENTITY a "A">\n'), (".dtd", "other", "<!ENTITY a 'A'>"), (".dtd", "other", '<!ENTITY  a  "A" ><!-- c -->'), (".dtd", "fail", "<!ENTITY a>"), (".dtd", "fail", "junk"),
    (".properties", "canonical", "a = A\n"), (".properties", "other", "a:A"), (".properties", "other", "a = \\\n  A \\u00e9\r\n"),
    (".ini", "canonical", "[S]\na=A\n"), (".ini", "other", "[S]\na = A"), (".ini", "fail", "a = A\n"), (".ini", "fail", "[S\na"),
    (".inc", "canonical", "#define a A\n\n"), (".inc", "other", "#define a  A\n\n\n"), (".inc", "fail", "a A\n"),
    (".json", "canonical", '{\n  "a": "A"\n}\n'), (".json", "other", '{"a": {"b": "B"}}'), (".json", "unsup", "[1]"), (".json", "unsup", '{"a": 1}'), (".json", "unsup", "{"), (".json", "other", '{"a": {"message": "M"}}'),
    (".json", "fail", '{"a": {"message": "$x$"}}'), (".json", "other", '{"a": {"message": "M"} // c\n}'),
    (".po", "other", PO + 'msgid "a"\nmsgstr "A"'), (".po", "serfail", PO + 'msgid "b"\nmsgstr "B"\n\nmsgid ""\nmsgstr "A"\n'), (".po", "canonical", '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\nmsgid "a"\nmsgstr "A"\n'), (".po", "fail", 'msgid "a"\nfoo\n'), (".pot", "other", PO + 'msgid "a"\nmsgstr ""'), (".po", "fail", 'junk\n'),
    (".xliff", "canonical", XL), (".xlf", "other", XL.replace("\n", "").replace("  ", "")), (".xliff", "fail", "<xliff"), (".xliff", "fail", "junk"),
    (".xml", "canonical", AN), (".xml", "other", AN.replace("\n", "")), (".xml", "unsup", "<x/>"), (".xml", "unsup", "junk"), (".xml", "fail", AN.replace("string", "strong")),
    (".txt", "unsup", "a = A\n"), ("", "unsup", "x"), (".md", "unsup", ""), (".js", "unsup", "//"),
]
UNDEC = [(".txt", "unsup", "a = \xff\xfe")] + [(x, "undec", "a = \xff\xfe") for x in (".ftl", ".dtd", ".properties", ".ini", ".inc")]
POOL = [(x, k, c.encode().decode("latin1")) for x, k, c in POOL] + UNDEC
BYKIND = {}
for _x in POOL:
    BYKIND.setdefault(_x[1], []).append(_x)
OP = "fix"


def from_model(c, op="fix"):
    files = []
    for i, k in enumerate(c["kinds"]):
        ps = BYKIND[k] + (BYKIND["serfail"] if k == "fail" and op == "fix" else [])
        x = ps[(7 * i + 3 * len(c["order"]) + sum(c["order"]) + len(c["kinds"])) % len(ps)]
        files.append([f"f{i}" + x[0], x[2], x[1]])
    return [{"op": op, "mode": "paths", "files": files, "pats": [files[p - 1][0] for p in c["order"]], "flag": c["cont"], "cli": False, "abs": False}]


def damage(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        x = rng.random()
        s = s[:i] + s[i + 1:] if x < 0.4 else s[:i] + rng.choice(list("\n =\"'<>{}[]#:\\a%$&;-") + ["\r\n", "\n\n", " \n", "\xc3\xa9"]) + s[i:]
    return s


DIRS = ["", "", "sub/", "sub/deep/", "x.ftl/"]


def gen(rng, n, shard, tier, op="fix"):
    for _ in range(n):
        mode = rng.choice(["paths"] * 5 + ["dir", "ref", "config", "config"] + (["none", "both"] if rng.random() < 0.2 else []))
        files, used = [], set()
        pre = "en-US/" if mode in ("ref", "config") else ""
        if rng.random() < 0.5:  # mostly good
            kinds = ["canonical", "canonical", "other", "other", "other", "unsup"]
        else:
            kinds = ["canonical", "other", "unsup", "undec", "fail", "serfail"]
        for i in range(rng.choice([1, 1, 2, 3, 4, 6])):
            ext, k, c = rng.choice(BYKIND[rng.choice(kinds)])
            if rng.random() < 0.3:
                c, k = damage(rng, c), ""
            if rng.random() < 0.04:
                ext, k = rng.choice(L10N), ""
            p = pre + rng.choice(DIRS) + rng.choice(["a", "b", "c", "d.e", "messages", "f\xe9", "a b", "strings"]) + ext
            if rng.random() < 0.04 and mode != "config":
                p = os.path.dirname(p) + ("/" if "/" in p else "") + "." + os.path.basename(p)
            if p not in used and not any(u.startswith(p + "/") or p.startswith(u + "/") for u in used):
                used.add(p)
                files.append([p, c, k])
        if not files:
            continue
        if mode == "ref":
            files += [[rng.choice(["fr/", "de/", ""]) + f"o{i}" + x[0], x[2], x[1]] for i, x in enumerate(rng.sample([x for x in POOL if x[0] != ".pot"], 2))]
        pats = [f[0] for f in files]
        rng.shuffle(pats)
        if rng.random() < 0.3:
            pats.append(rng.choice(pats))
        if rng.random() < 0.4:
            pats = [rng.choice(["*", "**", "*.ftl", "**/*", "**/*.ftl", "sub/*", "sub", "sub/**", "[ab].*", "missing.ftl", "*.json", "./*", "x.ftl", rng.choice(pats)]) for _ in range(rng.choice([1, 1, 2]))]
        yield {"op": op, "mode": mode, "files": files, "pats": pats, "flag": rng.random() < 0.5, "cli": rng.random() < 0.1, "abs": rng.random() < 0.3,
               "extra": [rng.choice(["en-US/missing.ftl", "en-US/a.dtd", "en-US/sub/b.ftl", "en-US/c.ini"])] if rng.random() < 0.3 else []}


def hidden(p):
    return any(x.startswith(".") for x in p.split("/"))


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


def execute(case):
    root = os.path.join(os.environ["VERIF_SCRATCH"], "t")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        return _execute(case, os.path.realpath(root))
    finally:
        os.chdir("/")


def _execute(case, root):
    os.chdir(root)
    op, mode = case["op"], case["mode"]
    paths = []
    for p, c, k in case["files"]:
        os.makedirs(os.path.join(root, os.path.dirname(p)), exist_ok=True)
        with open(os.path.join(root, p), "wb") as f:
            f.write(c.encode("latin1"))
        paths.append(p)
    exp = {p: k for p, c, k in case["files"]}
    cfg = None
    if mode in ("config", "both"):
        cfg = os.path.join(root, "cfg.toml")
        ents = ["en-US/**/*.ftl"] + sorted({f"en-US/**/*{os.path.splitext(p)[1]}" for p in paths if os.path.splitext(p)[1] not in ("", ".ftl")}) + case.get("extra", [])
        with open(cfg, "w") as f:
            f.write('locales = ["fr"]\n' + "".join(f'[[paths]]\nreference = "{e}"\nl10n = "{e.replace("en-US", "{locale}")}"\n' for e in ents))
    # the arguments, and the files that they name in order
    want = None
    if mode == "none":
        args, order = [], []
    elif mode in ("paths", "both"):
        args = [os.path.join(root, p) for p in case["pats"]] if case["abs"] else list(case["pats"])
        if len(args) == 1 and os.path.isdir(args[0]):
            mode = "dir1"
            sub = case["pats"][0] + "/"
            want = {p for p in paths if p.startswith(sub) and not hidden(p)}
            if not any(p.endswith(L10N) for p in want):
                return {"op": "idle"}
            order = list(L10nDiscoverPaths(os.path.abspath(args[0]), ref_root=".").ref_paths)
        else:
            order = [p for a in args for p in glob.glob(a, recursive=True) if not os.path.isdir(p)]
    elif mode in ("dir", "ref"):
        args = [root if case["abs"] else "."]
        if not any(p.endswith(L10N) and not hidden(p) for p in paths if mode == "dir" or p.startswith("en-US/")):
            return {"op": "idle"}
        order = list(L10nDiscoverPaths(root, ref_root=".").ref_paths)
        want = {p for p in paths if not hidden(p) and (mode == "dir" or p.startswith("en-US/"))}
    else:
        args = []
        order = list(L10nConfigPaths(cfg).ref_paths)
        want = {p for p in paths if os.path.splitext(p)[1] and p.startswith("en-US/") and not hidden(p)} | set(case.get("extra", []))
    rel = [os.path.relpath(os.path.join(root, p), root) for p in order]
    allfound = want is None or want == set(rel)
    paths += [p for p in dict.fromkeys(rel) if p not in exp]
    ids, blobs, tab = {None: 1}, [None], [{"cls": "fail", "canon": 1}]

    def cid(b):
        if b not in ids:
            blobs.append(b)
            ids[b] = len(blobs)
        return ids[b]

    def read():
        out = []
        for p in paths:
            try:
                with open(os.path.join(root, p), "rb") as f:
                    out.append(f.read())
            except FileNotFoundError:
                out.append(None)
        return out

    def classify(p, b):
        try:
            if b is None:
                return "fail", b
            r = parse_resource(os.path.join(root, p), b)
            if op == "lint":
                return "ok", b
            return "ok", "".join(serialize_resource(r)).encode()
        except UnsupportedFormat:
            return "unsup", b
        except UnicodeDecodeError:
            return "undec", b
        except Exception:
            return "fail", b

    # contents are told apart by the path too, as that names the format
    def entry(p, b, depth=0):
        k = (p, b)
        if k in ids:
            return ids[k]
        blobs.append(k)
        n = ids[k] = len(blobs)
        tab.append(None)
        cls, c = classify(p, b)
        tab[n - 1] = {"cls": cls, "canon": entry(p, c, depth + 1) if cls == "ok" and op == "fix" and depth < 4 else n}
        return n

    b0 = read()
    before = [entry(p, b) for p, b in zip(paths, b0)]
    asexp = all(not exp.get(p) or b is None or (tab[n - 1]["cls"] == (exp[p] if exp[p] != "serfail" else "ok" if op == "lint" else "fail") if exp[p] not in ("canonical", "other") else tab[n - 1]["cls"] == "ok" and (op == "lint" or (tab[n - 1]["canon"] == n) == (exp[p] == "canonical")))
                for p, b, n in zip(paths, b0, before))
    logger = logging.getLogger("moz.l10n.bin." + op)
    h = Log()
    logger.addHandler(h)
    logger.setLevel(logging.INFO)
    logger.propagate = False

    def call():
        try:
            if case["cli"]:
                a = [op] + (["--config", cfg] if cfg else []) + ((["--continue"] if op == "fix" else ["-u"]) if case["flag"] else []) + ["--"] + args
                r = CliRunner().invoke(moz.l10n.bin.cli, a)
                return r.exit_code, "" if r.exception is None or isinstance(r.exception, SystemExit) else type(r.exception).__name__
            return (fix(args, cfg, case["flag"]) if op == "fix" else lint(args, config_path=cfg, skip_unknown=case["flag"])), ""
        except Exception as e:
            return -1, type(e).__name__
    try:
        code, crash = call()
        a1 = read()
        ev = {"op": op, "args": case["mode"] not in ("none", "both"), "crash": crash, "exit": code, "before": before, "after": [entry(p, b) for p, b in zip(paths, a1)], "asexpected": asexp, "allfound": allfound}
        msgs = list(h.msgs)
        if op == "fix":
            code2, crash2 = call()
            ev.update(cont=case["flag"], crash=crash or crash2, exit2=code2, second=[entry(p, b) for p, b in zip(paths, read())], order=[paths.index(p) + 1 for p in rel], tab=tab)
        else:
            seen = dict.fromkeys(rel)
            ev.update(skip=case["flag"], files=[{"cls": tab[before[paths.index(p)] - 1]["cls"], "l10n": os.path.splitext(p)[1] in L10N, "reported": sum(os.path.basename(p) in m for m in msgs) >= sum(os.path.basename(q) == os.path.basename(p) for q in seen)} for p in seen])
        if os.environ.get("VERIF_DEBUG"):
            ev["dbg"] = [repr(want), repr(rel), repr(msgs), repr(blobs)]
        return ev
    finally:
        logger.removeHandler(h)


def kind(case, ev):
    return ev["op"] if ev["op"] == "idle" else f"{case['mode']}_exit{ev['exit']}"
