from core import Model
from proj import cps
from moz.l10n.paths import get_android_locale, parse_android_locale

JUDGE, VERDICT = "J_AndroidLocale", "LocaleVerdict"
MODELS = [Model("MC_AndroidLocale", workers=2, emit=True, thorough_cfg="MC_AndroidLocale_T")]
QUICK_N, THOROUGH_N = 24000, 300000
ASSUMPTIONS = ["a tag is a 2-3 letter language code (not one of the three legacy codes) with any alphanumeric subtags of up to eight characters"]


def from_model(c):
    s = "".join(map(chr, c["s"]))
    return [{"op": c["kind"], "s": s}] + ([{"op": "qual", "s": s}] if c["kind"] == "tag" else [])


def gen(rng, n, shard, tier):
    lo, up, dg = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"
    langs = ["he", "id", "yi", "iw", "in", "ji", "en", "sr", "fil", "kab", "ind"]
    def lang():
        return rng.choice(langs) if rng.random() < 0.6 else "".join(rng.choice(lo) for _ in range(rng.choice([2, 2, 3])))
    def sub():
        k = rng.randrange(7)
        if k <= 1:
            return "".join(rng.choice(up) for _ in range(2))
        if k == 2:
            return rng.choice(["Latn", "Cyrl", "Hant", "Arab"])
        if k == 3:
            return "".join(rng.choice(dg) for _ in range(3))
        if k == 4:
            return rng.choice(["valencia", "tarask", "1996", "x", "rGB", "rUS", "iw", "in", "he"])
        return "".join(rng.choice(lo + up + dg) for _ in range(rng.randrange(1, 9)))
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            yield {"op": "tag", "s": "-".join([lang()] + [sub() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))])}
        else:
            t = "-".join([lang()] + [sub() for _ in range(rng.choice([0, 1, 1, 2, 3]))])
            k = rng.randrange(6)
            q = t if k == 0 else "b+" + t.replace("-", "+") if k <= 2 else t.replace("-", "-r", 1)
            if rng.random() < 0.5:
                i = rng.randrange(len(q) + 1)
                j = min(len(q), i + rng.choice([0, 0, 1]))
                q = q[:i] + rng.choice(["", "+", "-", "-r", "r", "b+", "\n", " ", "é", "A", "z", "_", "٣", "ſ"]) + q[j:]
            yield {"op": "qual", "s": q}


def execute(case):
    s = case["s"]
    try:
        if case["op"] == "tag":
            q = get_android_locale(s)
            back = parse_android_locale(q)
            return {"op": "tag", "raised": False, "tag": cps(s), "to": cps(q), "back": cps(back)}
        out = parse_android_locale(s)
        return {"op": "qual", "raised": False, "q": cps(s), "out": cps(out)}
    except Exception:
        return {"op": case["op"], "raised": True}


def kind(case, ev):
    return case["op"] + ("" if case["op"] == "tag" else ":rejected" if ev.get("out") == [-1] else ":accepted")
