from props import c04
from props.c04 import ASSUMPTIONS, CASE_TIMEOUT, JUDGE, MODELS, kind

VERDICT = "CoverageVerdict"
QUICK_N, THOROUGH_N = 5000, 50000


def from_model(c):
    return c04.from_model(c) + c04.from_model(c, True)


def gen(rng, n, shard, tier):
    for i, (a, b) in enumerate(zip(c04.gen(rng, n, shard, tier), c04.gen(rng, n, shard, tier, True))):
        if i >= n // 2:
            break
        yield {**a, "cov": i % 8 > 0}
        yield b


def execute(case):
    return c04.execute(case, bool(case["steps"]))
