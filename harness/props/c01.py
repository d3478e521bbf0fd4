from props import c03
from props.c03 import ASSUMPTIONS, CASE_TIMEOUT, JUDGE, MODELS, execute, from_model, kind

VERDICT = "C01Verdict"
QUICK_N, THOROUGH_N = 4000, 40000


def gen(rng, n, shard, tier):
    return c03.gen(rng, n, shard, tier, 0)
