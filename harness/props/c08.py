from props import c07
from props.c07 import JUDGE, VERDICT, MODELS, execute, kind

QUICK_N, THOROUGH_N = 25000, 400000
ASSUMPTIONS = ["whether a content parses is recorded from parse_resource (C15-C24 are about this), and for the pool of contents is known beforehand"]


def from_model(c):
    return c07.from_model(c, "lint")


def gen(rng, n, shard, tier):
    return c07.gen(rng, n, shard, tier, "lint")
