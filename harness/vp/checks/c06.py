"""C06: disagreement on a uniform branch (spec: Collectives.tla, kinds uniform and cond)."""
from vp import collcheck


def run(chk):
    collcheck.run(chk, ["uniform", "cond", "cond", "uniform", "barrier", "allgather"], 4, chk.n(600, 12000), '{"uniform", "barrier"}')
