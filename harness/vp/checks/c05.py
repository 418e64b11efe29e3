"""C05: collectives (spec: Collectives.tla)."""
from vp import collcheck


def run(chk):
    collcheck.run(chk, collcheck.KINDS, 5, chk.n(700, 15000), '{"barrier", "broadcast", "xor"}')
