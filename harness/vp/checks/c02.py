"""C02: blocked communication always ends (spec: Comm.tla)."""
from vp import commcheck


def run(chk):
    commcheck.run(chk, "C02")
