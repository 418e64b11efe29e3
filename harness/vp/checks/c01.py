"""C01: exactly-once mailbox delivery (spec: Comm.tla)."""
from vp import commcheck


def run(chk):
    commcheck.run(chk, "C01")
