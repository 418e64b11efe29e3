"""C09: placement is checked when programs are built (spec: Simp.tla, typing)."""
from vp import simpcheck


def run(chk):
    simpcheck.run(chk, "C09", {"typing": chk.n(2500, 40000), "worker": chk.n(250, 4000), "driver": chk.n(100, 2000)})
