"""C08: data moves only along routes; bodies run only where their inputs are (spec: Simp.tla)."""
from vp import simpcheck


def run(chk):
    simpcheck.run(chk, "C08", {"worker": chk.n(600, 12000), "driver": chk.n(350, 6000)})
