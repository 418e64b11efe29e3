"""C07: multi-party programs mean the same under every schedule (spec: Simp.tla)."""
from vp import simpcheck
from vp.tlc import cfg, run_tlc


def run(chk):
    inv = ("NoDeadlock", "RightValues", "NothingLeft")
    runs = [(3, "FALSE"), (2, "TRUE")] + ([(3, "TRUE")] if chk.thorough else [])
    for np, mid in runs:
        chk.spec_ok(run_tlc("MC_Simp", cfg(constants={"NP": np, "Middle": mid}, invariants=inv), workers=8, timeout=3000, heap="8g"),
                    f"MC_Simp: every pair of routings among {np} parties, predicate comparison in between: {mid}")
    simpcheck.run(chk, "C07", {"worker": chk.n(700, 12000), "driver": chk.n(250, 4000)})
