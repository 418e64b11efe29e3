"""C27: private set intersection reports exactly membership (spec: Mpc.tla)."""
from vp.checks.c26 import other, play, selftest, spill
from vp.tlc import cfg, run_tlc


def mc(f, bug="none"):
    return run_tlc("MC_MpcPsi", cfg(constants={"F": f, "M": 2, "Items": "{1, 2, 3}", "Bug": f'"{bug}"'}, invariants=("Members", "Others")), workers=8, timeout=3000, heap="10g")


ALTER = {
    "psi": [("one", lambda c: c["out"].__setitem__(0, 1 - c["out"][0])), ("last", lambda c: c["out"].__setitem__(-1, 1 - c["out"][-1])), ("short", lambda c: c["out"].pop()),
            ("item", lambda c: 1 in c["out"] and other(c["b"], c["out"].index(1))), ("only", lambda c: c.update(only=False)), ("leak", spill),
            ("order", lambda c: c["out"] != c["out"][::-1] and c.update(out=c["out"][::-1]))],
    "okvs": [("value", lambda c: not c["twice"] and other(c["got"])), ("refused", lambda c: c.update(refused=not c["refused"])), ("size", lambda c: c.update(size=False))],
    "cuckoo": [("item", lambda c: c["ok"][0] and other(c["at"])), ("look", lambda c: c["ok"][0] and c["look"].__setitem__(0, [-5])), ("used", lambda c: c.update(used=c["used"] + 1))],
    "prf": [("a", lambda c: c["x"][0] == c["y"][0] and other(c["a"])), ("b", lambda c: c["x"] != c["y"] and c.update(b=c["a"])), ("only", lambda c: c.update(only=False))],
}


def run(chk):
    chk.spec_ok(mc(chk.n(2, 3)), "MC_MpcPsi")
    for b in ("NoMask", "NoHash"):
        if mc(2, b).ok:
            raise RuntimeError(f"the model does not notice {b}")
    plan = [("intersect", chk.n(18, 160), {"which": "rr22"}), ("oprf", chk.n(4, 40), {}), ("intersect", chk.n(140, 1500), {"which": "unbalanced"}), ("okvs", chk.n(160, 2500), {}), ("okvs", chk.n(80, 800), {"n": 1000}), ("cuckoo", chk.n(40, 600), {})]
    if chk.thorough:
        plan += [("okvs", 6, {"n": n}) for n in (9_999, 10_001, 100_001, 1_000_000)]
    selftest(play(chk, plan), ALTER)
