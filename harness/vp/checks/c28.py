"""C28: oblivious permutation and group-by compute the plain answer (spec: Mpc.tla)."""
import itertools

from vp.checks.c26 import other, play, selftest, spill
from vp.tlc import cfg, run_tlc


def mc(n, h, bug="none"):
    return run_tlc("MC_MpcPerm", cfg(constants={"MaxN": n, "H": h, "Z": 3, "Bug": f'"{bug}"'}, invariants=("PermRight", "RotRight", "ShareRight")), workers=8, timeout=3000, heap="12g")


def swap(c):
    for i in range(len(c["d"]) - 1):
        if c["out"][i] != c["out"][i + 1]:
            c["out"][i], c["out"][i + 1] = c["out"][i + 1], c["out"][i]
            return True
    return False


ALTER = {
    "perm": [("swap", swap), ("one", lambda c: other(c["out"])), ("short", lambda c: c["out"].pop()), ("only", lambda c: c.update(only=False)), ("leak", spill)],
    "switch": [("y0", lambda c: c["x0"] != c["x1"] and c.update(y0=c["y1"])), ("y1", lambda c: other(c["y1"]))],
    "group": [("sum", lambda c: c["out"].__setitem__(0, c["out"][0] + 1)), ("short", lambda c: c["out"].pop()), ("leak", spill), ("only", lambda c: c.update(only=False)),
              ("order", lambda c: c["out"] != c["out"][::-1] and c.update(out=c["out"][::-1]))],
    "agg": [("sum", lambda c: c["out"][0].__setitem__(1, c["out"][0][1] + 1)), ("short", lambda c: c["out"].pop())],
}


def run(chk):
    chk.spec_ok(mc(chk.n(7, 8), chk.n(4, 8)), "MC_MpcPerm")
    for b in ("NoInverse", "AllRising", "NoSwap", "Floor", "PermBins"):
        if mc(4, 4, b).ok:
            raise RuntimeError(f"the model does not notice {b}")
    plan = [("permute", 1, {"perm": list(p)}) for n in range(1, chk.n(4, 5) + 1) for p in itertools.permutations(range(n))]
    plan += [("permute", chk.n(40, 500), {}), ("switch", chk.n(20, 200), {}), ("grouped", chk.n(30, 300), {"which": "shuffle"}), ("grouped", chk.n(40, 400), {"which": "bfv"}),
             ("aggregate", chk.n(120, 2000), {})]
    selftest(play(chk, plan), ALTER)
