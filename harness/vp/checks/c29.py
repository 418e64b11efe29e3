"""C29: encrypted computation matches computation in the clear (spec: Encrypted.tla)."""
import copy

from vp import core, encgen
from vp.tlc import cfg, run_tlc, validate_traces

INV = ("Slots", "Sums", "Points")


def mc(ops, bug="none"):
    return run_tlc("MC_Encrypted", cfg(constants={"T": 5, "G": 5, "MaxOps": ops, "Bug": f'"{bug}"'}, invariants=INV), workers=8, timeout=3000, heap="8g")


def run(chk):
    chk.spec_ok(mc(chk.n(3, 4)), "MC_Encrypted")
    for b in ("NoSub", "NoMul", "NoCancel", "Residue", "WrongSwap"):
        if mc(3, b).ok:
            raise RuntimeError(f"the model does not notice {b}")
    seeds = [f"C29/{chk.seed}/{i}" for i in range(chk.n(900, 12000))]
    cases = core.pmap(chk, encgen.case, seeds, procs=8)
    seeds = [s for s, c in zip(seeds, cases) if c is not None]
    cases = [c for c in cases if c is not None]
    r, acc, prog = validate_traces("Trace_Encrypted", cases, timeout=3000)
    chk.tlc(r)
    chk.traces += len(acc)
    for t in cases:
        chk.count(t["why"].split()[-1])
        for o in t["ops"]:
            chk.count(f"{o['op']}_{o['out']}")
    chk.sample({"seed": seeds[0], "ops": cases[0]["ops"][:10]})
    for i, t in enumerate(cases, 1):
        if i not in acc:
            at = prog.get(i)
            o = t["ops"][min(at, len(t["ops"])) - 1] if at else {}
            short = [{k: v if len(str(v)) < 300 else str(v)[:300] for k, v in x.items()} for x in t["ops"]]
            chk.violation(f"{o.get('op', t['why'].split()[0])}", {"seed": seeds[i - 1], "at": at, "why": t["why"], "ops": short})
    selftest(cases, acc)


def selftest(cases, acc):
    """Altered recordings must not be accepted."""
    bad, n = [], {}

    def add(what, t, j, f, most=6):
        if n.get(what, 0) < most:
            n[what] = n.get(what, 0) + 1
            c = copy.deepcopy(t)
            f(c["ops"][j])
            bad.append({**c, "why": what})
    for i, t in enumerate(cases, 1):
        if i not in acc or len(str(t)) > 40000:
            continue
        for j, o in enumerate(t["ops"]):
            if o["op"].startswith("bfv.") and o["v"]:
                add(o["op"], t, j, lambda x: x["v"].pop(), 2)
                add(o["op"] + "!", t, j, lambda x: x["v"][0].__setitem__(2, x["v"][0][2] + 1), 2)
            elif o["op"].split(".")[0] in ("phe", "ec") and o["v"]:
                add(o["op"], t, j, lambda x: x["v"].__setitem__(0, x["v"][0] + 1), 2)
            elif o["op"] == "sym.dec":
                add("dec_" + o["out"], t, j, lambda x: x.update(out="ok" if x["out"] != "ok" else "refused", v=[0]), 4)
            elif o["op"] in ("kem.derive", "hkdf", "hash") and any(p["cls"] == o["cls"] for p in t["ops"][:j]):
                add("same_" + o["op"], t, j, lambda x: x.update(cls=9999), 3)
            elif o["op"] in ("kem.derive", "hkdf", "hash", "sym.enc", "kem.keygen"):
                prev = [p["cls"] for p in t["ops"][:j] if p["op"] == o["op"]]
                if prev:
                    add("other_" + o["op"], t, j, lambda x: x.update(cls=prev[0]), 3)
            if o["out"] == "ok" and not o["free"]:
                add("ok", t, j, lambda x: x.update(out="refused"), 4)
    _, a2, _ = validate_traces("Trace_Encrypted", bad, timeout=2000)
    if a2 or not bad:
        raise RuntimeError(f"altered recordings accepted: {[bad[i - 1]['why'] for i in a2][:5]}")
