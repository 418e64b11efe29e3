"""C26: oblivious transfer and VOLE give each side exactly its share (spec: Mpc.tla)."""
import copy
import shutil

from vp import core, mpcgen
from vp.tlc import cfg, run_tlc, validate_traces

INV = ("NpRight", "NpChoice", "NpMessage", "IkRight", "IkMessage", "IkChoice", "GiRight", "ExRight")


def mc(q, k, bug="none"):
    return run_tlc("MC_MpcOt", cfg(constants={"Q": q, "K": k, "N": 2, "F": 2, "Bug": f'"{bug}"'}, invariants=INV), workers=8, timeout=3000, heap="8g")


def play(chk, plan, limit=400):
    """Runs of the listed protocols; half of them with the compiled kernels of the working tree."""
    d = core.scratch()
    try:
        return played(chk, plan, limit, mpcgen.build_kernels(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def played(chk, plan, limit, native):
    chk.count("native" if native else "no_native")
    jobs = []
    for name, k, kw in plan:
        jobs += [(name, f"{chk.pid}/{chk.seed}/{name}/{kw}/{i}", kw, native if i % 2 else None) for i in range(k)]
    cases = core.pmap(chk, mpcgen.case, jobs, procs=8, limit=limit)
    r, acc, _ = validate_traces("Trace_Mpc", cases, timeout=3000)
    chk.tlc(r)
    chk.traces += len(acc)
    for c in cases:
        chk.count("_".join(c["why"].split()[:1]))
        chk.count(c["why"].split()[-2] + "_" + c["why"].split()[-1])
    if cases:
        chk.sample({"job": cases[0]["job"], "case": str(cases[0])[:600]})
    for i, c in enumerate(cases, 1):
        if i not in acc:
            what = "failed" if c["failed"] else ",".join(c.get("leaks", [])) or "wrong"
            chk.violation(f"{c['job'][0]}:{what}", {"job": c["job"], "why": c["why"], "case": {k: v if len(str(v)) < 1500 else str(v)[:1500] for k, v in c.items() if k != "job"}})
    return [c for i, c in enumerate(cases, 1) if i in acc]


def selftest(good, alter):
    """Altered recordings must not be accepted. alter: kind -> list of (name, f(case) or None if not applicable)."""
    bad = []
    for kind, fs in alter.items():
        for name, f in fs:
            n = 0
            for c in good:
                if c["kind"] == kind and n < 3:
                    d = copy.deepcopy(c)
                    if f(d) is not False:
                        n += 1
                        bad.append({**d, "why": f"{kind} {name}"})
    if not bad:
        if good:
            raise RuntimeError("nothing to alter")
        return
    _, a2, _ = validate_traces("Trace_Mpc", bad, timeout=2000)
    if a2:
        raise RuntimeError(f"altered recordings accepted: {[bad[i - 1]['why'] for i in a2][:5]}")


def other(xs, i=0):
    xs[i] = xs[i] + "x"


def flip(c):
    for i, (a, b) in enumerate(zip(c["m0"], c["m1"])):
        if a != b:
            c["c"][i] = 1 - c["c"][i]
            return True
    return False


def spill(c):
    c["leaks"] = ["choice"]


def route(c):
    c["routes"].append([c["s"], 99])


ALTER = {
    "ot": [("choice", flip), ("out", lambda c: other(c["out"])), ("short", lambda c: c["out"].pop()), ("only", lambda c: c.update(only=False)), ("leak", spill),
           ("route", route), ("keys", lambda c: c.update(keys=len(c["c"]) + 1))],
    "vole": [("w", lambda c: len(c["w"]) > 0 and c["w"].__setitem__(0, sorted(set(c["w"][0]) ^ {77}))), ("len", lambda c: c["lens"].__setitem__(1, c["n"] + 1)),
             ("given", lambda c: c.update(given=False)), ("leak", spill), ("noise", lambda c: c.update(noise=65)), ("same", lambda c: c.update(same=c["n"] - 1)),
             ("d", lambda c: any(c["u"]) and c.update(d=sorted(set(c["d"]) ^ {3})))],
    "field": [("mul", lambda c: c["mul"].__setitem__(0, sorted(set(c["mul"][0]) ^ {127}))), ("add", lambda c: c["add"].__setitem__(0, sorted(set(c["add"][0]) ^ {64})))],
}


def run(chk):
    chk.spec_ok(mc(5, chk.n(2, 3)), "MC_MpcOt")
    chk.spec_ok(mc(7, 2), "MC_MpcOt")
    for b in ("Plain", "SameKey", "WrongU", "NoMask", "NoCorrect", "Powers", "AllTerms", "OtherMask"):
        if mc(5, 2, b).ok:
            raise RuntimeError(f"the model does not notice {b}")
    plan = [("transfer", chk.n(160, 1500), {}), ("extension", chk.n(12, 100), {}), ("vole", chk.n(8, 60), {"which": "gilboa"}), ("vole", chk.n(8, 60), {"which": "silent"}),
            ("vole", chk.n(2, 16), {"which": "silver"}), ("field", chk.n(60, 800), {})]
    plan = sorted(plan, key=lambda p: p[0] in ("transfer", "field"))
    selftest(play(chk, plan), ALTER)
