"""C10: failures reach the caller and release everybody (specs: Failure.tla, Simp.tla)."""
from vp import sched

sched.install()

import copy
import os
import random
import threading

from vp import core, faults, httpsim, simpgen, simprun
from vp.tlc import cfg, run_tlc, validate_traces


def uids(g):
    for b, i, _ in simpgen.statements(g):
        if b[i]["k"] == "op":
            yield b[i]["uid"]


_slow = [0]  # requests of this worker process that left somebody waiting: a broken tree is not searched to the end


def one(seed, kind):
    if _slow[0] >= 2:
        return None
    rng = random.Random(seed)
    m = simpgen.Machine(rng)
    while True:
        case = simpgen.draw(rng, size=rng.choice([2, 3, 4, 6]))
        try:
            tf, types = simprun.trace_program(m, case)
        except simpgen.BadProgram:
            continue
        if tf is not None:
            break
    world = case["world"]
    # which operations run at all (a run without faults)
    dry = simprun.Sim(world)
    try:
        r, _, _ = simprun.driver_run(rng, m, case, "eager", dry)
    finally:
        dry.close()
    if r["out"] == "error":
        return None  # a declared-uniform predicate that is not: C06
    plan, slow = [], []
    if rng.random() < 0.8:
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choices(["op", "send", "recv", "put", "get"], [6, 1, 1, 1, 1])[0]
            if k == "op" and r["log"] and rng.random() < 0.8:
                plan.append(("op", *rng.choice(r["log"])))
            elif k == "op":
                u = list(uids(case["prog"]))
                if u:
                    plan.append(("op", rng.randrange(world), rng.choice(u)))
            else:
                plan.append((k, rng.randrange(world), rng.choice([0, 0, 1, 2, 3, 5])))
    for x in r["log"]:
        if rng.random() < 0.08 and len(slow) < 4:
            slow.append((tuple(x), rng.choice([0.01, 0.05, 0.15])))
    f = faults.Faults(rng, plan, slow)
    sim = simprun.Sim(world, faults=f) if kind == "mem" else httpsim.HttpSim(world, faults=f, recv_timeout=6.0)
    mode = rng.choice(["eager", "compiled", "evaluate"])
    box = {}

    def call():
        try:
            f.armed = True
            box["r"] = simprun.driver_run(rng, m, case, mode, sim, get="fetch", anyerr=bool(plan))
            f.armed = False
        except BaseException as e:
            box["x"] = e

    t = threading.Thread(target=call, daemon=True)
    t.start()
    t.join(25 if kind == "mem" else 45)
    rec = {"world": world, "inputs": case["inputs"], "accepted": True, "types": types, "prog": simpgen.clean(case["prog"]), "runs": []}
    if t.is_alive():
        _slow[0] += 1
        for p in sim.proxies:
            p.shutdown()
        return {"seed": seed, "rec": rec, "hang": True, "ev": f.ev, "plan": plan, "info": "the caller did not return", "kind": kind}
    if "x" in box:
        raise box["x"]
    run, _, info = box["r"]
    f.event("ret", 0, 0 if run["out"] == "ok" else 1)
    left = f.quiet(10)
    f.event("end", 0, left)
    run["fail"] = [[r_, n] for k, r_, n in plan if k == "op"]
    run["other"] = any(h[0] != "op" for h in f.hit)
    rec["runs"].append(run)
    if left:
        _slow[0] += 1
        for p in sim.proxies:
            try:
                p.shutdown()
            except Exception:
                pass
    else:
        sim.close()
    return {"seed": seed, "rec": rec, "hang": False, "ev": f.ev, "plan": plan, "hit": f.hit, "info": info, "kind": f"{kind}/{mode}", "refs": info["refs"]}


def run(chk):
    import mplang.backends  # noqa: F401

    os.environ["SIMP_ASPECT"] = "C10"
    inv, props = ("NoPartialResult", "ErrorHasACause"), ("CallerLearns", "FailureReported", "EverybodyEnds")
    for mode in ("mem", "http"):
        for n, ms in [(2, 3), (3, 2)] + ([(2, 4), (3, 3)] if chk.thorough else []):
            chk.spec_ok(run_tlc("MC_Failure", cfg(constants={"N": n, "MaxSteps": ms, "MaxFail": 2, "Mode": f'"{mode}"'}, invariants=inv, properties=props),
                                workers=8, timeout=3000, heap="8g"), f"MC_Failure: {mode}, {n} parties, every program of up to {ms} steps, up to 2 failures")
    jobs = [(f"{chk.seed}-c10-{k}-{i}", k) for k, n in (("mem", chk.n(420, 8000)), ("http", chk.n(90, 1500))) for i in range(n)]
    out = [x for x in core.pmap(chk, lambda j: one(*j), jobs, limit=90) if x is not None]
    for x in out:
        chk.count("requests_" + x["kind"].split("/")[0])
        chk.count("faults_injected", len(x.get("hit", [])))
        if x["hang"]:
            chk.violation(f"hang:{x['seed']}", x)
        elif x["refs"]:
            chk.violation(f"refs:{x['seed']}", {"problem": x["refs"], "case": x})
    out = [x for x in out if not x["hang"]]
    traces = [{"world": x["rec"]["world"], "ev": x["ev"]} for x in out]
    r1, acc1, at1 = validate_traces("Trace_Failure", traces)
    r2, acc2, at2 = validate_traces("Trace_Simp", [x["rec"] for x in out])
    chk.tlc(r1)
    chk.tlc(r2)
    chk.traces += len(acc1 & acc2)
    chk.sample({k: out[0][k] for k in ("seed", "kind", "plan", "ev", "info")})
    for i, x in enumerate(out, 1):
        if i not in acc1:
            chk.violation(f"failure-trace:{x['seed']}", {"rejected_event": at1.get(i), "trace": x["ev"], "plan": x["plan"], "hit": x["hit"], "info": x["info"], "kind": x["kind"], "program": x["rec"]["prog"]})
        elif i not in acc2:
            chk.violation(f"outcome:{x['seed']}", {"run": x["rec"]["runs"], "specification": r2.diag.get(i), "plan": x["plan"], "hit": x["hit"], "info": x["info"], "kind": x["kind"],
                          "program": x["rec"]["prog"], "inputs": x["rec"]["inputs"]})
    # binding self-test: altered recordings are rejected
    bad1, bad2 = [], []
    for x in out:
        e = copy.deepcopy(x["ev"])
        if any(y["e"] == "fail" for y in e) and len(bad1) < 6:
            for y in e:
                if y["e"] == "ret":
                    y["v"] = 0
            bad1.append({"world": x["rec"]["world"], "ev": e})
        if len(bad2) < 6:
            t = copy.deepcopy(x["rec"])
            rr = t["runs"][0]
            if rr["out"] == "ok":
                rr["vals"][0][0] += 1
            else:
                rr["out"], rr["vals"] = "ok", [[-1] * t["world"]]
            bad2.append(t)
    _, a1, _ = validate_traces("Trace_Failure", bad1)
    _, a2, _ = validate_traces("Trace_Simp", bad2)
    if a1 or a2 or not bad1:
        raise RuntimeError(f"binding self-test failed: {a1} {a2}")
    chk.extra["corrupted_traces_rejected"] = len(bad1) + len(bad2)
