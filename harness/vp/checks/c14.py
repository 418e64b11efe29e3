"""C14: parallel and sequential evaluation of program graphs (spec: DagEval.tla)."""
from vp import sched

sched.install()

import concurrent.futures
import copy
import random

from vp import core, graphgen
from vp.tlc import cfg, run_tlc, validate_traces


def scenario(rng):
    from mplang.runtime.interpreter import Interpreter

    mode = rng.choice(["async", "async", "async", "sync"])
    fails = rng.random() < 0.35
    size = rng.choice([2, 4, 6, 9])
    g = graphgen.gen(rng, [0], depth=rng.choice([0, 1, 2]), max_ops=size, p_async=rng.choice([0.2, 0.6, 1.0]), p_fail=rng.choice([0.05, 0.15, 0.3]) if fails else 0.0)
    if rng.random() < 0.06:
        g = {"nin": g["nin"], "ops": [], "outs": [rng.randrange(0, g["nin"]) for _ in range(rng.randrange(0, 3))]}
    graph = graphgen.build(g)
    workers = rng.choice([1, 2, 3, 5])
    out = {}

    def main():
        s = sched._current

        def alive():
            if s.aborting:
                raise sched.SchedAbort

        run = graphgen.Run(check_abort=alive)
        out["run"] = run
        pool = concurrent.futures.ThreadPoolExecutor(max_workers=workers) if mode == "async" else None
        interp = Interpreter(executor=pool, handlers=run.handlers(), owns_executor=False)
        interp.async_ops = {graphgen.AOP}
        reps = rng.choice([1, 1, 2])
        for k in range(reps):
            ins = [rng.randrange(1, 9000) for _ in range(1, g["nin"])]
            given = list(ins)
            ev = graphgen.Evaluation(run, g, (k,), ins)
            try:
                ev.evaluate(interp, graph)
            except Exception:
                pass
            if ins != given:
                out["mutated"] = True
        if pool:
            pool.shutdown(wait=True)
        s.finish()

    strat = sched.RandomStrategy(rng, p=rng.choice([0.1, 0.3, 0.6])) if rng.random() < 0.6 else sched.PCTStrategy(rng, d=rng.choice([2, 4]), length=500)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/runtime/interpreter",), max_steps=300000, opcodes=rng.random() < 0.1)
    recs = s.run([main])
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    if out.get("mutated"):
        errs.append("the inputs were modified")
    evals = out["run"].evals
    # an error raised by a nested evaluation ends the ones around it; what still runs afterwards is not judged
    return {"mode": mode, "g": g}, [e.trace() for e in evals], s.outcome, errs, s.blocked_info


def run(chk):
    import mplang.runtime.interpreter

    inv = ("Same", "Kept", "Ends", "Outcome")
    for n, o in ((2, 2), (3, 1)) if not chk.thorough else ((2, 2), (3, 1), (3, 2)):
        chk.spec_ok(run_tlc("MC_DagEval", cfg(constants={"N": n, "MaxOuts": o}, invariants=inv), workers=8, timeout=3000), f"MC_DagEval {n} operations")

    def job(i):
        seed = f"{chk.seed}-C14-{i}"
        return (seed, *scenario(random.Random(seed)))

    batch, src = [], []
    for seed, prog, traces, outcome, errs, blocked in core.pmap(chk, job, range(chk.n(1200, 25000))):
        if outcome != "ok" or errs:
            chk.violation(f"evaluation-not-ending:{outcome}:{(errs or [''])[0][:80]}:{seed}", {"prog": prog, "outcome": outcome, "errors": errs, "blocked": blocked, "traces": traces})
            continue
        for t in traces:
            t["nested"] = t is not traces[0]
            batch.append(t)
            src.append((seed, prog))
    # evaluations nested in one that was abandoned by an error may stay unfinished
    def judged(t):
        return any(e["e"] in ("ret", "raise") for e in t["ev"])

    for t, s in zip(batch, src):
        if not judged(t) and not t["nested"]:
            chk.violation(f"no-outcome:{s[0]}", {"prog": s[1], "trace": t})
    pairs = [(t, s) for t, s in zip(batch, src) if judged(t)]
    batch, src = [p[0] for p in pairs], [p[1] for p in pairs]
    r, acc, prog = validate_traces("Trace_DagEval", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("events", sum(len(t["ev"]) for t in batch))
    chk.count("failing_evaluations", sum(any(e["e"] == "raise" for e in t["ev"]) for t in batch))
    chk.sample({"seed": src[0][0], "trace": batch[0]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{src[i-1][0]}", {"rejected_event": t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None, "trace": t, "mode": src[i - 1][1]["mode"]})
    bad = []
    for t in batch:
        ends = [k for k, e in enumerate(t["ev"]) if e["e"] == "ret" and e["outs"]]
        if ends and len(bad) < 6:
            b = copy.deepcopy(t)
            b["ev"][ends[0]]["outs"][0] += 1
            bad.append(b)
            starts = [k for k, e in enumerate(t["ev"]) if e["e"] == "start"]
            if starts:
                b = copy.deepcopy(t)
                b["ev"].insert(starts[0], b["ev"][starts[0]])
                bad.append(b)
    _, acc, _ = validate_traces("Trace_DagEval", bad)
    if acc:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] = len(bad)
    chk.assumptions.append("operations that evaluate nested graphs run on the evaluating thread (as all of the repository's do)")
