"""C15: eager, lazy and whole-program evaluation agree (specs: Tracing.tla, TensorOps.tla)."""
import copy
import random

from vp import core, tensorgen
from vp.checks import c16
from vp.tlc import cfg, run_tlc, validate_traces


def tensor_scenario(rng):
    import mplang
    import numpy as np
    from mplang.backends.tensor_impl import TensorValue
    from mplang.edsl import typing as t
    from mplang.edsl.tracer import Tracer
    from mplang.runtime.interpreter import Interpreter, InterpObject

    p = tensorgen.gen(rng, rng.choice([2, 4, 7, 10]))
    interp = Interpreter()

    def obs(a):
        a = np.asarray(a)
        return {"s": list(a.shape), "d": [int(x) for x in a.reshape(-1)]}

    def objects():
        arrs = [np.array([rng.randrange(0, 97) for _ in range(tensorgen.prod(s))], dtype=np.int32).reshape(s) for s in p["in_shapes"]]
        return arrs, [InterpObject(TensorValue(a), t.TensorType(t.i32, a.shape), interp) for a in arrs]

    runs = []
    for mode in rng.sample(["eager", "traced", "lazy"], rng.choice([2, 3])):
        arrs, objs = objects()
        before = [obs(a) for a in arrs]
        if mode == "eager":
            with interp:
                res = tensorgen.run_ops(p, objs)
        elif mode == "traced":
            tf = mplang.compile(lambda *xs: tensorgen.run_ops(p, xs), *objs)
            if rng.random() < 0.5:
                mplang.evaluate(tf, *objs, context=interp)
                arrs, objs = objects()
                before = [obs(a) for a in arrs]
            res = mplang.evaluate(tf, *objs, context=interp)
        else:
            with Tracer():
                res = tensorgen.run_ops(p, objs)
            res = list(res)
            order = list(range(len(res)))
            rng.shuffle(order)
            for i in order:
                res[i] = interp.lift(res[i])
        outs = [obs(np.asarray(r.runtime_obj.unwrap())) for r in res]
        # and once more, after other operations have run on the results
        again = [obs(np.asarray(r.runtime_obj.unwrap())) for r in res]
        runs.append({"mode": mode, "ins": before, "after": [obs(a) for a in arrs], "outs": outs if outs == again else [], "types": [list(r.type.shape) for r in res]})
        for x, r in zip(runs[-1]["types"], runs[-1]["outs"]):
            if x != r["s"]:
                runs[-1]["outs"] = []
    return {"ops": tensorgen.spec_ops(p), "outs": [i + 1 for i in p["outs"]], "runs": runs}


def run(chk):
    import mplang  # noqa: F401

    c16.specs(chk)
    chk.spec_ok(run_tlc("MC_TensorOps", cfg(constants={"Dims": "{0, 1, 2, 3}"}, invariants=("Laws",)), workers=8, timeout=1200), "MC_TensorOps laws")
    c16.campaign(chk, "C15", chk.n(1500, 30000), ["eager", "lazy", "traced"])

    def job(i):
        seed = f"{chk.seed}-C15t-{i}"
        return seed, tensor_scenario(random.Random(seed))

    out = core.pmap(chk, job, range(chk.n(350, 6000)), limit=300)
    batch = [t for _, t in out]
    r, acc, prog = validate_traces("Trace_Tensor", batch)
    chk.tlc(r)
    chk.traces += sum(len(t["runs"]) for i, t in enumerate(batch, 1) if i in acc)
    chk.count("tensor_programs", len(batch))
    for i, (seed, t) in enumerate(out, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"tensor-rejected:{seed}", {"rejected_run": t["runs"][at - 1] if 0 < at <= len(t["runs"]) else None, "program": t})
    bad = []
    for t in batch:
        if len(bad) < 6 and t["runs"][0]["outs"] and t["runs"][0]["outs"][0]["d"]:
            b = copy.deepcopy(t)
            b["runs"][0]["outs"][0]["d"][0] += 1
            bad.append(b)
            b = copy.deepcopy(t)
            b["runs"][0]["after"][0]["d"].append(1)
            bad.append(b)
    _, acc, _ = validate_traces("Trace_Tensor", bad)
    if acc or not bad:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] += len(bad)
