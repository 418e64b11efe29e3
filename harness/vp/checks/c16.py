"""C16: tracing is faithful (spec: Tracing.tla); shared with C15 (modes)."""
import concurrent.futures
import copy
import random

from vp import core, tracegen
from vp.tlc import cfg, run_tlc, validate_traces


def scenario(rng, modes):
    import mplang
    from mplang.edsl.tracer import Tracer, trace
    from mplang.runtime.interpreter import Interpreter, InterpObject

    p = tracegen.gen(rng)
    m = tracegen.Machine(p)
    pool = concurrent.futures.ThreadPoolExecutor(2) if rng.random() < 0.1 else None
    interp = Interpreter(handlers={"vpt.op": m.handler}, executor=pool)
    n = p["fns"][0]["np"]

    def objects():
        vals = [rng.randrange(1, 9000) for _ in range(n)]
        objs = []
        for i in range(n):
            if p["alias"][i] != i:
                objs.append(objs[p["alias"][i]])
            else:
                objs.append(InterpObject(vals[i], m.ty, interp))
        return objs

    objs = objects()
    outers = [objs[s] if s >= 0 else InterpObject(rng.randrange(1, 9000), m.ty, interp) for s in p["same"]]
    vals = lambda os: [o.runtime_obj for o in os]
    runs = []

    def note(mode, res, params, nin=0):
        runs.append({"mode": mode, "params": vals(params), "res": m.observed(res), "log": list(m.log), "nin": nin})
        m.log.clear()

    try:
        for mode in modes:
            m.peek = None
            args, kwargs = m.arguments(objs)
            if mode == "eager":
                with interp:
                    res = m.entry(outers, False)(*args, **kwargs)
                note("eager", res, objs)
                with interp:
                    res = mplang.evaluate(m.entry(outers, False), *args, **kwargs)
                note("eager", res, objs)
            elif mode == "traced":
                fn = m.entry(outers, rng.random() < 0.75)
                how = rng.randrange(3)
                if how == 0:
                    tf = Tracer().run(fn, *args, **kwargs)
                elif how == 1:
                    tf = trace(fn, *args, **kwargs)
                else:
                    tf = mplang.compile(fn, *args, context=interp, **kwargs)
                if m.log:
                    note("traced-executes", {}, objs)
                for k in range(rng.choice([1, 2, 3])):
                    o = objs if k == 0 else objects()
                    a, kw = m.arguments(o)
                    if rng.random() < 0.5:
                        res = mplang.evaluate(tf, *a, context=interp, **kw)
                    else:
                        with interp:
                            res = mplang.evaluate(tf, *a, **kw)
                    note("traced", res, o, len(tf.graph.inputs))
            elif mode == "lazy":
                tr = Tracer()
                if rng.random() < 0.4:
                    r2 = random.Random(rng.random())

                    def peek(env):
                        if env and r2.random() < 0.2:
                            interp.lift(env[r2.randrange(len(env))])

                    m.peek = peek
                with tr:
                    res = m.entry(outers, False)(*args, **kwargs)
                m.peek = None
                import jax

                lv, td = jax.tree_util.tree_flatten(res)
                order = list(range(len(lv)))
                rng.shuffle(order)
                for i in order:
                    if m.is_var(lv[i]):
                        lv[i] = interp.lift(lv[i])
                note("lazy", jax.tree_util.tree_unflatten(td, lv), objs)
    finally:
        if pool:
            pool.shutdown()
    return {"fns": tracegen.spec_fns(p), "outers": vals(outers), "outerid": [s if s >= 0 else 100 + i for i, s in enumerate(p["same"])], "runs": runs}


def specs(chk):
    for c in ({"NParams": 1, "NOuters": 1, "NInner": 1, "MaxRes": 2},) if not chk.thorough else ({"NParams": 1, "NOuters": 1, "NInner": 1, "MaxRes": 2}, {"NParams": 2, "NOuters": 1, "NInner": 1, "MaxRes": 2}, {"NParams": 1, "NOuters": 1, "NInner": 2, "MaxRes": 2}):
        chk.spec_ok(run_tlc("MC_Tracing", cfg(constants=c, invariants=("Faithful",)), workers=8, timeout=3000), f"MC_Tracing {c}")


def campaign(chk, name, n, modes):
    def job(i):
        seed = f"{chk.seed}-{name}-{i}"
        rng = random.Random(seed)
        return seed, scenario(rng, [rng.choice(modes) if modes[0] == "?" else m for m in modes])

    out = core.pmap(chk, job, range(n))
    batch = [t for _, t in out]
    r, acc, prog = validate_traces("Trace_Tracing", batch)
    chk.tlc(r)
    chk.traces += sum(len(t["runs"]) for i, t in enumerate(batch, 1) if i in acc)
    chk.count("programs", len(batch))
    chk.count("programs_with_nested_functions", sum(len(t["fns"]) > 1 for t in batch))
    chk.count("programs_with_captures", sum(bool(t["outers"]) for t in batch))
    chk.sample({"seed": out[0][0], "trace": batch[0]})
    for i, (seed, t) in enumerate(out, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{seed}", {"rejected_run": t["runs"][at - 1] if 0 < at <= len(t["runs"]) else None, "program": t})
    bad = []
    for t in batch:
        if t["runs"] and t["runs"][-1]["log"] and any(x["k"] == "v" for x in t["runs"][-1]["res"]) and len(bad) < 9:
            b = copy.deepcopy(t)
            [x for x in b["runs"][-1]["res"] if x["k"] == "v"][0]["v"] += 1
            bad.append(b)
            if t["runs"][-1]["mode"] != "lazy":
                b = copy.deepcopy(t)
                b["runs"][-1]["log"].append(b["runs"][-1]["log"][0])
                bad.append(b)
            if t["runs"][-1]["mode"] == "traced":
                b = copy.deepcopy(t)
                b["runs"][-1]["nin"] += len(t["outers"]) + 1
                bad.append(b)
    _, acc, _ = validate_traces("Trace_Tracing", bad)
    if acc or not bad:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] = chk.extra.get("corrupted_traces_rejected", 0) + len(bad)


def run(chk):
    import mplang  # noqa: F401

    specs(chk)
    campaign(chk, "C16", chk.n(2500, 60000), ["traced"])
    chk.assumptions.append("operations of the generated programs are integer-valued stand-ins; the operations of the repository's dialects are exercised by the other checks")
