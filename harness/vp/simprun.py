"""Executes generated multi-party programs on the real runtime and records what happens."""

from __future__ import annotations

from vp import sched

sched.install()

import concurrent.futures
import os
import random
import shutil
import threading

from vp import commcheck, core, mesh, simpgen


def trace_program(m, case):
    """(graph, types) or (None, error) for a case, through the real tracer."""
    import mplang.edsl as el
    from mplang.edsl.typing import MPType
    from mplang.runtime.interpreter import InterpObject, Interpreter

    host = Interpreter()
    args = [InterpObject(None, m.mptype(i), host) for i in case["inputs"]]
    try:
        tf = el.trace(m.fn(case["prog"]), *args)
    except (ValueError, TypeError) as e:
        return None, e
    types = []
    for v in tf.graph.outputs:
        assert isinstance(v.type, MPType), v.type
        types.append({"ps": [-1] if v.type.parties is None else [int(p) for p in v.type.parties], "vt": "b" if v.type.value_type == m.t["b"] else "i"})
    return tf, types


def norm(v):
    return v if type(v) is int else -1 if v is None else -98


class Wires:
    """Program values and truth values that parties transmitted."""

    def __init__(self):
        self.wire, self.truths, self.lock = [], [], threading.Lock()

    def __call__(self, frm, to, key, data):
        k, v = simpgen.wire_of(data)
        with self.lock:
            if k == "t":
                self.truths.append([frm, to])
            else:
                self.wire.append([frm, to, v if k == "v" else -99])


def worker_run(rng, m, case, tf):
    """Every party executes the program on a request interpreter; one schedule."""
    from mplang.backends.simp_worker import WORKER_HANDLERS, WorkerInfra, create_request_interpreter
    from mplang.backends.simp_worker.infra import DEFAULT_ASYNC_OPS

    world = case["world"]
    kind = rng.choice(["mem", "mem", "http"])
    w = Wires()
    log = []

    def note(rank, uid):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort
        log.append([rank, uid])

    def on_send(*a):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort
        w(*a)

    proxies = mesh.make(rng, kind, world, on_send)
    pooled = rng.random() < 0.3
    results = {}

    def party(r):
        def run():
            pool = concurrent.futures.ThreadPoolExecutor(24) if pooled else None
            infra = WorkerInfra(rank=r, world_size=world, communicator=proxies[r], store=None, handlers={**WORKER_HANDLERS, "vpt.op": simpgen.handler(note)},
                                executor=pool, async_ops=frozenset(DEFAULT_ASYNC_OPS | {"vpt.op"}) if pooled else frozenset())
            interp = create_request_interpreter(infra, "job")
            try:
                results[r] = ("ok", interp.evaluate_graph(tf.graph, [i["vals"][r] if i["vals"][r] != -1 else None for i in case["inputs"]], "job"))
            except RuntimeError as e:
                results[r] = ("error", repr(e))
            finally:
                interp.shutdown()
                if pool:
                    pool.shutdown(wait=False)
        return run

    left = []

    def closer():
        sched.patient_sleep(60)
        if len(results) == world:
            left.append(len(mesh.leftovers(proxies)))
        sched._current.finish()

    strat = sched.RandomStrategy(rng, p=rng.choice([0.02, 0.1, 0.3])) if rng.random() < 0.5 else sched.PCTStrategy(rng, d=4, length=400)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker",), max_steps=400000)
    recs = s.run([*(party(p) for p in range(world)), closer])
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    vals = []
    if s.outcome != "ok" or len(results) < world:
        out = "stuck"
    elif errs:
        out = "crash"
    elif any(o != "ok" for o, _ in results.values()):
        # a run fails as a whole only if every party that takes part fails
        out = "error" if all(o == "error" for o, _ in results.values()) else "mixed"
    else:
        out = "ok"
        vals = [[norm(results[r][1][k]) for r in range(world)] for k in range(len(tf.graph.outputs))]
    run = {"out": out, "vals": vals, "log": log, "wire": w.wire, "truths": w.truths}
    info = {"how": f"worker/{kind}/{'async' if pooled else 'sync'}", "outcome": s.outcome, "errors": errs, "results": {k: str(v) for k, v in results.items()}, "left": left[:1]}
    return run, info


class Sim:
    """A real in-process cluster with instrumented communicators."""

    def __init__(self, world, fail=None, faults=None):
        import tempfile

        from mplang.dialects import simp

        self.dir = tempfile.mkdtemp(prefix="vp-sim-")
        os.environ["MPLANG_DATA_ROOT"] = self.dir
        self.w = Wires()
        self.log, self.lock = [], threading.Lock()
        self.interp = simp.make_simulator(world)
        self.state = self.interp.get_dialect_state("simp")
        self.infras = self.state.infras
        self.stores = [x.store for x in self.infras]
        if faults:
            faults.wires, fail = self.w, faults.op
        self.proxies = []
        for infra in self.infras:
            infra.communicator = faults.wrap(infra.communicator) if faults else mesh.Proxy(infra.communicator, self.w)
            if faults:
                infra.store = faults.wrap_store(infra.store, infra.rank)
            self.proxies.append(infra.communicator)
            infra.handlers = {**infra.handlers, "vpt.op": simpgen.handler(self.note, fail)}

    def note(self, rank, uid):
        with self.lock:
            self.log.append([rank, uid])

    def inputs(self, m, case):
        from mplang.backends.simp_driver.values import DriverVar
        from mplang.runtime.interpreter import InterpObject

        return [InterpObject(DriverVar([self.stores[r].put(v) if v != -1 else None for r, v in enumerate(i["vals"])]), m.mptype(i), self.interp)
                for i in case["inputs"]]

    def close(self):
        try:
            self.state.shutdown()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def driver_run(rng, m, case, mode, sim=None, fail=None, get="store", anyerr=False):
    """The program through the driver API; mode: eager | compiled | evaluate."""
    import mplang
    from mplang.backends.simp_driver.values import DriverVar
    from mplang.edsl.typing import MPType

    world = case["world"]
    own = sim is None
    sim = sim or Sim(world, fail)
    w0, t0, l0 = len(sim.w.wire), len(sim.w.truths), len(sim.log)
    types, vals, refs, err = [], [], "", ""
    try:
        objs = sim.inputs(m, case)
        fn = m.fn(case["prog"])
        try:
            if mode == "eager":
                with sim.interp:
                    res = fn(*objs)
            elif mode == "evaluate":
                res = mplang.evaluate(fn, *objs, context=sim.interp)
            else:
                res = mplang.evaluate(mplang.compile(fn, *objs, context=sim.interp), *objs, context=sim.interp)
            res = m.unpack(res, len(case["prog"]["res"]))
            out = "ok"
            for o in res:
                t = o.type
                assert isinstance(t, MPType), t
                types.append({"ps": [-1] if t.parties is None else [int(p) for p in t.parties], "vt": "b" if t.value_type == m.t["b"] else "i"})
                dv = o.runtime_obj
                if not (isinstance(dv, DriverVar) and len(dv.values) == world and all(u is None or isinstance(u, str) for u in dv.values)):
                    refs = f"not a vector of references: {dv!r}"
                    continue
                if get == "store":
                    vals.append([norm(None if u is None else sim.stores[r].get(u)) for r, u in enumerate(dv.values)])
                else:
                    with sim.interp:
                        f = mplang.fetch(o)
                    f = [f] if world == 1 else f
                    vals.append([norm(x) for x in f])
                    held = [norm(None if u is None else sim.stores[r].get(u)) for r, u in enumerate(dv.values)]
                    if held != vals[-1]:
                        refs = f"fetch returned {f}, the parties hold {held}"
        except RuntimeError as e:
            out, err = "error", repr(e)
        except Exception as e:
            if not anyerr and not core.is_repo_failure(e) and not isinstance(e, simpgen.Misexecuted):
                raise
            out, err = "error" if anyerr else "crash", repr(e)
    finally:
        if own:
            sim.close()
    run = {"out": out, "vals": vals, "log": sim.log[l0:], "wire": sim.w.wire[w0:], "truths": sim.w.truths[t0:]}
    return run, types, {"how": f"driver/{mode}", "refs": refs, "error": err}
