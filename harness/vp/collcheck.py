"""Conformance of the collectives with spec/Collectives.tla."""

from vp import sched

sched.install()

import copy
import random

from vp import commcheck, core, mesh
from vp.tlc import cfg, run_tlc, validate_traces

PAYLOAD = [0, 1, "", None, [], {"a": [1, 2]}, (), 7, b"", False]
KINDS = ["barrier", "broadcast", "allgather", "gatherbool", "and", "or", "xor"]


def payload_id(x):
    for i, p in enumerate(PAYLOAD):
        if type(p) is type(x) and p == x:
            return i
    return -5


def draw_plan(rng, world, kinds, cap):
    plan = []
    for _ in range(rng.randrange(1, cap + 1)):
        kind = rng.choice(kinds)
        size = rng.choice([1, 2, 2, 3, 3, world])
        parts = rng.sample(range(world), min(size, world))
        c = {"kind": kind, "parts": parts, "callers": sorted(parts), "root": rng.choice(parts), "how": rng.choice(["arg", "attr", "scope"])}
        if len(parts) == world and set(parts) == set(range(world)) and rng.random() < 0.5:
            c["how"] = "default"
        if rng.random() < 0.15 and kind != "cond":  # repeated entries
            c["parts"] = parts + [rng.choice(parts)]
        if kind in ("uniform", "cond"):
            b = rng.choice([0, 1])
            c["vals"] = [b if rng.random() < 0.85 else 1 - b for _ in range(world)]
            if kind == "cond":
                c["how"] = "default" if len(parts) == world and rng.random() < 0.6 else "scope"
                if c["how"] == "default":
                    c["parts"] = list(range(world))
                c["callers"] = sorted(set(c["parts"]))
            elif kind == "uniform" and rng.random() < 0.4:
                for p in range(world):  # opinions outside the participants do not matter
                    if p not in parts:
                        c["vals"][p] = 1 - b
        elif kind in ("broadcast", "allgather"):
            c["vals"] = [rng.randrange(len(PAYLOAD)) for _ in range(world)]
        else:
            c["vals"] = [rng.choice([0, 1]) for _ in range(world)]
        if rng.random() < 0.08 and kind not in ("cond",):
            bad = rng.choice(["empty", "range", "member", "root"])
            if bad == "empty":
                c["parts"], c["callers"] = [], sorted(rng.sample(range(world), rng.randrange(1, world + 1)))
            elif bad == "range":
                c["parts"] = parts + [rng.choice([-1, world, world + 3])]
            elif bad == "member" and len(parts) < world:
                c["callers"] = [rng.choice([p for p in range(world) if p not in parts])]
            elif bad == "root" and kind == "broadcast":
                c["root"] = rng.choice([p for p in [-1, world, *range(world)] if p not in parts])
            if c["how"] == "default":
                c["how"] = "arg"
        plan.append(c)
    return plan


_cond = {}


def cond_program(world, parts, top):
    """A real traced program with one declared-uniform conditional."""
    import mplang.edsl as el
    import mplang.edsl.typing as elt
    from mplang.dialects import dtypes, simp
    from mplang.edsl.typing import MPType, TensorType
    from mplang.runtime.interpreter import InterpObject, Interpreter

    key = (world, tuple(sorted(set(parts))), top)
    if key in _cond:
        return _cond[key]
    op = el.Primitive("vpt.branch")

    @op.def_abstract_eval
    def _ae(t, *, side):
        return t

    host = Interpreter()
    bt, vt = TensorType(elt.bool_, ()), TensorType(elt.i64, ())
    ps = key[1]
    args = [InterpObject(None, MPType(bt, ps), host), InterpObject(None, MPType(vt, ps), host)]
    if top:
        def prog(p, x):
            return simp.uniform_cond(p, lambda v: simp.pcall_static(ps, lambda a: op.bind(a, side=1), v),
                                     lambda v: simp.pcall_static(ps, lambda a: op.bind(a, side=0), v), x)
    else:
        def prog(p, x):
            return simp.pcall_static(ps, lambda q, v: simp.uniform_cond(q, lambda a: op.bind(a, side=1), lambda a: op.bind(a, side=0), v), p, x)
    _cond[key] = el.trace(prog, *args).graph
    return _cond[key]


def scenario(rng, kinds, cap):
    import numpy as np

    from mplang.backends.simp_worker import WORKER_HANDLERS, SimpWorker, WorkerInfra, create_request_interpreter
    from mplang.backends.simp_worker import collectives as col
    from mplang.backends.simp_worker.comm_context import CommContext
    from mplang.backends.tensor_impl import TensorValue
    from mplang.edsl.graph import Operation

    world = rng.choice([2, 3, 3, 4])
    kind = rng.choice(["mem", "mem", "http"])
    plan = draw_plan(rng, world, kinds, cap)
    ev = []

    def log(e):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort
        ev.append(e)

    proxies = mesh.make(rng, kind, world, lambda frm, to, key, data: log({"e": "wire", "p": frm, "q": to}))
    conds = {i: cond_program(world, c["parts"], c["how"] == "default") for i, c in enumerate(plan) if c["kind"] == "cond"}
    finished = []

    def party(p):
        def branch(interp, op, x):
            log({"e": "branch", "p": p, "c": cur[0], "v": op.attrs["side"]})
            return x

        infra = WorkerInfra(rank=p, world_size=world, communicator=proxies[p], store=None, handlers={**WORKER_HANDLERS, "vpt.branch": branch})
        interp = create_request_interpreter(infra, "job")
        ctx = interp.current_comm_ctx() if rng.random() < 0.5 and False else CommContext(proxies[p], "coll", p)
        w = SimpWorker(p, world, proxies[p], None)
        cur = [0]

        def call(c, i):
            k, v = c["kind"], c["vals"][p]
            kw = {}
            w.current_parties = None
            if k == "cond":
                pred = [bool(v), TensorValue(np.array(bool(v)))][(p + i) % 2]
                interp.evaluate_graph(conds[i], [pred, 5])
                return [v]
            if c["how"] == "arg":
                kw["participants"] = tuple(c["parts"])
            elif c["how"] == "attr":
                kw["op"] = Operation(opcode="x", inputs=[], outputs=[], attrs={"parties": tuple(c["parts"])})
                w.current_parties = tuple(range(world))
            elif c["how"] == "scope":
                w.current_parties = tuple(c["parts"])
            if k == "barrier":
                r = col.barrier(ctx, w, **kw)
                return [] if r is None else [-7]
            if k == "broadcast":
                mine = PAYLOAD[v]
                return [payload_id(col.broadcast(ctx, w, mine, root=c["root"], **kw))]
            if k == "allgather":
                return [payload_id(x) for x in col.allgather_obj(ctx, w, PAYLOAD[v], **kw)]
            if k == "gatherbool":
                r = col.allgather_bool(ctx, w, v, **kw)
                return [int(x) if type(x) is bool else -6 for x in r]
            f = {"and": col.allreduce_bool_and, "or": col.allreduce_bool_or, "xor": col.allreduce_bool_xor, "uniform": col.verify_uniform_predicate}[k]
            r = f(ctx, w, bool(v) if k == "uniform" or i % 2 else v, **kw)
            return [int(r) if type(r) is bool else -6]

        def run():
            for i, c in enumerate(plan):
                if p not in c["callers"]:
                    continue
                cur[0] = i + 1
                log({"e": "enter", "p": p, "c": i + 1})
                try:
                    r = {"k": "ok", "v": call(c, i)}
                except ValueError:
                    r = {"k": "bad", "v": []}
                except RuntimeError as e:
                    r = {"k": "disagree", "v": []}
                log({"e": "leave", "p": p, "c": i + 1, "r": r})
            finished.append(p)

        return run

    def closer():
        sched.patient_sleep(60)
        s = sched._current
        log({"e": "end", "left": len(mesh.leftovers(proxies)) if len(finished) == world else 1000})
        s.finish()

    strat = sched.RandomStrategy(rng, p=rng.choice([0.05, 0.3])) if rng.random() < 0.5 else sched.PCTStrategy(rng, d=4, length=300)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker",), max_steps=200000)
    recs = s.run([*(party(p) for p in range(world)), closer])
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    for c in plan:
        c.pop("how", None)
    return {"plan": plan, "world": world, "ev": ev, "transport": kind}, s.outcome, errs


def run(chk, kinds, cap, n, mc_kinds):
    import mplang.backends.simp_worker

    commcheck.patch_httpx()
    nc = chk.n(2, 3)
    chk.spec_ok(run_tlc("MC_Collectives", cfg(constants={"NP": 3, "Kinds": mc_kinds, "NC": nc}, invariants=("BarrierSafe", "Consistent", "NothingLeft", "NoDeadlock", "NoBranchOnDisagreement")),
                        workers=8, timeout=6000, heap="10g"), f"MC_Collectives, 3 parties, {nc} collectives over any participant sets")

    def job(i):
        seed = f"{chk.seed}-{chk.pid}-{i}"
        return seed, *scenario(random.Random(seed), kinds, cap)

    batch, seeds = [], []
    for seed, tr, outcome, errs in core.pmap(chk, job, range(n)):
        if outcome != "ok":
            chk.violation(f"no-progress:{seed}", {"plan": tr["plan"], "outcome": outcome, "events": tr["ev"]})
        elif errs:
            chk.violation(f"unexpected-error:{errs[0][:100]}", {"seed": seed, "errors": errs, "plan": tr["plan"], "events": tr["ev"]})
        else:
            batch.append(tr)
            seeds.append(seed)
    r, acc, prog = validate_traces("Trace_Collectives", batch, extra_inv=("BarrierSafe", "NoBranchOnDisagreement"))
    chk.tlc(r)
    chk.traces += len(acc)
    chk.sample({"seed": seeds[0], "plan": batch[0]["plan"], "trace": batch[0]["ev"]})
    chk.count("events", sum(len(t["ev"]) for t in batch))
    chk.count("disagreements", sum(e["e"] == "leave" and e["r"]["k"] == "disagree" for t in batch for e in t["ev"]))
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{seeds[i-1]}", {"rejected_event": t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None, "plan": t["plan"], "transport": t["transport"], "events": t["ev"]})
    bad = []
    for t in batch:
        t2 = copy.deepcopy(t)
        for e in t2["ev"]:
            if e["e"] == "leave" and e["r"]["k"] == "ok" and e["r"]["v"]:
                e["r"]["v"][0] += 1
                bad.append(t2)
                break
        if len(bad) == 5:
            break
    _, acc, _ = validate_traces("Trace_Collectives", bad)
    if acc:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] = len(bad)
