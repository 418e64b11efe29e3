"""C04: message keys (spec: CommKeys.tla).

Every party runs the same program on the real CommContext / Interpreter, each
under a schedule of its own, over a communicator that only records the wire
keys; the merged log is validated against Trace_CommKeys.
"""
from vp import sched

sched.install()

import concurrent.futures
import copy
import random

from vp import core, graphgen
from vp.tlc import cfg, run_tlc, validate_traces


class RecComm:
    def __init__(self, rank, ws, rec):
        self.rank, self.world_size, self.rec = rank, ws, rec

    def send(self, to, key, data, **kw):
        import concurrent.futures as cf

        from mplang.backends.simp_worker.base import SendRequest

        self.rec(to, "send", key)
        f = cf.Future()
        f.set_result(None)
        return SendRequest(f, to, key)

    def send_sync(self, to, key, data, **kw):
        self.rec(to, "send", key)

    def recv(self, frm, key, **kw):
        self.rec(frm, "recv", key)


def draw_msgs(rng, parties, n):
    out = []
    for _ in range(n):
        a, b = rng.sample(range(parties), 2)
        out.append((a, b, rng.random() < 0.5))
    return out


def play(ctx, rank, msgs, mark):
    for a, b, sync in msgs:
        if rank == a:
            mark(b)
            if sync:
                ctx.send_sync(b, None, timeout=1.0)
            else:
                ctx.send(b, None)
        elif rank == b:
            mark(a)
            ctx.recv(a)


def direct(rng, parties):
    """A random tree of spawned contexts used directly."""
    from mplang.backends.simp_worker.comm_context import CommContext

    prog = []  # (path of the context, action)
    paths = [()]
    kids = {(): 0}
    sufs = ["a", "a.0", "0", "1", "x:0", "", "g.1", "0.a"]
    for _ in range(rng.randrange(6, 16)):
        p = rng.choice(paths)
        if rng.random() < 0.45:
            c = (*p, kids[p])
            kids[p] += 1
            kids[c] = 0
            prog.append(("spawn", p, c, rng.choice(sufs) if rng.random() < 0.6 else None))
            paths.append(c)
        else:
            prog.append(("msgs", p, draw_msgs(rng, parties, rng.randrange(1, 4))))
    ev = []
    job = rng.choice(["job", "job:1", "a.b", "anonymous"])
    for rank in range(parties):
        cur = {}
        comm = RecComm(rank, parties, lambda peer, d, key: ev.append({"p": rank, "path": list(cur["p"]), "peer": peer, "dir": d, "key": key}))
        ctxs = {(): CommContext(comm, job, rank)}
        for st in prog:
            if st[0] == "spawn":
                _, p, c, suf = st
                ctxs[c] = ctxs[p].spawn(suf) if suf is not None else ctxs[p].spawn()
            else:
                cur["p"] = st[1]
                play(ctxs[st[1]], rank, st[2], lambda peer: None)
    return {"parties": parties, "ev": ev}, "ok", []


def graph_case(rng, parties):
    """The same program graph evaluated by every party under its own schedule."""
    from mplang.backends.simp_worker.comm_context import CommContext
    from mplang.runtime.interpreter import Interpreter

    def extra(r, o):
        k = 4 if o["code"] == graphgen.REGION else 1
        ps = sorted(r.sample(range(parties), r.randrange(1, parties + 1))) if o["code"] == graphgen.REGION and r.random() < 0.3 else None
        o["vp_parties"] = ps
        # exchanges before, and (regions) after each nested evaluation
        o["vp_msgs"] = [draw_msgs(r, parties, r.randrange(0, 3)) for _ in range(8)]

    uid = [0]
    mode = rng.choice(["async", "async", "async", "sync"])
    g = graphgen.gen(rng, uid, depth=2, max_ops=5, extra=extra, p_region=0.35)
    ops = {}

    def walk(gs, active):
        for o in gs["ops"]:
            act = active if o["vp_parties"] is None else [x for x in active if x in o["vp_parties"]]
            # only exchanges between parties that run the operation
            o["vp_msgs"] = [[m for m in ms if m[0] in act and m[1] in act] for ms in o["vp_msgs"]]
            o["vp_act"] = act
            ops[o["uid"]] = o
            for r in o["regions"]:
                walk(r, act)

    walk(g, list(range(parties)))
    top = rng.choice([1, 2])
    ev = []
    workers = rng.choice([2, 3, 4])
    outcome, errs = "ok", []
    for rank in range(parties):
        # every party has its own copy of the graph
        graph = graphgen.build(g)

        def main():
            s = sched._current
            cur = {}

            def rec(peer, d, key):
                if s.aborting:
                    raise sched.SchedAbort
                import threading

                ev.append({"p": rank, "path": cur[threading.get_ident()], "peer": peer, "dir": d, "key": key})

            def hook(token, op, interp, phase):
                import threading

                o = ops[op.attrs["uid"]]
                cur[threading.get_ident()] = [] if mode == "sync" else [*token.path, op.attrs["uid"]]
                play(interp.current_comm_ctx(), rank, o["vp_msgs"][phase % 8], lambda peer: None)

            run = graphgen.Run(hook)
            base = run.region

            def region(interp, op, token, *args):
                if rank not in ops[op.attrs["uid"]]["vp_act"]:
                    outs = [0] * op.attrs["nout"]
                    return outs[0] if len(outs) == 1 else outs
                return base(interp, op, token, *args)

            pool = concurrent.futures.ThreadPoolExecutor(max_workers=workers) if mode == "async" else None
            interp = Interpreter(executor=pool, comm_ctx=CommContext(RecComm(rank, parties, rec), "job", rank), handlers={**run.handlers(), graphgen.REGION: region}, owns_executor=False)
            interp.async_ops = {graphgen.AOP}
            for k in range(top):
                graphgen.Evaluation(run, g, (k,), list(range(1, g["nin"]))).evaluate(interp, graph)
            if pool:
                pool.shutdown(wait=True)
            s.finish()

        strat = sched.RandomStrategy(rng, p=rng.choice([0.1, 0.3, 0.6])) if rng.random() < 0.6 else sched.PCTStrategy(rng, d=4, length=400)
        s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/runtime/interpreter",), max_steps=200000)
        recs = s.run([main])
        errs += [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
        if s.outcome != "ok":
            outcome = s.outcome
    return {"parties": parties, "ev": ev}, outcome, errs


def run(chk):
    import mplang.backends.simp_worker.base
    import mplang.runtime.interpreter

    n, m = (2, 2) if not chk.thorough else (3, 2)
    c = {"EarlySpawn": "TRUE", "UseCounter": "TRUE", "N": n, "M": m}
    inv = ("NoCollision", "SameKey")
    chk.spec_ok(run_tlc("MC_CommKeys", cfg(constants=c, invariants=inv), workers=8, timeout=1500), f"MC_CommKeys {n} outer, {m} inner operations")
    # the specification tells sound key derivations from unsound ones
    for k in ("EarlySpawn", "UseCounter"):
        r = chk.tlc(run_tlc("MC_CommKeys", cfg(constants={**c, k: "FALSE", "N": 2}, invariants=inv), workers=8, timeout=600))
        if r.ok:
            raise RuntimeError(f"MC_CommKeys accepts the unsound derivation without {k}")

    def job(i):
        seed = f"{chk.seed}-C04-{i}"
        rng = random.Random(seed)
        parties = rng.choice([2, 2, 3])
        tr, outcome, errs = (direct if i % 3 == 0 else graph_case)(rng, parties)
        return seed, tr, outcome, errs

    batch, seeds = [], []
    for seed, tr, outcome, errs in core.pmap(chk, job, range(chk.n(450, 9000))):
        if outcome != "ok" or errs:
            chk.violation(f"evaluation-failed:{(errs or [outcome])[0][:100]}", {"seed": seed, "outcome": outcome, "errors": errs})
        else:
            batch.append(tr)
            seeds.append(seed)
    r, acc, prog = validate_traces("Trace_CommKeys", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("exchanges", sum(len(t["ev"]) for t in batch))
    chk.sample({"seed": seeds[1], "trace": batch[1]["ev"][:8]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{seeds[i-1]}", {"rejected_exchange": t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None, "position": at, "events": t["ev"]})
    bad = []
    for t in batch:
        if len(t["ev"]) < 6:
            continue
        b1, b2 = copy.deepcopy(t), copy.deepcopy(t)
        b1["ev"][-1]["key"] += "'"  # one end disagrees
        for e in b2["ev"]:
            e["key"] = "same"
        if any(e["path"] == b1["ev"][-1]["path"] and e["p"] == b1["ev"][-1]["peer"] for e in b1["ev"]):
            bad += [b1, b2]
        if len(bad) > 6:
            break
    _, acc, _ = validate_traces("Trace_CommKeys", bad)
    if acc:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] = len(bad)
    chk.assumptions.append("the communicator below the contexts only records keys; receives return at once")
