"""C03: request handles (spec: Requests.tla)."""
from vp import sched

sched.install()

import concurrent.futures
import copy
import random
import time

from vp import core
from vp.tlc import cfg, run_tlc, validate_traces


class OwnError(Exception):
    pass


class OwnTimeout(TimeoutError):
    pass


def scenario(rng):
    from mplang.backends.simp_worker import base

    n = rng.choice([1, 2, 3, 3])
    futs = [concurrent.futures.Future() for _ in range(n)]
    kinds = [base.Request(f, f"op{i}") if rng.random() < 0.5 else base.SendRequest(f, 0, f"k{i}") for i, f in enumerate(futs)]
    reqs = kinds
    ev = []

    def at(s):
        return int((s.now - 1000.0) * 1000)

    def call(t, o):
        s = sched._current
        if s.aborting:
            raise sched.SchedAbort
        ev.append({"e": "call", "t": t, "o": o, "at": at(s)})

    def ret(t, r):
        s = sched._current
        if s.aborting:
            raise sched.SchedAbort
        ev.append({"e": "ret", "t": t, "r": r, "at": at(s)})

    # the executing side
    outs = []
    for i in range(n):
        k = rng.choice(["val", "val", "err", "err_tmo", "never"])
        outs.append(k)

    def env(order):
        def run():
            for i in order:
                time.sleep(rng.choice([0, 0, 0.3, 0.9]))
                call(1, {"op": "start", "i": i + 1})
                ok = futs[i].set_running_or_notify_cancel()
                ret(1, {"k": "ok", "v": 1 if ok else 0})
                if not ok or outs[i] == "never":
                    continue
                time.sleep(rng.choice([0, 0, 0.4]))
                call(1, {"op": "end", "i": i + 1, "out": {"k": "val" if outs[i] == "val" else "err", "v": 100 + i}})
                if outs[i] == "val":
                    futs[i].set_result(100 + i)
                elif outs[i] == "err":
                    futs[i].set_exception(OwnError(100 + i))
                else:
                    futs[i].set_exception(OwnTimeout(100 + i))
                ret(1, {"k": "ok", "v": 1})

        return run

    def client(t, steps):
        def run():
            for o in steps:
                if o["op"] == "sleep":
                    time.sleep(o["d"])
                    continue
                call(t, o)
                tmo = None if o.get("tmo", -1) < 0 else o["tmo"] / 1000.0
                try:
                    op = o["op"]
                    if "i" in o:
                        q = reqs[o["i"] - 1]
                    else:
                        qs = [reqs[i - 1] for i in o["is"]]
                    if op == "status":
                        st = q.status
                        m = {"pending": "pend", "completed": "val", "error": "err", "cancelled": "can"}
                        if rng.random() < 0.3 and (q.done is False) and st != "pending":
                            st = "inconsistent-done"
                        r = {"k": m.get(st, st), "v": 0}
                    elif op == "cancel":
                        r = {"k": "ok", "v": 1 if q.cancel() else 0}
                    elif op == "test":
                        d, v = q.test()
                        r = {"k": "pend", "v": 0} if not d else ({"k": "can", "v": 0} if v is None else {"k": "val", "v": v})
                    elif op == "wait":
                        v = q.wait(tmo) if rng.random() < 0.5 or tmo is None else q.wait(timeout=tmo)
                        r = {"k": "val", "v": v if v is not None else -1}
                    elif op == "waitall":
                        r = {"k": "all", "v": [0 if x is None else x for x in base.wait_all(qs, timeout=tmo)]}
                    elif op == "testall":
                        d, v = base.testall(qs)
                        r = {"k": "all", "v": [0 if x is None else x for x in v]} if d else {"k": "pend", "v": 0}
                    elif op == "waitany":
                        i, v = base.wait_any(qs, timeout=tmo)
                        r = {"k": "any", "i": i + 1, "v": 0 if v is None else v}
                    elif op == "testany":
                        i, v = base.testany(qs)
                        r = {"k": "pend", "v": 0} if i is None else {"k": "any", "i": i + 1, "v": 0 if v is None else v}
                except (OwnError, OwnTimeout) as e:
                    r = {"k": "err", "v": e.args[0]}
                except TimeoutError:
                    r = {"k": "tmo", "v": 0}
                except (concurrent.futures.CancelledError):
                    r = {"k": "can", "v": 0}
                except ValueError:
                    r = {"k": "bad", "v": 0}
                ret(t, r)

        return run

    nclients = rng.choice([1, 1, 2, 3])
    clients = []
    for c in range(nclients):
        steps = []
        for _ in range(rng.randrange(2, 8)):
            x = rng.random()
            tmo = rng.choice([-1, 0, 500, 1000])
            if x < 0.15:
                steps.append({"op": "sleep", "d": rng.choice([0.2, 0.5, 1.0])})
            elif x < 0.65:
                steps.append({"op": rng.choice(["status", "status", "test", "test", "wait", "wait", "cancel"]), "i": rng.randrange(n) + 1, "tmo": tmo})
            else:
                k = rng.randrange(0, n + 1) if rng.random() < 0.9 else 0
                if k == 0 and rng.random() < 0.8:
                    k = n
                steps.append({"op": rng.choice(["waitall", "testall", "waitany", "testany"]), "is": rng.sample(range(1, n + 1), k), "tmo": tmo})
        clients.append(client(c + 2, steps))
    order = list(range(n))
    rng.shuffle(order)

    def closer():
        sched.patient_sleep(60)
        s = sched._current
        ev.append({"e": "quiesce", "at": at(s)})
        s.finish()

    strat = sched.RandomStrategy(rng, p=rng.choice([0.1, 0.4])) if rng.random() < 0.6 else sched.PCTStrategy(rng, d=3, length=150)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker",), max_steps=60000)
    recs = s.run([env(order), *clients, closer])
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    return {"n": n, "nthreads": nclients + 1, "ev": ev}, s.outcome, errs


def run(chk):
    import mplang.backends.simp_worker.base

    chk.spec_ok(run_tlc("MC_Requests", cfg(constants={"Threads": "{t1, t2}", "t1": "t1", "t2": "t2", "MaxCalls": chk.n(3, 4), "N": 2},
                        invariants=("OneOutcome",), properties=("Terminal",)), workers=8, timeout=3000), "MC_Requests 2 threads")

    def job(i):
        seed = f"{chk.seed}-C03-{i}"
        tr, outcome, errs = scenario(random.Random(seed))
        return seed, tr, outcome, errs

    batch, seeds = [], []
    for seed, tr, outcome, errs in core.pmap(chk, job, range(chk.n(900, 20000))):
        if outcome != "ok":
            chk.violation(f"no-progress:{seed}", {"events": tr["ev"], "outcome": outcome})
        elif errs:
            chk.violation(f"unexpected-error:{errs[0][:100]}", {"seed": seed, "errors": errs, "events": tr["ev"]})
        else:
            batch.append(tr)
            seeds.append(seed)
    r, acc, prog = validate_traces("Trace_Requests", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.sample({"seed": seeds[0], "trace": batch[0]["ev"]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{seeds[i-1]}", {"rejected_event": t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None, "events": t["ev"]})
    bad = []
    for t in batch:
        for k, e in enumerate(t["ev"]):
            if e["e"] == "ret" and e["r"]["k"] in ("val", "any"):
                t2 = copy.deepcopy(t)
                t2["ev"][k]["r"]["v"] += 1
                bad.append(t2)
                break
        if len(bad) == 5:
            break
    _, acc, _ = validate_traces("Trace_Requests", bad)
    if acc:
        raise RuntimeError("binding self-test failed")
    chk.extra["corrupted_traces_rejected"] = len(bad)
    chk.count("events", sum(len(t["ev"]) for t in batch))
