"""C11: requests on the same workers do not interfere (specs: Isolation.tla, Simp.tla)."""
from vp import sched

sched.install()

import concurrent.futures
import copy
import os
import random
import threading
import time

from vp import commcheck, core, faults, httpsim, mesh, simpgen, simprun
from vp.tlc import cfg, run_tlc, validate_traces

STRIDE = 1000
ODD = ["a", "a.0", "a:0", "a.1", "a.0.1", "a.0:0", "a%2E0", "a%2e0", "0", "1", "a/0", "a/../b", "b", " ", "a ", "A", "a?b", "a#b", "a%", "%", "..", ".", "é", "é", "x" * 200, "a\\0", "a\n", "job", "job.0", "anonymous.0",
       "None", "[0]", "a+0", "a&0", "a%3A0", "a::0", "a:", ":a", ".a", "a."]


def ids(rng, n):
    z = rng.random()
    if z < 0.75:
        base = rng.choice(["a", "b", "r", "job", "request-2026-11-20T00:00:00.123456-" * 3])
        fam = [base, *(f"{base}.{k}" for k in range(6)), base + ":0", base + ".0.0", base + ".1.0", base + ".0.1", base + ".0:0", base + "%2E0", base + ".", base + "/0", base + "%2e0", base.upper() + ".0"]
        if z < 0.4 and n <= 3:
            # a family in which one identifier continues another
            a = [base, f"{base}.{rng.randrange(5)}", f"{base}.{rng.randrange(5)}.{rng.randrange(3)}"][:n]
            rng.shuffle(a)
            return a
        return rng.sample(fam, min(n, len(fam)))
    if z < 0.85:
        tail = rng.choice(["", "-tail" * 30])
        return [f"{'x' * 60}{k}{tail}" for k in rng.sample(range(20), n)]
    return rng.sample(ODD, n)


def requests(rng, world, n, size=(2, 3, 4), disagree=True):
    """n programs with disjoint operation identifiers: (machine, case, traced, types, plain log)."""
    out = []
    while len(out) < n:
        m = simpgen.Machine(rng)
        case = simpgen.draw(rng, world=world, size=rng.choice(size), disagree=disagree)
        k = len(out)
        for b, i, _ in simpgen.statements(case["prog"]):
            if b[i]["k"] == "op":
                b[i]["uid"] += STRIDE * k
        try:
            tf, types = simprun.trace_program(m, case)
        except simpgen.BadProgram:
            continue
        if tf is None:
            continue
        out.append({"m": m, "case": case, "tf": tf, "types": types})
    return out


def routes(g):
    """{(position, from, to)} of the exchanges of a region, as far as positions are known."""
    out = set()
    for j, s in enumerate(g["body"]):
        if s["k"] == "coll":
            break
        if s["k"] == "shuf":
            out |= {(j, f, t) for t, f in s["rt"] if t != f}
    return out


def inner(g):
    """{(outer position, inner position, from, to)}"""
    out = set()
    for k, s in enumerate(g["body"]):
        if s["k"] == "coll":
            break
        for n in ("th", "el", "cb", "bb"):
            if n in s:
                out |= {(k, *x) for x in routes(s[n])}
    return out


def related(rng, world):
    """Two programs, one of which exchanges messages in a nested evaluation where
    the other one does so at top level, and identifiers that say so."""
    ps = []
    for _ in range(400):
        c = simpgen.draw(rng, world=world, size=rng.choice([1, 2, 3]))
        ps.append((c, inner(c["prog"]), routes(c["prog"])))
    pairs = [(a, b, k) for a, ia, _ in ps for k, j, f, t in ia for b, _, tb in ps if (j, f, t) in tb]
    if not pairs:
        return None
    a, b, k = rng.choice(pairs)
    base = rng.choice(["a", "q.1", "z" * 70])
    out = []
    for n, c in enumerate((a, b)):
        m = simpgen.Machine(rng)
        c = copy.deepcopy(c)
        for body, i, _ in simpgen.statements(c["prog"]):
            if body[i]["k"] == "op":
                body[i]["uid"] += STRIDE * n
        tf, types = simprun.trace_program(m, c)
        if tf is None:
            return None
        out.append({"m": m, "case": c, "tf": tf, "types": types})
    return out, [base, f"{base}.{k}"]


def record(rq, run):
    return {"world": rq["case"]["world"], "inputs": rq["case"]["inputs"], "accepted": True, "types": rq["types"], "prog": simpgen.clean(rq["case"]["prog"]), "runs": [run]}


def plan_fault(rng, rq, world):
    u = [b[i]["uid"] for b, i, _ in simpgen.statements(rq["case"]["prog"]) if b[i]["k"] == "op"]
    return [[rng.randrange(world), rng.choice(u)] for _ in range(rng.choice([1, 1, 3]))] if u else []


def split(log, n):
    return [[x for x in log if x[1] // STRIDE == k] for k in range(n)]


def infra_of(r, world, comm, handlers, pooled):
    from mplang.backends.simp_worker import WorkerInfra
    from mplang.backends.simp_worker.infra import DEFAULT_ASYNC_OPS

    return WorkerInfra(rank=r, world_size=world, communicator=comm, store=None, handlers=handlers,
                       executor=concurrent.futures.ThreadPoolExecutor(60) if pooled else None, async_ops=frozenset(DEFAULT_ASYNC_OPS | {"vpt.op"}) if pooled else frozenset())


def learn_keys(rng, rq, world, name):
    """The keys of the messages of a request that runs alone."""
    from mplang.backends.simp_worker import WORKER_HANDLERS, create_request_interpreter
    from mplang.backends.simp_worker.mem import ThreadCommunicator

    keys = []
    comms = [ThreadCommunicator(r, world) for r in range(world)]
    for c in comms:
        c.set_peers(comms)
    ps = [mesh.Proxy(c, lambda f, t, k, d: keys.append((f, t, k))) for c in comms]
    ts = []

    def go(r):
        try:
            interp = create_request_interpreter(infra_of(r, world, ps[r], {**WORKER_HANDLERS, "vpt.op": simpgen.handler(lambda *a: None)}, True), name)
            interp.evaluate_graph(rq["tf"].graph, [i["vals"][r] if i["vals"][r] != -1 else None for i in rq["case"]["inputs"]], name)
        except Exception:
            pass

    for r in range(world):
        ts.append(threading.Thread(target=go, args=(r,), daemon=True))
        ts[-1].start()
    for t in ts:
        t.join(3)
    for c in comms:
        c.shutdown()
    return sorted(set(keys))


# --------------------------------------------------------------- one schedule
def workers(seed):
    """Several requests at once or in turn on the same workers, under a controlled scheduler."""
    from mplang.backends.simp_worker import WORKER_HANDLERS, create_request_interpreter

    commcheck.patch_httpx()
    rng = random.Random(seed)
    world = rng.choice([2, 2, 3])
    n = rng.choice([2, 2, 3])
    rel = related(rng, world) if rng.random() < 0.3 else None
    if rel:
        (rqs, names), n = rel, 2
    else:
        rqs = requests(rng, world, n)
        names = ids(rng, n)
    kind = rng.choice(["mem", "http"])
    learned = None
    if rng.random() < 0.3:
        # identifiers made of the keys that another request's messages have
        keys = learn_keys(rng, rqs[0], world, names[0])
        if keys:
            frm, to, key = rng.choice(keys)
            for _ in range(60):
                c = requests(rng, world, 2, disagree=False)[1]
                if any((f, t) == (frm, to) for _, f, t in routes(c["case"]["prog"])):
                    cut = rng.choice([key.rsplit(":", 1)[0]] * 3 + [key, key.rsplit(".", 1)[0]])
                    if cut and cut != names[0]:
                        rqs, names, n, learned = [rqs[0], c], [names[0], cut], 2, True
                    break
    fails = [plan_fault(rng, rq, world) if rng.random() < 0.35 and not learned else [] for rq in rqs]
    phase = [rng.choice([0, 0, 1, 2]) if not (rel or learned) or rng.random() < 0.2 else 0 for _ in rqs]
    log = []

    def note(rank, uid):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort
        log.append([rank, uid])

    bad = {tuple(f) for fs in fails for f in fs}

    def fail(rank, uid):
        if (rank, uid) in bad:
            raise RuntimeError("boom")

    def alive(*a):
        s = sched._current
        if s is None or s.aborting:
            raise sched.SchedAbort

    proxies = mesh.make(rng, kind, world, alive)
    pooled = [rng.random() < 0.5] * n if not learned else [True, rng.random() < 0.2]
    infras = {}
    results = {}

    def party(k, r):
        def run():
            sched.patient_sleep(phase[k] * 100)
            if (r, pooled[k]) not in infras:
                infras[r, pooled[k]] = infra_of(r, world, proxies[r], {**WORKER_HANDLERS, "vpt.op": simpgen.handler(note, fail)}, pooled[k])
            interp = create_request_interpreter(infras[r, pooled[k]], names[k])
            case = rqs[k]["case"]
            try:
                results[k, r] = ("ok", interp.evaluate_graph(rqs[k]["tf"].graph, [i["vals"][r] if i["vals"][r] != -1 else None for i in case["inputs"]], names[k]))
            except Exception as e:
                if not isinstance(e, RuntimeError) and not core.is_repo_failure(e):
                    raise
                results[k, r] = ("error", repr(e))
            finally:
                interp.shutdown()
        return run

    def closer():
        sched.patient_sleep(5000)
        sched._current.finish()

    strat = sched.RandomStrategy(rng, p=rng.choice([0.05, 0.2, 0.5])) if rng.random() < 0.6 else sched.PCTStrategy(rng, d=5, length=800)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker",), max_steps=600000)
    recs = s.run([*(party(k, r) for k in range(n) for r in range(world)), closer])
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    logs = split(log, n)
    out = []
    for k, rq in enumerate(rqs):
        rs = [results.get((k, r)) for r in range(world)]
        if errs or s.outcome not in ("ok", "finished") and not any(fails):
            o = "crash" if errs else "stuck"
        elif any(x is None for x in rs):
            o = "stuck" if not any(x and x[0] == "error" for x in rs) else "error"
        else:
            o = "ok" if all(x[0] == "ok" for x in rs) else "error"
        vals = [[simprun.norm(rs[r][1][j]) for r in range(world)] for j in range(len(rq["tf"].graph.outputs))] if o == "ok" else []
        run = {"out": o, "vals": vals, "log": logs[k], "wire": [], "truths": [], "fail": fails[k], "other": False}
        out.append((record(rq, run), {"id": names[k], "phase": phase[k], "results": [str(x)[:300] for x in rs]}))
    return {"seed": seed, "recs": out, "how": f"workers/{kind}/{pooled}/{'learned' if learned else 'related' if rel else 'any'}", "errs": errs, "outcome": s.outcome}


# -------------------------------------------------------------- real clusters
_slow = [0]


def cluster(seed, kind):
    if _slow[0] >= 2:
        return None
    rng = random.Random(seed)
    world = rng.choice([2, 2, 3])
    n = rng.choice([2, 3, 6, 12])
    rqs = requests(rng, world, n, (1, 2, 3), kind == "http")  # a failure ends the in-process cluster
    names = ids(rng, n)
    fails = [plan_fault(rng, rq, world) if kind == "http" and rng.random() < 0.15 else [] for rq in rqs]
    bad = {tuple(f) for fs in fails for f in fs}

    dull = rng.choice([0, 0.002, 0.01])

    def fail(rank, uid):
        time.sleep(dull * random.random())
        if (rank, uid) in bad:
            raise rng.choice(faults.EXCS)

    sim = simprun.Sim(world, fail) if kind == "mem" else httpsim.HttpSim(world, fail, recv_timeout=8.0)
    style = rng.choice(["driver", "direct"])
    waves = [rng.choice([0, 0, 0, 1]) for _ in rqs]
    gate = {w: threading.Barrier(waves.count(w)) for w in (0, 1) if w in waves}
    res = {}

    def user(k):
        from mplang.backends.simp_driver.values import DriverVar
        from mplang.dialects import simp

        rq = rqs[k]
        ins = [o.runtime_obj for o in sim.inputs(rq["m"], rq["case"])]
        g = rq["tf"].graph
        st = None
        if style == "direct" or kind == "http":
            drv = sim.interp if kind == "mem" else simp.make_driver(sim.endpoints)
            st = drv.get_dialect_state("simp")
        gate[waves[k]].wait(30)
        try:
            if style == "driver":
                interp = sim.interp if kind == "mem" else drv
                vs = interp.evaluate_graph(g, ins)
                vs = [v.values for v in vs]
            else:
                fs = [st.submit(r, g, [d.values[r] for d in ins], job_id=names[k]) for r in range(world)]
                if kind == "mem":
                    rr = [f.result() for f in fs]
                else:
                    rr = st.collect(fs)
                vs = [[rr[r][j] for r in range(world)] for j in range(len(g.outputs))]
            res[k] = ("ok", [[simprun.norm(None if u is None else sim.stores[r].get(u)) for r, u in enumerate(v)] for v in vs])
        except Exception as e:
            res[k] = ("error", repr(e))

    for w in (0, 1):
        ts = [threading.Thread(target=user, args=(k,), daemon=True) for k in range(n) if waves[k] == w]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
        if any(t.is_alive() for t in ts):
            _slow[0] += 1
            break
    logs = split(sim.log, n)
    out = []
    for k, rq in enumerate(rqs):
        o, v = res.get(k, ("stuck", None))
        run = {"out": o, "vals": v if o == "ok" else [], "log": logs[k], "wire": [], "truths": [], "fail": fails[k], "other": False}
        out.append((record(rq, run), {"id": names[k], "wave": waves[k], "result": str(v)[:300]}))
    if any(x[0]["runs"][0]["out"] == "stuck" for x in out):
        for p in sim.proxies:
            try:
                p._c.shutdown() if kind == "mem" else None
            except Exception:
                pass
    else:
        sim.close()
    return {"seed": seed, "recs": out, "how": f"{kind}/{style}", "errs": [], "outcome": ""}


def run(chk):
    import mplang.backends  # noqa: F401

    os.environ["SIMP_ASPECT"] = "C11"
    c = {"Chars": "<-Cs", "MaxLen": chk.n(2, 3), "Escape": "TRUE", "NP": 2, "MaxSteps": 2, "PickIds": "<-Pairs"}
    chk.spec_ok(run_tlc("MC_IsolationKeys", cfg(init="KInit", next_="KNext", constants=c), workers=8, timeout=1500), "MC_IsolationKeys: no two identifiers over 6 characters share a message key")
    chk.spec_ok(run_tlc("MC_Isolation", cfg(constants=c, invariants=("NoCrossTalk",), properties=("SecondEnds",)), workers=8, timeout=1500),
                "MC_Isolation: two requests with related identifiers, one of which may stop anywhere, over 2 parties")
    if chk.thorough:
        chk.spec_ok(run_tlc("MC_Isolation", cfg(constants={**c, "NP": 3}, invariants=("NoCrossTalk",)), workers=8, timeout=2500, heap="12g"), "MC_Isolation: 3 parties, safety")
    bad = run_tlc("MC_IsolationKeys", cfg(init="KInit", next_="KNext", constants={**c, "Escape": "FALSE", "MaxLen": 3}), workers=8, timeout=1500)
    if bad.ok:
        raise RuntimeError("the key specification does not depend on escaping")
    jobs = [(f"{chk.seed}-c11-{k}-{i}", k) for k, n in (("workers", chk.n(300, 6000)), ("mem", chk.n(60, 1000)), ("http", chk.n(40, 700))) for i in range(n)]
    # the scheduled cases first: they patch httpx in their process
    outs = []
    for kinds in (("workers",), ("mem", "http")):
        js = [j for j in jobs if j[1] in kinds]
        outs += [x for x in core.pmap(chk, lambda j: workers(j[0]) if j[1] == "workers" else cluster(*j), js, limit=150) if x is not None]
    batch, info = [], []
    for x in outs:
        chk.count("histories_" + x["how"].split("/")[0])
        for rec, i in x["recs"]:
            batch.append(rec)
            info.append((x, i))
            chk.count("requests")
            chk.count("requests_failed", int(rec["runs"][0]["out"] == "error"))
    r, acc, _ = validate_traces("Trace_Simp", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.sample({"seed": outs[0]["seed"], "how": outs[0]["how"], "requests": [{**i, "run": rec["runs"][0]} for rec, i in outs[0]["recs"]]})
    for i, rec in enumerate(batch, 1):
        if i not in acc:
            x, inf = info[i - 1]
            chk.violation(f"request:{x['seed']}:{inf['id'][:40]}", {"how": x["how"], "this": inf, "run": rec["runs"], "specification": r.diag.get(i), "outcome": x["outcome"], "errors": x["errs"],
                          "together_with": [{**j, "out": y["runs"][0]["out"]} for y, j in x["recs"]], "program": rec["prog"], "inputs": rec["inputs"]})
    bad = []
    for rec in batch:
        if rec["runs"][0]["out"] == "ok" and len(bad) < 8:
            t = copy.deepcopy(rec)
            if len(bad) % 2:
                t["runs"][0]["vals"][0][0] += 1
            else:
                t["runs"][0]["log"].append([0, 1])
            bad.append(t)
    _, a, _ = validate_traces("Trace_Simp", bad)
    if a or not bad:
        raise RuntimeError(f"binding self-test failed: {a}")
    chk.extra["corrupted_traces_rejected"] = len(bad)
