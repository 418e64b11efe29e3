"""C12: asynchronous jobs of a worker (spec: Jobs.tla)."""
from vp import sched

sched.install()

import random
import sys
import threading
import time
from urllib.parse import quote

from vp import core, httpsim, simpgen
from vp.tlc import cfg, run_tlc, validate_traces

IDS = ["a", "b", "job-1", "0", "a.0", "x" * 300, "a b", "ä", "a%2Fb", "A", "status", "async", "a:b", "a+b", "a&b=c", "#", "?", "None", "a/b", "a/status", "..", "."]


class Noise:
    """Delays at the lines of the worker module, in every thread it runs in."""

    def __init__(self, rng, p):
        self.p, self.r = p, random.Random(rng.random())

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if f.endswith("simp_worker/http.py") and frame.f_code.co_name not in ("_do_send", "__init__") else None

    def local(self, frame, event, arg):
        if self.r.random() < self.p:
            time.sleep(self.r.choice([0.0005, 0.002, 0.006]))
        return self.local


class Hist:
    def __init__(self):
        self.ev, self.lock = [], threading.Lock()
        self.jobs = {}       # submission number -> description
        self.of = threading.local()

    def add(self, e, c=0, k="", id=1, bad=False, i=0, code=0, s="none"):
        with self.lock:
            self.ev.append({"e": e, "c": c, "k": k, "id": id, "bad": bad, "i": i, "code": code, "s": s})

    # what the job does: the harness operation and the store
    wires = None

    def wrap(self, c):
        return c

    def op(self, rank, uid):
        j = self.jobs[uid]
        self.of.i = uid
        self.add("begin", i=uid)
        time.sleep(j["dur"])
        if j["kind"] == "op":
            self.add("done", i=uid, bad=True)
            raise j["exc"](f"boom-{uid}-")
        if j["nout"] == 0:
            self.add("done", i=uid)

    def wrap_store(self, store, rank):
        h = self

        class S:
            def __getattr__(self, k):
                return getattr(store, k)

            def get(self, uri):
                u = str(uri)
                if u.startswith("mem://missing-"):
                    i = int(u.rsplit("-", 1)[1])
                    h.add("begin", i=i)
                    time.sleep(h.jobs[i]["dur"])
                    h.add("done", i=i, bad=True)
                    raise KeyError(f"boom-{i}-")
                return store.get(uri)

            def put(self, v, *a, **k):
                i = getattr(h.of, "i", None)
                if i is None:
                    return store.put(v, *a, **k)
                j = h.jobs[i]
                j["puts"] += 1
                if j["kind"] == "put" and j["puts"] == j["nout"]:
                    h.of.i = None
                    h.add("done", i=i, bad=True)
                    raise j["exc"](f"boom-{i}-")
                r = store.put(v, *a, **k)
                if j["puts"] == j["nout"]:
                    h.of.i = None
                    h.add("done", i=i)
                return r
        return S()


def graph(m, uid, nout):
    import mplang.edsl as el
    from mplang.dialects import simp
    from mplang.edsl.typing import MPType
    from mplang.runtime.interpreter import InterpObject, Interpreter

    arg = InterpObject(None, MPType(m.t["i"], (0,)), Interpreter())

    def body(x):
        r = m.op.bind(x, f="mix", uid=uid, c=1, nout=max(nout, 1))
        return r if nout > 1 else r

    def fn(x):
        r = simp.pcall_static((0,), body, x)
        return r if nout else ()

    return el.trace(fn, arg).graph


def case(seed):
    import httpx

    from mplang.edsl import serde

    rng = random.Random(seed)
    h = Hist()
    sys.settrace(None)
    noise = Noise(rng, rng.choice([0, 0.05, 0.2, 0.5]))
    threading.settrace(noise.glob)
    sim = None
    try:
        sim = httpsim.HttpSim(1, faults=h)
        m = simpgen.Machine(rng)
        names = rng.sample(IDS, rng.choice([1, 2, 2, 3]))
        store = sim.stores[0]
        base = sim.endpoints[0]
        inp = store.put(7)
        stop = threading.Event()
        nsub = [0]
        lock = threading.Lock()
        first = {}

        def status(c, cl, k):
            h.add("call", c, "status", k)
            r = cl.get(f"{base}/exec/{quote(names[k - 1], safe='').replace('.', '%2E')}/status")
            s, i = "none", 0
            if r.status_code == 200:
                d = r.json()
                s = str(d.get("status"))
                if s == "SUCCESS":
                    try:
                        v = serde.loads_b64(d["result"])
                        vs = [store.get(u) for u in v or []]
                        i = next((n for n, j in list(h.jobs.items()) if j["id"] == k and j["kind"] == "ok" and j["vals"] == vs), 0)
                    except Exception:
                        i = 0
                elif s == "FAILED":
                    e = d.get("error")
                    i = next((n for n, j in list(h.jobs.items()) if isinstance(e, str) and j["id"] == k and f"boom-{n}-" in e), 0)
            h.add("ret", c, "status", k, i=i, code=r.status_code, s=s)
            return r.status_code, s

        def submit(c, cl, r2):
            k = r2.randrange(len(names)) + 1
            with lock:
                nsub[0] += 1
                n = nsub[0]
            kind = r2.choice(["ok", "ok", "ok", "op", "put", "get"])
            nout = r2.choice([1, 1, 2, 3]) if kind != "ok" else r2.choice([1, 1, 2, 3, 0])
            if nout == 0 and first.setdefault(k, n) != n:
                nout = 1   # two results without values could not be told apart
            body = {"graph": None, "inputs": serde.dumps_b64([f"mem://missing-{n}" if kind == "get" else inp]), "job_id": names[k - 1]}
            bad = r2.random() < 0.2
            body["graph"] = serde.dumps_b64(graph(m, n, nout))
            if bad:
                w = r2.choice(["noid", "emptyid", "nograph", "garbage", "trunc", "inputs", "type"])
                if w == "noid":
                    del body["job_id"]
                elif w == "emptyid":
                    body["job_id"] = ""
                elif w == "nograph":
                    del body["graph"]
                elif w == "garbage":
                    body["graph"] = "!!!"
                elif w == "trunc":
                    body["graph"] = body["graph"][: len(body["graph"]) // 2]
                elif w == "inputs":
                    body["inputs"] = "AAAA"
                elif w == "type":
                    body["inputs"] = "e30"
            h.jobs[n] = {"id": k, "kind": kind if not bad else "bad", "nout": nout, "puts": 0, "dur": r2.choice([0, 0.002, 0.01, 0.03]), "exc": r2.choice([RuntimeError, ValueError, KeyError, TimeoutError, ConnectionError]),
                         "vals": [simpgen.opval("mix", n, 1, j, [7]) for j in range(nout)]}
            h.add("call", c, "submit", k, bad=bad, i=n)
            r = cl.post(f"{base}/exec/async", json=body)
            h.add("ret", c, "submit", k, code=r.status_code)

        errs, broken = [], []

        def client(c, ops, pace):
            r2 = random.Random(f"{seed}-{c}")
            try:
                with httpx.Client(timeout=20) as cl:
                    for _ in range(ops[0]):
                        if r2.random() < ops[1]:
                            submit(c, cl, r2)
                        else:
                            status(c, cl, r2.randrange(len(names)) + 1)
                        time.sleep(pace * r2.random())
            except httpx.HTTPError as e:
                errs.append(repr(e))
            except Exception as e:
                broken.append(e)

        plans = [([rng.choice([4, 8]), 0.8], 0.02), ([rng.choice([3, 6]), 0.7], 0.02), *[([rng.choice([10, 16]), 0.05], rng.choice([0, 0.002, 0.01])) for _ in range(rng.choice([1, 2]))]]
        ts = [threading.Thread(target=client, args=(c + 1, *p), daemon=True) for c, p in enumerate(plans)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            errs.append("a client got no answer")
        if broken:
            raise broken[0]
        if not errs:
            with httpx.Client(timeout=20) as cl:
                end = time.monotonic() + 8
                k = 1
                while k <= len(names):
                    st = status(9, cl, k)[1]
                    if st in ("PENDING", "RUNNING") and time.monotonic() < end:
                        time.sleep(0.02)
                    else:
                        k += 1
        h.add("final")
        return {"seed": seed, "names": names, "ids": len(names), "ev": list(h.ev), "errs": errs}
    finally:
        threading.settrace(None)
        if sim:
            sim.close()


def corrupt(rng, t):
    ev = [dict(e) for e in t["ev"]]
    rets = [n for n, e in enumerate(ev) if e["e"] == "ret"]
    how = rng.choice(["status", "inst", "code", "back"])
    if how == "code":
        n = rng.choice(rets)
        ev[n]["code"] = {200: 404, 404: 200, 409: 404}.get(ev[n]["code"], 200)
    elif how == "inst":
        c = [n for n in rets if ev[n]["i"]]
        if not c:
            return None
        ev[rng.choice(c)]["i"] = 0
    elif how == "status":
        c = [n for n in rets if ev[n]["s"] in ("SUCCESS", "FAILED")]
        if not c:
            return None
        n = rng.choice(c)
        ev[n]["s"] = "FAILED" if ev[n]["s"] == "SUCCESS" else "SUCCESS"
    else:
        # a finished job seen as running again
        c = [n for n in rets if ev[n]["s"] in ("SUCCESS", "FAILED") and n == max(m for m in rets)]
        if not c:
            return None
        ev[c[0]].update(s="RUNNING", i=0)
    return {**t, "ev": ev}


def run(chk):
    import mplang.backends  # noqa: F401

    c = {"Ids": "{1, 2}" if not chk.thorough else "{1, 2, 3}", "MaxSubmits": chk.n(3, 5), "PublishFirst": "TRUE"}
    chk.spec_ok(run_tlc("MC_Jobs", cfg(constants=c, invariants=("OneActive", "OutcomeVisible"), properties=("Steady", "JobsEnd")), workers=8, timeout=1500),
                "MC_Jobs: submissions, executor and status requests of 2-3 identifiers")
    bad = run_tlc("MC_Jobs", cfg(constants={**c, "PublishFirst": "FALSE"}, invariants=("OutcomeVisible",)), workers=4, timeout=600)
    if bad.ok:
        raise RuntimeError("the specification does not depend on the order of publication")
    outs = core.pmap(chk, case, [f"{chk.seed}-c12-{i}" for i in range(chk.n(120, 2500))], limit=150)
    for o in outs:
        chk.expect(not o["errs"], f"no-answer:{o['seed']}", {k: o[k] for k in ("seed", "names", "errs")})
    outs = [o for o in outs if not o["errs"]]
    tr = [{"ids": o["ids"], "ev": o["ev"]} for o in outs]
    r, acc, prog = validate_traces("Trace_Jobs", tr, timeout=3000, extra_inv=("OneActive",))
    chk.tlc(r)
    chk.traces += len(tr)
    for n, o in enumerate(outs, 1):
        if n in acc:
            chk.count("polls", sum(e["e"] == "ret" and e["k"] == "status" for e in o["ev"]))
            chk.count("jobs", sum(e["e"] == "begin" for e in o["ev"]))
            chk.count("refused", sum(e["e"] == "ret" and e["k"] == "submit" and e["code"] >= 400 for e in o["ev"]))
            chk.sample(o)
        else:
            at = prog.get(n) or 1
            chk.violation(f"jobs:{o['seed']}", {"seed": o["seed"], "names": o["names"], "at": at, "event": o["ev"][at - 1] if at <= len(o["ev"]) else None, "events": o["ev"][max(0, at - 25):at + 3]})
    # binding self-test
    rng = random.Random(f"{chk.seed}-c12-x")
    bad = [x for x in (corrupt(rng, t) for n, t in enumerate(tr, 1) if n in acc) if x][:60]
    if bad:
        r2, acc2, _ = validate_traces("Trace_Jobs", bad, timeout=900)
        chk.extra["corrupted_traces_rejected"] = f"{len(bad) - len(acc2)}/{len(bad)}"
        if len(acc2) > len(bad) // 3:
            raise RuntimeError(f"the trace specification accepts {len(acc2)} of {len(bad)} corrupted traces")
