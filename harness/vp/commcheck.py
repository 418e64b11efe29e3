"""Conformance of the real communicators with spec/Comm.tla.

Random operation scripts run on the real ThreadCommunicator / HttpCommunicator
under the controlled scheduler; every call and return is recorded with its
virtual time and the execution is validated by TLC against Trace_Comm.
"""

from vp import sched

sched.install()

import random
import threading
import time

import httpx

from vp import core
from vp.tlc import cfg, run_tlc, validate_traces

MAXT = 40


class Rec:
    """Event log of one run."""

    def __init__(self):
        self.ev = []
        self.n = 0
        self.nthr = 0

    def thr(self):
        self.nthr += 1
        return self.nthr

    def at(self, s):
        return int((s.now - 1000.0) * 1000)

    def call(self, t, o, s):
        if s.aborting:
            raise sched.SchedAbort
        self.n += 1
        o = dict(o, n=self.n)
        self.ev.append({"e": "call", "t": t, "o": o, "at": self.at(s)})

    def posted(self, t, s):
        if s.aborting:
            raise sched.SchedAbort
        self.ev.append({"e": "posted", "t": t, "at": self.at(s)})

    def ret(self, t, r, v, s):
        if s.aborting:
            raise sched.SchedAbort
        self.ev.append({"e": "ret", "t": t, "r": r, "v": v, "at": self.at(s)})


EMPTY = [None, "", b"", [], 0, False, (), {}]


def decode_payload(special, x):
    """The message identity a payload stands for."""
    for v, e in special.items():
        if type(x) is type(e) and x == e:
            return v
    try:
        return int(x) if isinstance(x, (bytes, int, str)) and not isinstance(x, bool) and x not in (b"", "", 0) else -2
    except ValueError:
        return -2


class Net:
    """Scripted network below httpx: what a peer does with each message."""

    def __init__(self):
        self.comms = {}
        self.script = {}  # (frm, to, key, nth) -> (peer, stall ms)
        self.special = {}

    def handler(self, request):
        url = request.url
        to = int(url.host.replace("peer", ""))
        key = url.path.split("/comm/", 1)[1]
        frm, val = self.decode(request)
        peer, stall = self.script.get((frm, to, key, decode_payload(self.special, val)), ("ok", 0))
        tmo = request.extensions.get("timeout", {}).get("read")
        if peer == "refuse":
            raise httpx.ConnectError("refused", request=request)
        if peer == "status":
            return httpx.Response(500, json={"detail": "no"}, request=request)
        if peer == "stall":
            d = stall / 1000.0
            if tmo is not None and d >= tmo:
                time.sleep(tmo)
                raise httpx.ReadTimeout("stalled", request=request)
            time.sleep(d)
        try:
            self.comms[to].on_receive(frm, key, val)
        except RuntimeError as e:
            return httpx.Response(500, json={"detail": str(e)}, request=request)
        if peer == "lostack":
            raise httpx.RemoteProtocolError("lost", request=request)
        return httpx.Response(200, json={"status": "ok"}, request=request)

    def decode(self, request):
        from mplang.edsl import serde

        h = request.headers
        body = request.read()
        if h.get("X-From-Rank") is not None:
            raw = h.get("X-Is-Raw-Bytes") == "1"
            return int(h["X-From-Rank"]), (body if raw else serde.loads_binary(body))
        import base64
        import json

        d = json.loads(body)
        return d["from_rank"], (base64.b64decode(d["data"]) if d.get("is_raw_bytes") else serde.loads_b64(d["data"]))


_net = None


def patch_httpx():
    orig = httpx.Client.__init__

    def init(self, *a, **kw):
        if _net is not None and "transport" not in kw:
            kw["transport"] = httpx.MockTransport(_net.handler)
        orig(self, *a, **kw)

    httpx.Client.__init__ = init


def make_mem(rng, ranks):
    from mplang.backends.simp_worker.mem import ThreadCommunicator

    serde = rng.random() < 0.3
    comms = [ThreadCommunicator(i, ranks, use_serde=serde) for i in range(ranks)]
    for c in comms:
        c.set_peers(comms)
    return comms


def make_http(rng, ranks, default_tmo):
    from mplang.backends.simp_worker.http import CommConfig, HttpCommunicator

    global _net
    _net = Net()
    conf = CommConfig(default_recv_timeout=default_tmo, http_timeout=None if rng.random() < 0.5 else 2.0, use_binary=rng.random() < 0.5)
    comms = [HttpCommunicator(i, ranks, [f"http://peer{j}" for j in range(ranks)], config=conf) for i in range(ranks)]
    _net.comms = dict(enumerate(comms))
    return comms, conf


class Script:
    """One randomly drawn scenario on one mesh."""

    def __init__(self, rng, kind, focus):
        self.rng, self.kind = rng, kind
        self.ranks = rng.choice([2, 2, 3])
        self.slow = rng.random() < 0.4
        self.keys = rng.choice([["a"], ["a", "b"], ["a", "b", "a.b"]])
        self.focus = focus
        self.rec = Rec()
        self.special = {}  # message id -> an "empty" payload that stands for it
        self.val = 0
        self.nthreads = rng.choice([2, 3, 4])

    def build(self):
        rng = self.rng
        if self.kind == "mem":
            self.comms, self.conf, self.default = make_mem(rng, self.ranks), None, None
        else:
            self.default = rng.choice([None, None, 1.0])
            self.comms, self.conf = make_http(rng, self.ranks, self.default)
            _net.special = self.special
        plans = []
        # balanced traffic: the receives and sends of a script mostly match
        pairs = []
        for _ in range(rng.randrange(2, 7)):
            to = rng.randrange(self.ranks)
            frm = rng.choice([r for r in range(self.ranks) if r != to])
            pairs.append((frm, to, rng.choice(self.keys)))
        per = [[] for _ in range(self.nthreads)]
        for frm, to, key in pairs:
            if rng.random() < 0.92:
                self.val += 1
                if rng.random() < 0.3 and self.val < 6:
                    e = rng.choice(EMPTY)
                    if not any(type(e) is type(x) and e == x for x in self.special.values()):
                        self.special[self.val] = e
                per[rng.randrange(self.nthreads)].append(self.mk_send(frm, to, key, self.val))
            if rng.random() < 0.85:
                per[rng.randrange(self.nthreads)].append(self.mk_recv(frm, to, key))
        for p in per:
            rng.shuffle(p)
        if self.kind == "mem" and self.focus == "C02" and rng.random() < 0.4:
            # several receivers blocked on one rank when it is shut down
            to = rng.randrange(self.ranks)
            for _ in range(rng.choice([2, 3])):
                per.append([self.mk_recv(rng.choice([r for r in range(self.ranks) if r != to]), to, rng.choice(self.keys))])
            per.append([{"op": "sleep", "d": rng.choice([0, 0.4])}, {"op": "shutdown", "to": to}])
        elif self.kind == "mem" and rng.random() < 0.35:
            per.append([{"op": "shutdown", "to": rng.randrange(self.ranks)}])
        if self.kind == "http" and self.focus == "C02" and rng.random() < 0.4:
            # a receive with a time limit on a rank that keeps getting other messages
            to = rng.randrange(self.ranks)
            frm = rng.choice([r for r in range(self.ranks) if r != to])
            r = self.mk_recv(frm, to, "late")
            r["percall"] = rng.choice([0.5, 1.5, 2.5])
            r["tmo"] = int(r["percall"] * 1000)
            chat = []
            for j in range(rng.randrange(3, 9)):
                self.val += 1
                chat += [{"op": "sleep", "d": rng.choice([0.2, 0.45, 0.7])}, self.mk_send(frm, to, f"c{j}", self.val)]
            if rng.random() < 0.3:
                self.val += 1
                chat.append(self.mk_send(frm, to, "late", self.val))
            per += [[r], chat]
        if self.kind == "http":
            r = rng.randrange(self.ranks)
            if rng.random() < 0.4:
                per[rng.randrange(len(per))].append({"op": "waitpending", "to": r, "tmo": 120000})
            if rng.random() < 0.5:
                per.append([{"op": "sleep", "d": rng.choice([0, 0.4, 1.1])}, {"op": "stats", "to": r}])
        return [p for p in per if p]

    def mk_send(self, frm, to, key, v):
        rng = self.rng
        o = {"op": "send", "frm": frm, "to": to, "key": key, "v": v, "peer": "ok", "stall": 0, "tmo": -1, "async": False}
        if self.kind == "http":
            p_fault = 0.35 if self.focus == "C02" else 0.15
            if rng.random() < p_fault:
                o["peer"] = rng.choice(["status", "refuse", "lostack", "stall"])
                if o["peer"] == "stall":
                    o["stall"] = rng.choice([500, 3000])
            o["async"] = rng.random() < 0.5
            if not o["async"] and rng.random() < 0.5:
                o["tmo"] = 1000
            elif self.conf.http_timeout is not None:
                o["tmo"] = int(self.conf.http_timeout * 1000)
            o["percall"] = o["tmo"] == 1000
            sp = self.special.get(v, 1)
            o["raw"] = type(sp) is bytes or (v not in self.special and rng.random() < 0.3)
            _net.script[(frm, to, key, v)] = (o["peer"], o["stall"])
        else:
            o["async"] = rng.random() < 0.5
        return o

    def mk_recv(self, frm, to, key):
        rng = self.rng
        o = {"op": "recv", "frm": frm, "to": to, "key": key, "tmo": -1}
        if self.kind == "http":
            if rng.random() < 0.6:
                o["percall"] = rng.choice([0.5, 1.5, 2.5])
                o["tmo"] = int(o["percall"] * 1000)
            elif self.default is not None:
                o["tmo"] = int(self.default * 1000)
        return o

    def thread(self, plan):
        rec, comms = self.rec, self.comms
        tid = rec.thr()

        def spec(o):
            return {k: v for k, v in o.items() if k not in ("percall", "raw")}

        def run():
            s = sched._current
            handles = []
            for o in plan:
                kind = o["op"]
                if kind == "sleep":
                    time.sleep(o["d"])
                    continue
                if kind == "send" and o["async"]:
                    h = rec.thr()
                    rec.call(h, spec(o), s)
                    try:
                        req = comms[o["frm"]].send(o["to"], o["key"], *self.payload(o)[:1], **self.payload(o)[1])
                        rec.posted(h, s)
                        handles.append((h, req))
                    except RuntimeError:
                        rec.ret(h, "error", -1, s)
                    if handles and self.rng.random() < 0.5:
                        self.wait(handles.pop(0), s)
                    continue
                rec.call(tid, spec(o), s)
                try:
                    if kind == "send":
                        data, kw = self.payload(o)
                        if o.get("percall"):
                            kw["timeout"] = o["tmo"] / 1000.0
                        comms[o["frm"]].send_sync(o["to"], o["key"], data, **kw)
                        r, v = "ok", -1
                    elif kind == "recv":
                        kw = {"timeout": o["percall"]} if o.get("percall") else {}
                        v = comms[o["to"]].recv(o["frm"], o["key"], **kw)
                        r, v = "val", decode_payload(self.special, v)
                    elif kind == "shutdown":
                        comms[o["to"]].shutdown()
                        r, v = "ok", -1
                    elif kind == "waitpending":
                        comms[o["to"]].wait_pending_sends()
                        r, v = "ok", -1
                    elif kind == "stats":
                        r, v = "stats", self.stats(o["to"])
                except TimeoutError:
                    r, v = "timeout", -1
                except RuntimeError:
                    r, v = ("shut" if kind == "recv" else "error"), -1
                rec.ret(tid, r, v, s)
            for h in handles:
                self.wait(h, s)

        return run

    def payload(self, o):
        if o["v"] in self.special:
            return self.special[o["v"]], ({"is_raw_bytes": True} if o.get("raw") else {})
        if o.get("raw"):
            return str(o["v"]).encode(), {"is_raw_bytes": True}
        return o["v"], {}

    def wait(self, hr, s):
        h, req = hr
        try:
            req.wait()
            self.rec.ret(h, "ok", -1, s)
        except TimeoutError:
            self.rec.ret(h, "timeout", -1, s)
        except httpx.TimeoutException:
            self.rec.ret(h, "timeout", -1, s)
        except RuntimeError:
            self.rec.ret(h, "error", -1, s)

    def stats(self, r):
        st = self.comms[r].stats.snapshot()
        return {"sent": st["messages_sent"], "errs": st["send_errors"], "recvd": st["messages_received"], "tmos": st["recv_timeouts"]}

    def final(self):
        """Probing after quiescence: duplicate sends find what is undelivered; statistics."""
        rec = self.rec
        tid = rec.thr()

        def run():
            s = sched._current
            if self.kind == "http":
                for r in range(self.ranks):
                    rec.call(tid, {"op": "waitpending", "to": r, "tmo": 120000}, s)
                    self.comms[r].wait_pending_sends()
                    rec.ret(tid, "ok", -1, s)
            for to in range(self.ranks):
                for frm in range(self.ranks):
                    for key in self.keys:
                        if frm == to:
                            continue
                        self.val += 1
                        o = {"op": "send", "frm": frm, "to": to, "key": key, "v": self.val, "peer": "ok", "stall": 0, "tmo": -1, "async": False}
                        rec.call(tid, o, s)
                        try:
                            self.comms[frm].send_sync(to, key, self.val)
                            rec.ret(tid, "ok", -1, s)
                        except RuntimeError:
                            rec.ret(tid, "error", -1, s)
            if self.kind == "http":
                for r in range(self.ranks):
                    rec.call(tid, {"op": "stats", "to": r}, s)
                    rec.ret(tid, "stats", self.stats(r), s)

        return run


def one(chk, rng, kind, focus):
    sc = Script(rng, kind, focus)
    plans = sc.build()
    pt = 0.04 if sc.slow and kind == "http" else 0.0
    if rng.random() < 0.5:
        strat = sched.RandomStrategy(rng, p=rng.choice([0.05, 0.2, 0.5]), pt=pt)
    else:
        strat = sched.PCTStrategy(rng, d=rng.choice([2, 4]), length=300, pt=pt)
    s = sched.Scheduler(strat, trace_files=(core.MPLANG + "/backends/simp_worker",), max_steps=200000, opcodes=rng.random() < 0.2)
    threads = [sc.thread(p) for p in plans]
    live = {}

    done = []

    def wrap(i, f):
        def g():
            f()
            done.append(i)
        return g

    # the final prober starts once nothing else can run: it waits on a clock
    # far beyond every deadline, so every other thread is finished or blocked.
    def prober():
        sched.patient_sleep(60)
        sc.rec.ev.append({"e": "quiesce", "at": sc.rec.at(s)})
        sc.final()()
        s.finish()

    s_strat_pt = getattr(strat, "pt", 0)
    recs = s.run([wrap(i, f) for i, f in enumerate(threads)] + [prober])
    trace = {"kind": kind, "slow": sc.slow, "eps": 30, "late": 1600, "nthreads": sc.rec.nthr, "ranks": sc.ranks, "ev": sc.rec.ev}
    errs = [repr(r.exc) for r in recs if r.exc is not None and not r.aborted]
    return trace, s, errs, plans


def run(chk, focus):
    import mplang.backends.simp_worker.http
    import mplang.backends.simp_worker.mem
    import mplang.edsl.serde

    patch_httpx()
    # 1. the specification has the properties
    def mc(n, calls, clk, live):
        ths = [f"t{i}" for i in range(n)]
        return run_tlc("MC_Comm", cfg(spec="FairSpec" if live else "Spec",
                       constants={"Threads": "{%s}" % ", ".join(ths), **{t: t for t in ths}, "MaxCalls": calls, "MaxClock": clk, "Shuts": "TRUE"},
                       invariants=("OnePerKey", "NothingLost", "NotTwice", "StatsExact"),
                       properties=("BoundedEnds",) if live else (), symmetry=None if live else "Sym"),
                       workers=8, timeout=1500)
    chk.spec_ok(mc(2, 3, 2, False), "MC_Comm 2 threads 3 calls")
    if focus == "C02":
        chk.spec_ok(mc(2, 2, 2, True), "MC_Comm liveness 2 threads 2 calls")
    if chk.thorough:
        chk.spec_ok(mc(3, 3, 2, False), "MC_Comm 3 threads 3 calls")
    # 2. executions of the implementation are behaviours of the specification
    n = chk.n(500, 8000)
    batch, meta = [], []

    def job(i):
        kind = "mem" if (i % 3 == 0 if focus == "C02" else i % 2 == 0) else "http"
        seed = f"{chk.seed}-{focus}-{i}"
        trace, s, errs, plans = one(chk, random.Random(seed), kind, focus)
        return seed, trace, s.outcome, s.blocked_info, errs, plans

    for seed, trace, outcome, blocked, errs, plans in core.pmap(chk, job, range(n)):
        if outcome in ("livelock", "stuck"):
            chk.violation(f"no-progress:{seed}", {"plans": plans, "outcome": outcome, "blocked": blocked, "events": trace["ev"]})
            continue
        if errs:
            chk.violation(f"unexpected-error:{errs[0][:120]}", {"seed": seed, "plans": plans, "errors": errs, "events": trace["ev"]})
            continue
        batch.append(trace)
        meta.append((seed, plans))
    r, acc, prog = validate_traces("Trace_Comm", batch, extra_inv=("Safe",))
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("events", sum(len(t["ev"]) for t in batch))
    chk.sample({"seed": meta[0][0], "trace": batch[0]["ev"][:12]})
    for i, t in enumerate(batch, 1):
        if i not in acc:
            at = prog.get(i, 0)
            chk.violation(f"trace-rejected:{meta[i-1][0]}", {"rejected_event": t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None, "position": at,
                          "kind": t["kind"], "plans": meta[i - 1][1], "events": t["ev"]})
    # 3. the binding is real: a corrupted trace is rejected
    binding(chk, batch, "Trace_Comm")
    chk.assumptions += ["the peers' HTTP responses are scripted below httpx (httpx.MockTransport)", "virtual time; one managed thread runs at a time, preemption at every line (sometimes opcode) of simp_worker"]


def binding(chk, batch, module):
    import copy

    bad = []
    for t in batch:
        for k, e in enumerate(t["ev"]):
            if e["e"] == "ret" and e["r"] == "val":
                t2 = copy.deepcopy(t)
                t2["ev"][k]["v"] = 9999
                bad.append(t2)
                break
        if len(bad) >= 5:
            break
    r, acc, _ = validate_traces(module, bad)
    if acc:
        raise RuntimeError("binding self-test: corrupted traces were accepted")
    chk.extra["corrupted_traces_rejected"] = len(bad)
