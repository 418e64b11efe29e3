"""Common machinery of the checks: verdicts, evidence, known findings."""

from __future__ import annotations

import json
import os
import random
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
MPLANG = REPO + "/mplang"


def short(x, n=2000):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.monotonic()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.findings = []
        self.assumptions = []
        self.known = self._known()
        self.heartbeat = os.environ.get("VP_HEARTBEAT")

    def _known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return {}
        out = {}
        for e in json.load(open(p)).get("findings", []):
            if e.get("property") == self.pid:
                out[e["sig"]] = e
        return out

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- supervision: what is being executed now (a hang here is the code's)
    def running(self, desc, limit=120):
        if self.heartbeat:
            with open(self.heartbeat, "w") as fh:
                json.dump({"desc": short(desc, 8000), "t": time.time(), "limit": limit}, fh)

    def idle(self):
        if self.heartbeat:
            with open(self.heartbeat, "w") as fh:
                json.dump({"desc": None, "t": time.time(), "limit": 0}, fh)

    # -- results
    def tlc(self, r, what=""):
        """Account a TLC run; a failed spec check is a machinery failure."""
        self.states += r.distinct
        self.transitions += r.states
        return r

    def spec_ok(self, r, what):
        self.tlc(r)
        self.extra.setdefault("spec_runs", []).append({"what": what, "distinct_states": r.distinct, "states_generated": r.states})
        if not r.ok:
            raise RuntimeError(f"the specification itself violates its properties: {what}: {r.violated}\n{r.output[-3000:]}")
        return r

    def sample(self, x, cap=4):
        if len(self.samples) < cap:
            self.samples.append(x if len(json.dumps(x, default=str)) < 4000 else short(x, 4000))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, sig, detail):
        """Report a violation. ``sig`` identifies the failing input/history."""
        if sig in self.known:
            if sig not in [f for f in self.findings]:
                self.findings.append(sig)
                print(f"KNOWN-FINDING: property={self.pid} {self.known[sig].get('what', sig)}", flush=True)
            return
        if len(self.violations) >= 5:
            self.violations.append(sig)
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "sig": sig, "seed": self.seed, "tier": self.tier, "detail": detail}, fh, indent=1, default=str)
        self.violations.append(sig)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        print(f"  {short(sig, 400)}: {short(detail, 1500)}", flush=True)

    def expect(self, cond, sig, detail=None):
        if not cond:
            self.violation(sig, detail)
        return cond

    def finish(self):
        self.idle()
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["-"], **self.extra,
            },
            "assumptions": self.assumptions, "wall_s": round(time.monotonic() - self.t0, 2) if True else 0,
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.pid}: states={self.states} transitions={self.transitions} traces={self.traces} violations={len(self.violations)} wall={ev['wall_s']}s {json.dumps({k: v for k, v in self.extra.items() if isinstance(v, int)})}", flush=True)
        return 1 if self.violations else 0


def scratch(prefix="vp-"):
    return tempfile.mkdtemp(prefix=prefix)


def is_repo_failure(exc):
    """True if the innermost frame of the traceback that is ours or the repo's is the repo's."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(MPLANG):
            last = "repo"
        elif f.startswith(VERIF):
            last = "harness"
        tb = tb.tb_next
    return last == "repo"


class JobFailure(Exception):
    pass


def pmap(chk, fn, items, procs=7, limit=180, chunk=None):
    """Ordered parallel map over forked processes (results travel as JSON).

    A job that does not return within ``limit`` seconds, or a process that
    dies, is reported as a violation (the jobs execute the code under test).
    """
    import pickle
    import traceback

    items = list(items)
    procs = max(1, min(procs, len(items)))
    d = tempfile.mkdtemp(prefix="pmap-")
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(procs):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with open(os.path.join(d, f"out{w}"), "wb") as fh:
                    for i in range(w, len(items), procs):
                        with open(os.path.join(d, f"cur{w}"), "w") as c:
                            c.write(json.dumps({"i": i, "t": time.time()}))
                        try:
                            res = ("ok", fn(items[i]))
                        except Exception as e:
                            res = ("repo" if is_repo_failure(e) else "harness", traceback.format_exc()[-4000:])
                        pickle.dump((i, res), fh)
                        fh.flush()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = w
    hung = {}
    while pids:
        for pid in list(pids):
            r, st = os.waitpid(pid, os.WNOHANG)
            w = pids[pid]
            if r:
                del pids[pid]
                if st != 0:
                    hung[w] = f"process ended with status {st}"
                continue
            try:
                c = json.load(open(os.path.join(d, f"cur{w}")))
            except Exception:
                continue
            if _wall() - c["t"] > limit:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                del pids[pid]
                hung[w] = f"no result within {limit}s"
        if pids:
            _wsleep(0.02)
        if chk is not None and chk.heartbeat:
            chk.idle()
    out = {}
    for w in range(procs):
        with open(os.path.join(d, f"out{w}"), "rb") as fh:
            while True:
                try:
                    i, res = pickle.load(fh)
                except EOFError:
                    break
                except Exception:
                    break
                out[i] = res
    results = []
    for w, why in hung.items():
        i = json.load(open(os.path.join(d, f"cur{w}")))["i"]
        chk.violation(f"no-answer:{short(items[i], 200)}", {"item": short(items[i]), "why": why})
    import shutil

    shutil.rmtree(d, ignore_errors=True)
    for i in range(len(items)):
        if i not in out:
            continue
        k, v = out[i]
        if k == "harness":
            raise JobFailure(f"item {short(items[i], 500)}\n{v}")
        if k == "repo":
            chk.violation(f"unexpected-exception:{v.strip().splitlines()[-1][:150]}", {"item": short(items[i]), "traceback": v})
            continue
        results.append(v)
    return results


_wall = time.time
_wsleep = time.sleep
