"""Running TLC on the specifications in /verif/spec."""

from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC itself failed (machinery error, not a verdict)."""


@dataclass
class TLCResult:
    ok: bool
    output: str
    states: int = 0
    distinct: int = 0
    violated: str = ""
    prints: list = field(default_factory=list)
    actions: dict = field(default_factory=dict)
    complete: bool = False
    diag: dict = field(default_factory=dict)


_UNTLA = re.compile(r'"((?:[^"\\]|\\.)*)"')


def run_tlc(module, cfg, *, env=None, workers=4, simulate=None, depth=None, timeout=600,
            coverage=False, seed=None, deadlock=False, heap="4g", view_prints=True, extra=()):
    """Run TLC on spec/<module>.tla with configuration text ``cfg``."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg)
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-config", "run.cfg",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta")]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        if depth is not None:
            cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra)
        cmd.append(module)
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
            out, rc, timed = p.stdout, p.returncode, False
        except subprocess.TimeoutExpired as te:
            out = (te.stdout or b"").decode("utf8", "replace") if isinstance(te.stdout, bytes) else (te.stdout or "")
            rc, timed = -1, True
        r = TLCResult(ok=False, output=out)
        if timed:
            raise TLCError(f"TLC timed out after {timeout}s on {module}\n{out[-2000:]}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            r.states = int(m[-1])
        r.complete = "Model checking completed. No error has been found." in out
        for mm in re.finditer(r"^<(\w+) line.*?>: (\d+):(\d+)", out, re.M):
            a = r.actions.setdefault(mm.group(1), 0)
            r.actions[mm.group(1)] = a + int(mm.group(3))
        if view_prints:
            for line in out.splitlines():
                if line.startswith('"@') and line.endswith('"'):
                    # PrintT("@" \o ToJson(x)): a TLA+ string literal
                    raw = line[2:-1]
                    raw = raw.replace('\\"', '"').replace("\\\\", "\\")
                    r.prints.append(json.loads(raw))
        m = re.search(r"Error: Invariant (\S+) is violated", out) or re.search(r"Error: Action property (.*?) is violated", out) \
            or re.search(r"Error: Temporal propert.*violated", out) or re.search(r"Error: (The postcondition .*?) ", out) \
            or re.search(r"Error: (Deadlock) reached", out) or re.search(r"Error: Evaluating (assumption|invariant) (.*?) failed", out) \
            or re.search(r"Error: The invariant of \S+ is equal to FALSE", out) or re.search(r"Error: Assumption (.*?) is false", out)
        if m:
            r.violated = m.group(0)
            return r
        if rc != 0:
            raise TLCError(f"TLC exited {rc} on {module}\n{out[-3000:]}")
        r.ok = True
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(), post=None,
        view=None, init=None, next_=None, symmetry=None):
    lines = []
    if init:
        lines += [f"INIT {init}", f"NEXT {next_}"]
    else:
        lines.append(f"SPECIFICATION {spec}")
    if constants:
        lines.append("CONSTANTS")
        for k, v in constants.items():
            lines.append(f"  {k} {'<-' if isinstance(v, str) and v.startswith('<-') else '='} {v[2:].strip() if isinstance(v, str) and v.startswith('<-') else v}")
    for i in invariants:
        lines.append(f"INVARIANT {i}")
    for i in properties:
        lines.append(f"PROPERTY {i}")
    for i in constraints:
        lines.append(f"CONSTRAINT {i}")
    for i in action_constraints:
        lines.append(f"ACTION_CONSTRAINT {i}")
    if post:
        lines.append(f"POSTCONDITION {post}")
    if view:
        lines.append(f"VIEW {view}")
    if symmetry:
        lines.append(f"SYMMETRY {symmetry}")
    return "\n".join(lines) + "\n"


def validate_traces(module, traces, *, constants=None, spec="TraceSpec", workers=8, timeout=600, extra_inv=(), heap="6g"):
    """Validate recorded traces: returns (TLCResult, accepted ids, progress of rejected).

    The trace module reads ndjson from IOEnv.TRACE_FILE (one trace per line),
    chooses ``tid`` initially and prints "@[tid]" once a trace is fully
    consumed (operator Accept used as an invariant).
    """
    if not traces:
        return TLCResult(ok=True, output="", complete=True), set(), {}
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson")
    with os.fdopen(fd, "w") as fh:
        for t in traces:
            fh.write(json.dumps(t) + "\n")
    try:
        r = run_tlc(module, cfg(spec=spec, constants=constants, invariants=("Accept", *extra_inv)),
                    env={"TRACE_FILE": path, "TRACE_DIAG": "0"}, workers=workers, timeout=timeout, heap=heap)
        acc = {p["acc"] for p in r.prints if isinstance(p, dict) and "acc" in p}
        progress = {}
        for i, t in enumerate(traces, 1):
            if i not in acc and len(progress) < 3:
                with open(path, "w") as fh:
                    fh.write(json.dumps(t) + "\n")
                rr = run_tlc(module, cfg(spec=spec, constants=constants, invariants=("Accept", *extra_inv)),
                             env={"TRACE_FILE": path, "TRACE_DIAG": "1"}, workers=1, timeout=timeout)
                at = max([p["at"] for p in rr.prints if isinstance(p, dict) and "at" in p] or [0])
                progress[i] = at
                r.diag[i] = [p for p in rr.prints if isinstance(p, dict) and "at" in p][-1:]
        return r, acc, progress
    finally:
        os.unlink(path)
