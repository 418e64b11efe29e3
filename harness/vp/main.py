"""python -m vp.main <property id>: run one check under supervision."""

import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HARD_LIMIT = float(os.environ.get("VP_HARD_LIMIT", "0")) or (840 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6 * 3600)


def child(pid):
    from vp import core

    mod = importlib.import_module(f"vp.checks.{pid.lower()}")
    chk = core.Check(pid)
    try:
        mod.run(chk)
    except Exception as e:
        if core.is_repo_failure(e):
            chk.violation(f"unexpected-exception:{type(e).__name__}", {"traceback": traceback.format_exc()[-4000:]})
        else:
            traceback.print_exc()
            chk.idle()
            if chk.violations:
                sys.stdout.flush()
                os._exit(chk.finish())
            os._exit(2)
    rc = chk.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main():
    pid = sys.argv[1]
    if os.environ.get("VP_CHILD"):
        child(pid)
        return
    work = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    hb = os.path.join(work, "heartbeat")
    env = dict(os.environ, VP_CHILD="1", VP_HEARTBEAT=hb, VP_WORK=work, TMPDIR=work, MPLANG_DATA_ROOT=os.path.join(work, "mpl"))
    os.makedirs(os.path.join(work, "cwd"))
    p = subprocess.Popen([sys.executable, "-m", "vp.main", pid], env=env, cwd=os.path.join(work, "cwd"), start_new_session=True)
    t0 = time.time()
    rc = None
    try:
        while True:
            try:
                rc = p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                h = json.load(open(hb))
            except Exception:
                h = {"desc": None, "t": 0, "limit": 0}
            hung = h["desc"] is not None and time.time() - h["t"] > h["limit"]
            if hung or time.time() - t0 > HARD_LIMIT:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                if hung:
                    d = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "replays")
                    os.makedirs(d, exist_ok=True)
                    path = os.path.join(d, f"{pid}-hang.json")
                    json.dump({"property": pid, "sig": "hang", "detail": h}, open(path, "w"))
                    print(f"VIOLATION property={pid} replay={path}\n  the code under test did not return within {h['limit']}s: {h['desc'][:1000]}", flush=True)
                    rc = 1
                else:
                    print("check exceeded its hard time limit", flush=True)
                    rc = 2
                break
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        shutil.rmtree(work, ignore_errors=True)
    if rc not in (0, 1):
        print(f"check ended with {rc}", flush=True)
        rc = 2
    sys.exit(rc)


main()
