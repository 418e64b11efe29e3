"""Development aid: python3 tools/mut.py <check id> <file under mplang> <old> <new> [n]  (runs on a scratch copy)."""
import os, shutil, subprocess, sys, tempfile, time
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut-")
try:
    shutil.copytree(os.environ.get("VP_BASE", "/repo") + "/mplang", d + "/mplang")
    p = f"{d}/mplang/{f}"
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    assert old in s, "pattern not found"
    s = s.replace(old, new, 1) if len(sys.argv) < 6 else s.replace(old, new)
    open(p, "w").write(s)
    t = time.time()
    r = subprocess.run(["/verif/run.sh", pid], env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout
    print(f"{pid} rc={r.returncode} {time.time()-t:.0f}s", [l[:230] for l in out.splitlines() if "VIOLATION" in l or l.startswith("  ")][:4] if r.returncode == 1 else out[-1500:])
finally:
    shutil.rmtree(d)
