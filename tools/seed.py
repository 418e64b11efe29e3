"""Plants a bug: python3 tools/seed.py <id>   (reads /verif/seeded/<id>/edit.json-like spec from stdin)
stdin: python dict with property, needs, breaks, edits=[(file, old, new)], demo (python source).
Confirms it against /repo (applied and undone) and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
spec = eval(sys.stdin.read())
d = f"/verif/seeded/{sid}"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --short").stdout == "", "repo dirty"
os.makedirs(d, exist_ok=True)
shutil.copytree("/verif/harness/stubs", d + "/stubs", dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
open(d + "/demo.py", "w").write(spec["demo"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nR=$PWD\nW=$(mktemp -d) && cd "$W" || exit 3\nexport PYTHONPATH="$R:$D/stubs" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\ntimeout 120 /opt/venv/bin/python "$D/demo.py"; rc=$?\ncd / && rm -rf "$W"\nexit $rc\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r = sh(f"{d}/demo.sh", cwd="/repo")
if r.returncode != 0:
    print("DEMO FAILS ON CLEAN TREE", r.stdout[-1500:]); sys.exit(1)
try:
    for f, old, new in spec["edits"]:
        p = f"/repo/mplang/{f}"
        s = open(p).read()
        assert s.count(old) >= 1, ("pattern", f, old)
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh(f"{d}/demo.sh", cwd="/repo")
    print("demo with patch rc", r.returncode, r.stdout.strip()[-300:])
    bad = r.returncode == 0
    o = f"/tmp/seedtest.json"
    sh(f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {o}")
    res = json.load(open(o)); base = json.load(open("/opt/vp/BASELINE.json"))
    passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else set()
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    miss = [t for t in stable if t not in passed]
    print("stable tests failing:", len(miss), miss[:5])
    if "--check" in sys.argv:
        r = sh(f"/verif/run.sh {spec['property']} quick")
        print("CHECK rc", r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines() if "VIOL" in l or l.startswith("  "))[:900] if r.returncode == 1 else r.stdout[-600:])
    if bad or miss: print("=> NOT KEPT"); shutil.rmtree(d)
    else: print("=> kept", sid)
finally:
    sh("git -C /repo checkout -- .")
