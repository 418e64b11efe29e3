"""Real directory trees, and operations of real stores on them, with snapshots (as an unprivileged user)."""

from __future__ import annotations

import json
import os
import random
import resource
import shutil
import signal
import tempfile

from vp import unpriv

OUT = ["/OUT/"]
ROOT = ["u", "w", "store"]
CWD = ["u", "cwd"]
#: names, among them those of siblings that begin like the root's
NAMES = ["a", "b", "store", "store2", "store-x", "c.csv", "w", "u", "local"]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.top = os.path.join(tempfile.mkdtemp(prefix="vp-paths-"), "1", "2", "3")
        os.makedirs(self.top)
        try:
            self.shm = tempfile.mkdtemp(prefix="vp-paths-", dir="/dev/shm")
        except OSError:
            self.shm = None
        self.contents = {}                   # bytes -> number
        self.ev = []

    def real(self, p):
        if p and p[0] == "shm" and self.shm:
            return os.path.join(self.shm, *p[1:])
        return os.path.join(self.top, *p)

    def rel(self, path):
        for base, pre in ((self.top, []), (self.shm, ["shm"])):
            if base and (path == base or path.startswith(base + "/")):
                return pre + [x for x in path[len(base):].split("/") if x]
        return OUT

    def content(self, b):
        return self.contents.setdefault(b, len(self.contents) + 1)

    def snapshot(self):
        out = []
        for base in (self.top, self.shm):
            if not base:
                continue
            if base is self.shm:
                out.append({"p": ["shm"], "k": "d", "c": 0, "t": []})
            for d, ds, fs in os.walk(base):
                for x in ds + fs:
                    full = os.path.join(d, x)
                    p = self.rel(full)
                    if os.path.islink(full):
                        t = os.readlink(full)
                        t = os.path.normpath(os.path.join(d, t)) if not os.path.isabs(t) else os.path.normpath(t)
                        out.append({"p": p, "k": "l", "c": 0, "t": self.rel(t)})
                    elif os.path.isdir(full):
                        out.append({"p": p, "k": "d", "c": 0, "t": []})
                    else:
                        with open(full, "rb") as fh:
                            out.append({"p": p, "k": "f", "c": self.content(fh.read()), "t": []})
        return out

    # -- the tree at the beginning
    def plant(self):
        import pickle

        rng = self.rng
        for p in (ROOT, CWD, ["u", "local"], ["u", "w", "store2"], ["u", "w", "store-x", "a"], ["store"]):
            os.makedirs(self.real(p), exist_ok=True)
        self.val = {}
        secrets = [["u", "w", "store2", "a"], ["u", "w", "store-x", "a", "b"], ["u", "w", "a"], ["u", "a"], ["store", "a"], ["c.csv"], ["u", "cwd", "a"], ["u", "cwd", "c.csv"]]
        for i, p in enumerate(secrets):
            if rng.random() < 0.7 and not os.path.exists(self.real(p)):
                v = 50 + i
                b = pickle.dumps(("object", v)) if rng.random() < 0.7 else f"secret,{v}\n".encode()
                with open(self.real(p), "wb") as fh:
                    fh.write(b)
                if b[:1] == b"\x80":
                    self.val[self.content(b)] = v
        dirs = [ROOT]
        for _ in range(rng.choice([0, 1, 3, 6])):
            d = rng.choice(dirs)
            p = [*d, rng.choice(NAMES[:6])]
            if os.path.lexists(self.real(p)):
                continue
            z = rng.random()
            if z < 0.3:
                os.makedirs(self.real(p))
                dirs.append(p)
            elif z < 0.55:
                with open(self.real(p), "wb") as fh:
                    fh.write(b"row\n" * rng.choice([1, 2]) + b"x" * rng.choice([0, 3]))
            else:
                t = rng.choice([*secrets, ROOT, [], ["u", "w", "store2"], ["u", "w"], [*ROOT, "a"], [*ROOT, "b"], p, ["nowhere"], [*ROOT, "a", "b"]])
                os.symlink(self.real(t) if rng.random() < 0.6 else os.path.relpath(self.real(t), os.path.dirname(self.real(p))), self.real(p))
        for x in ("s1", "s2", "s3"):
            self.local_file(["u", "local", x])
        if self.shm and rng.random() < 0.5:
            self.local_file(["shm", "s4"])

    def local_file(self, p):
        """Something to upload: usually a file, of few different contents."""
        rng = self.rng
        full = self.real(p)
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full)
        elif os.path.lexists(full):
            os.remove(full)
        z = rng.random()
        if z < 0.75:
            with open(full, "wb") as fh:
                fh.write(rng.choice([b"row\n", b"row\nrow\n", b"ROW\n", b"other", b"z" * 9000, b""]))
        elif z < 0.85:
            os.makedirs(full)
            with open(os.path.join(full, "part"), "wb") as fh:
                fh.write(b"part")
            if rng.random() < 0.4:
                os.symlink(self.real(rng.choice([["c.csv"], [*ROOT, "a"]])), os.path.join(full, "ln"))
        elif z < 0.97:
            t = rng.choice([[*ROOT, "a"], [*ROOT, "b"], ["u", "a"], ["c.csv"], ["u", "local", "s1"], ["u", "cwd", "a"], ["nowhere"], [*ROOT]])
            os.symlink(self.real(t), full)

    # -- keys
    def key(self):
        """(the key, its components from the root or top, absolute)"""
        rng = self.rng
        z = rng.random()
        if z < 0.5:
            cs = [rng.choice(NAMES[:6]) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.3:
                cs.insert(rng.randrange(len(cs) + 1), rng.choice([".", "", "..", "x/.."]))
        elif z < 0.75:
            up = rng.choice([1, 1, 1, 2, 3, 4])
            cs = [".."] * up + [rng.choice([*NAMES, "w", "store", "store2"]) for _ in range(rng.choice([0, 1, 2, 3]))]
            if rng.random() < 0.4:
                cs = [rng.choice(["a", "b", "nope"]), "..", *cs]
        elif z < 0.9:
            p = rng.choice([["u", "w", "store2", "a"], ["u", "a"], ["c.csv"], [*ROOT, "a"], ["u", "cwd", "a"]])
            cs = os.path.relpath(self.real(p), self.real(ROOT)).split("/")
        else:
            cs = [rng.choice(["..", ".", "", "a", "b", "store2"]) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
        cs = [y for x in cs for y in x.split("/")]
        if sum(c == ".." for c in cs) > 5:
            cs = [".."] * 5 + ["a"]
        return "/".join(cs), cs

    def abskey(self):
        rng = self.rng
        p = rng.choice([["u", "a"], ["c.csv"], ["u", "w", "store2", "a"], ["u", "new", "x"], [*ROOT, "a"], ["u", "local", "s2"], ["u", "fresh"], ["u", "w"], ["u", "local", "s1"]])
        return self.real(p), p

    def add(self, op, **k):
        e = {"op": op, "cs": [], "abs": False, "loc": [], "v": 0, "f": False, "s": "ok", "got": 0, "key": ""}
        e.update(k)
        e["tree"] = self.snapshot()
        self.ev.append(e)

    def store(self):
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        root = self.real(ROOT)
        r = self.rng.choice([root, root, root + "/", os.path.relpath(root), os.path.join(root, ".."), root])
        if r.endswith(".."):
            r = os.path.join(root, "..", "store")
        return ObjectStore(persistent=FileSystemBackend(root_path=r))

    def run(self):
        rng = self.rng
        self.plant()
        os.chdir(self.real(CWD))
        st = self.store()
        tree = self.snapshot()
        for _ in range(rng.choice([1, 3, 6, 10])):
            if rng.random() < 0.1:
                st = self.store()
            self.step(rng, st)
        n = len(self.contents) + 1
        return {"root": ROOT, "cwd": CWD, "tree": tree, "contents": n, "val": [self.val.get(i, 0) for i in range(1, n + 1)], "ev": self.ev, "top": self.top}

    def guarded(self, fn, fault):
        """Run an operation; fault: nothing, a full disk or an unwritable directory."""
        undo = []
        if fault == "full":
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.rng.choice([0, 1, 2, 5, 100, 8192]), old[1]))
            undo.append(lambda: resource.setrlimit(resource.RLIMIT_FSIZE, old))
        elif fault:
            os.chmod(self.real(fault), 0o555)
            undo.append(lambda: os.chmod(self.real(fault), 0o755))
        try:
            return "ok", fn()
        except Exception as e:
            if os.environ.get("VP_DEBUG"):
                print(repr(e)[:300])
            return "missing" if isinstance(e, (KeyError, FileNotFoundError)) else "no", None
        finally:
            for u in undo:
                u()

    def step(self, rng, st):
        z = rng.random()
        fault = rng.choice(["full", "full", ROOT, ["u", "local"]]) if rng.random() < 0.15 else None
        key, cs = self.key()
        if z < 0.5:
            slash = rng.choice(["", "", "", "/", "//"])
            uri = "fs://" + slash + key
            plain = rng.random() < 0.3 and "://" not in key
        if z < 0.16:
            v = rng.randrange(1, 6)
            s, _ = self.guarded(lambda: st.put(("object", v), uri=slash + key if plain else uri), fault)
            self.add("put", cs=cs, v=v, s=s, f=bool(fault), key=uri)
        elif z < 0.3:
            s, got = self.guarded(lambda: st.get(uri), None)
            n = got[1] if isinstance(got, tuple) and len(got) == 2 and got[0] == "object" else -1
            self.add("get", cs=cs, s=s, got=n, key=uri)
        elif z < 0.42:
            s, _ = self.guarded(lambda: st.delete(uri), None)
            self.add("del", cs=cs, s=s, key=uri)
        elif z < 0.5:
            s, got = self.guarded(lambda: st.exists(uri), None)
            self.add("exists", cs=cs, s=s, got=int(bool(got)), key=uri)
        elif z < 0.92:
            ab = rng.random() < 0.2
            if ab:
                key, cs = self.abskey()
            elif key.startswith("/"):
                key = key.lstrip("/") or "a"
                cs = key.split("/")
            if z < 0.72:
                loc = rng.choice([["u", "local", "s1"], ["u", "local", "s2"], ["u", "local", "s3"], ["shm", "s4"], ["u", "local", "none"]])
                if loc[0] == "shm" and not self.shm:
                    loc = ["u", "local", "s1"]
                s, _ = self.guarded(lambda: st.upload(self.real(loc), key), fault)
                self.add("upload", cs=cs, abs=ab, loc=loc, s=s, f=bool(fault), key=key)
            else:
                loc = rng.choice([["u", "local", "s1"], ["u", "local", "s2"], ["u", "local", "d1"], ["u", "local", "d2", "x"], ["u", "cwd", "t"], ["u", "local"]])
                fault = fault if fault != "full" else None
                s, _ = self.guarded(lambda: st.download(key, self.real(loc)), fault)
                self.add("download", cs=cs, abs=ab, loc=loc, s=s, f=bool(fault), key=key)
        else:
            p = ["u", "local", rng.choice(["s1", "s2", "s3"])] if rng.random() < 0.7 or not self.shm else ["shm", "s4"]
            self.local_file(p)
            self.add("touch")


def history(seed):
    """One history in a child process without privileges."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            tempfile.tempdir = "/tmp"
            unpriv.drop()
            wd = World(random.Random(seed))
            try:
                out = wd.run()
            finally:
                os.chdir("/")
                shutil.rmtree(os.path.dirname(os.path.dirname(os.path.dirname(wd.top))), ignore_errors=True)
                if wd.shm:
                    shutil.rmtree(wd.shm, ignore_errors=True)
            with os.fdopen(w, "w") as fh:
                json.dump(out, fh)
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError(f"history {seed} ended with {status}")
    return json.loads(data)
