"""Random histories of the object store, executed in processes that may die."""

from __future__ import annotations

import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time

from vp import unpriv


WORDS = ["a", "b", "A", "a b", "..a", "a..", "...", "é", "e\u0301", "日本", "%2e%2e", "%2F", "a\\b", "a\nb", "*", "?", "~", "-rf", "'", '"', "$HOME",
         "#", "a:b", "mem", "fs", "store", ".hidden", "ckpt", "s100", "x" * 200, "a.pkl", "a.tmp", "0", "None", "con", "a\tb", "\u202e", "😀", "uuid", "list"]
ALIKE = [["a", " a", "a ", "A", "a.", "a\n", "a\t"], ["é", "e\u0301", "É", "e"], ["a b", "a%20b", "a+b", "a_b", "a\u00a0b"], ["a\\b", "a:b", "a|b", "a;b", "a&b"],
         ["x" * 200, "x" * 201, "x" * 199 + "y", "x" * 100], ["ckpt", "ckpt.tmp", "ckpt.pkl", ".ckpt", "ckpt~", "ckpt-1"], ["1", "01", "1.0", "١"]]
BAD = ["", ".", "/", "a\x00b", "x" * 300, "../up", "a/../../up", "..", "\ud800", "q/" * 3000 + "q"]
SECRET = object()


class Unstorable:
    def __reduce__(self):
        raise RuntimeError("cannot be stored")


class Killer:
    def __reduce__(self):
        os._exit(77)


def spelled(rng, comps):
    """One of the ways to write the same path."""
    if rng.random() < 0.55:
        return "/".join(comps)
    out = []
    for i, c in enumerate(comps):
        z = rng.random()
        if z < 0.15:
            out.append(".")
        elif z < 0.25:
            out.append("")
        elif z < 0.35:
            out += ["nowhere", ".."]
        out.append(c)
    s = "/".join(out)
    if rng.random() < 0.15:
        s += "/"
    if rng.random() < 0.2:
        s = "/" + s
    return s


def value(rng, i):
    """Value number i; values of different numbers differ."""
    import numpy as np

    plain = [None, False, 0, "", b"", (), [], {}, 1.5, "mem://x", float("inf"), {1: {2}}]
    if i <= len(plain) and rng.random() < 0.7:
        return plain[i - 1]
    z = rng.random()
    if z < 0.25:
        return {"i": i, "p": [1, (2, None), {"x": b"\x00" * rng.choice([0, 1, 5000])}]}
    if z < 0.45:
        return np.arange(i, i + rng.choice([1, 3, 4000]), dtype=rng.choice(["int32", "float64"]))
    if z < 0.6:
        return (i, "y" * rng.choice([0, 10, 9000]))
    if z < 0.75:
        return [i] * rng.choice([1, 2, 20000])
    if z < 0.85:
        from mplang.edsl import typing as elt

        return elt.TensorType(elt.f32, (i, 2))
    return f"value {i}"


def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b)) if len(a) < 50 else a == b
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class Plan:
    """The references, values and hosts of a history."""

    def __init__(self, rng, tables=False):
        self.rng = rng
        self.hosts = rng.choice([1, 1, 2])
        self.refs = []                      # [kind, host, comps or name, bad]
        names = rng.sample(WORDS if rng.random() < 0.5 else rng.choice(ALIKE), rng.choice([2, 3, 4]))
        paths = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            p = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
            if p not in paths:
                paths.append(p)
        if tables:
            paths = [[c for c in p] for p in paths]
        for h in range(1, self.hosts + 1):
            for p in paths:
                self.refs.append(["tab" if tables and rng.random() < 0.6 else "fs", h, p, False])
            for nm in rng.sample(["x", "X", " x", "x/", "a/b", "a//b", "../a", "", "ckpt", "x\x00"], 2):
                self.refs.append(["mem", h, nm, False])
            if rng.random() < 0.4:
                self.refs.append(["fs", h, rng.choice(BAD), True])
        self.vals = [None]
        for i in range(1, 13):
            while True:
                v = value(rng, i)
                if not any(same(v, w) for w in self.vals[1:]):
                    self.vals.append(v)
                    break
        self.under = [[a + 1, b + 1] for a, x in enumerate(self.refs) for b, y in enumerate(self.refs)
                      if x[0] != "mem" and y[0] != "mem" and not x[3] and not y[3] and x[1] == y[1] and len(x[2]) < len(y[2]) and y[2][:len(x[2])] == x[2]]


class Segment:
    """What one process does with the stores (runs in a forked child)."""

    def __init__(self, plan, base, rng, fd, hosts, names, first):
        from mplang.runtime.interpreter import Interpreter
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        self.plan, self.rng, self.fd, self.base = plan, rng, fd, base
        self.lock = threading.Lock()
        self.names = names                  # new references: uri -> number (this process)
        self.next = first
        self.stores, self.interps = {}, {}
        for h in range(1, plan.hosts + 1):
            root = os.path.join(base, f"h{h}", "store")
            if rng.random() < 0.4:
                root = os.path.relpath(root)
            self.stores[h] = ObjectStore(persistent=FileSystemBackend(root_path=root))
            self.interps[h] = Interpreter(store=self.stores[h])

    def emit(self, e):
        d = {"e": "call", "t": 0, "op": "", "r": 1, "v": 0, "h": 1, "f": False, "s": "", "rs": []}
        d.update(e)
        with self.lock:
            os.write(self.fd, (json.dumps(d) + "\n").encode())

    def note(self, uri, host):
        with self.lock:
            if uri not in self.names:
                self.names[uri] = self.next
                self.next += 1
                self.hostof[self.names[uri]] = host
                os.write(self.fd, (json.dumps({"ref": self.names[uri], "host": host, "uri": uri}) + "\n").encode())
        return self.names[uri]

    def number(self, v):
        from mplang.backends.tensor_impl import TensorValue

        if isinstance(v, TensorValue):
            import numpy as np

            v = np.asarray(v.unwrap())
        for i, w in enumerate(self.plan.vals):
            if i and same(v, w):
                return i
        return -2

    def uri(self, rng, r):
        kind, h, key, bad = self.plan.refs[r - 1]
        if kind == "mem":
            return "mem://" + key
        k = key if bad else spelled(rng, key)
        if rng.random() < 0.4 and "://" not in k:
            return k
        return "fs://" + k

    def full(self, h, uri):
        return uri if "://" in uri else self.stores[h].resolve_uri(uri)

    def call(self, t, op, r, h, v, f, fn):
        self.emit({"t": t, "op": op, "r": r, "v": v, "h": h, "f": f})
        try:
            s, got, rs = fn()
        except (KeyError, FileNotFoundError) as e:
            s, got, rs = ("missing", 0, []) if op in ("get", "del", "tread") else ("refused", 0, [])
            if isinstance(e, FileNotFoundError) and op not in ("tread",):
                s = "refused"
        except Exception as e:
            s, got, rs = "refused", 0, []
            if op == "tread" and any(x in str(e) for x in ("No such file", "No files found")):
                s = "missing"
            if os.environ.get("VP_DEBUG"):
                print(op, r, repr(e)[:300], file=sys.stderr)
        self.emit({"e": "ret", "t": t, "op": op, "s": s, "v": got, "rs": rs})

    # -- operations
    def step(self, rng, t, alone):
        plan = self.plan
        live = [i for i, x in enumerate(plan.refs, 1) if x[0] != "tab"]
        r = rng.choice(live)
        if self.names and rng.random() < 0.25:
            u, r = rng.choice(list(self.names.items()))
            h = self.hostof[r]
            uri = u
            isnew = True
        else:
            h = plan.refs[r - 1][1]
            uri = self.uri(rng, r)
            isnew = False
        st = self.stores[h]
        z = rng.random()
        if z < 0.1:
            v = rng.randrange(1, len(plan.vals))

            def new():
                u = st.put(plan.vals[v])
                return "ok", self.note(u, h), []
            return self.call(t, "new", 1, h, v, False, new)
        if z < 0.42:
            return self.put(rng, t, r, h, uri, alone, isnew)
        if z < 0.62:
            return self.get(rng, t, r, h, uri)
        if z < 0.74:
            def rm():
                st.delete(self.full(h, uri))
                return "ok", 0, []
            return self.call(t, "del", r, h, 0, False, rm)
        if z < 0.88:
            return self.call(t, "exists", r, h, 0, False, lambda: ("ok", int(bool(st.exists(self.full(h, uri)))), []))
        if z < 0.95:
            return self.call(t, "list", 1, h, 0, False, lambda: ("ok", 0, self.listed(h)))
        if alone and rng.random() < 0.3:
            d = os.path.join(self.base, rng.choice(["cwd1", "cwd2"]))
            os.makedirs(d, exist_ok=True)
            os.chdir(d)

    def listed(self, h):
        return [[h, u] for u in self.stores[h].list_keys()]

    def put(self, rng, t, r, h, uri, alone, isnew):
        plan, st = self.plan, self.stores[h]
        v = rng.randrange(1, len(plan.vals))
        z = rng.random()
        obj = plan.vals[v]
        import copy

        persistent = not uri.startswith("mem://")
        if persistent and z < 0.12:
            bad = rng.choice([Unstorable(), threading.Lock(), lambda: 0])
            obj = rng.choice([bad, [obj, bad], ["z" * rng.choice([10, 200000]), obj, bad]])
            return self.call(t, "put", r, h, -1, False, lambda: (st.put(obj, uri=uri), ("ok", r, []))[1])
        if persistent and alone and z < 0.2:
            # the disk is full: no file can grow beyond some size
            def put():
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 1, 3, 20, 200, 4096, 10000]), old[1]))
                try:
                    u = st.put(obj, uri=uri)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
                return "ok", r if u == self.full(h, uri) else 0, []
            return self.call(t, "put", r, h, v, True, put)
        if persistent and alone and z < 0.27:
            if rng.random() < 0.5:
                self.call(t, "put", r, h, -1, False, lambda: (st.put(["z" * rng.choice([10, 200000]), obj, Killer()], uri=uri), ("ok", r, []))[1])
            else:
                def die():
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 1, 3, 20, 200, 4096, 10000]), -1))
                    u = st.put(obj, uri=uri)
                    return "ok", r if u == self.full(h, uri) else 0, []
                # where to write what happened is closed first: it may not grow either
                self.call(t, "put", r, h, v, True, self.dying(die))
            return None
        if persistent and z < 0.4:
            import numpy as np
            from mplang.dialects import store as sd, tensor

            ts = [i for i, x in enumerate(plan.vals) if i and isinstance(x, np.ndarray) and x.dtype == np.int32]
            if ts:
                v = rng.choice(ts)

                def save():
                    with self.lock2:
                        with self.interps[h]:
                            sd.save(tensor.constant(plan.vals[v]), uri)
                    return "ok", r, []
                return self.call(t, "put", r, h, v, False, save)
        mutable = persistent and isinstance(obj, (list, dict)) and rng.random() < 0.5
        if mutable:
            obj = copy.deepcopy(obj)

        def plain():
            u = st.put(obj, uri=uri)
            if mutable:
                obj.clear()                  # what was stored is what it was when it was stored
                if isinstance(obj, list):
                    obj.append("changed")
            return "ok", r if u == self.full(h, uri) else 0, []
        return self.call(t, "put", r, h, v, False, plain)

    def dying(self, fn):
        def run():
            try:
                return fn()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, -1))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        return run

    def get(self, rng, t, r, h, uri):
        st = self.stores[h]
        if not uri.startswith("mem://") and rng.random() < 0.2:
            from mplang.dialects import store as sd
            from mplang.edsl import typing as elt

            def load():
                with self.lock2:
                    with self.interps[h]:
                        o = sd.load(uri, elt.TensorType(elt.i32, (1,)))
                return "ok", self.number(getattr(o, "runtime_obj", o)), []
            return self.call(t, "get", r, h, 0, False, load)

        def get():
            x = st.get(self.full(h, uri))
            n = self.number(x)
            if not uri.startswith("mem://") and isinstance(x, (list, dict)):
                x.clear()                    # what was read is the reader's
            return "ok", n, []
        return self.call(t, "get", r, h, 0, False, get)

    def table(self, rng, t, pending):
        """Tables kept as files in the stores; they are read lazily."""
        import mplang.backends.table_impl  # noqa: F401
        from mplang.dialects import table as tb
        from mplang.edsl import typing as elt

        plan = self.plan
        tabs = [i for i, x in enumerate(plan.refs, 1) if x[0] == "tab"]
        if not tabs:
            return
        r = rng.choice(tabs)
        _, h, key, _ = plan.refs[r - 1]
        path = spelled(rng, key).lstrip("/")
        if path.endswith("/"):
            path = path.rstrip("/")
        z = rng.random()
        it = self.interps[h]
        fmt = "csv" if key[-1] < "b" else "parquet"
        if z < 0.45:
            v = rng.choice([1, 2, 3])

            def write():
                with it:
                    tb.write(tb.constant({"x": [v] * (3 + v % 2)}), path, format=fmt)
                return "ok", r, []
            self.call(t, "twrite", r, h, v, False, write)
        elif z < 0.9:
            self.tn += 1
            t = 1000 + self.tn
            self.emit({"t": t, "op": "tread", "r": r, "h": h})

            def end(s, v):
                self.emit({"e": "ret", "t": t, "op": "tread", "s": s, "v": v})
            try:
                with it:
                    o = tb.read(path, schema=elt.TableType({"x": elt.i64}), format=fmt)
            except FileNotFoundError:
                return end("missing", 0)
            except Exception as e:
                if os.environ.get("VP_DEBUG"):
                    print("tread", r, repr(e)[:300], file=sys.stderr)
                return end("refused", 0)

            def consume():
                try:
                    xs = o.runtime_obj.data["x"].to_pylist()
                except Exception as e:
                    gone = isinstance(e, FileNotFoundError) or any(x in str(e) for x in ("No such file", "No files found"))
                    return end("missing" if gone else "refused", 0)
                ok = xs and xs == [xs[0]] * (3 + xs[0] % 2)
                return end("ok", xs[0] if ok else -2)
            if rng.random() < 0.5:
                return consume()
            pending.append(consume)
        else:
            self.call(t, "del", r, h, 0, False, lambda: (self.stores[h].delete("fs://" + path), ("ok", 0, []))[1])

    def run(self, tables):
        rng = self.rng
        self.lock2 = threading.Lock()
        self.hostof, self.tn = {}, 0
        threads = rng.choice([1, 1, 1, 2, 3]) if not tables else 1
        if threads == 1:
            pending = []
            for _ in range(rng.choice([2, 5, 10, 20])):
                if tables and rng.random() < 0.7:
                    self.table(rng, 1, pending)
                else:
                    self.step(rng, 1, True)
                if pending and rng.random() < 0.3:
                    pending.pop(rng.randrange(len(pending)))()
            for p in pending:
                p()
            return
        sys.setswitchinterval(1e-6)
        rngs = [random.Random(rng.random()) for _ in range(threads)]
        k = rng.choice([2, 4, 6])

        def body(i):
            for _ in range(k):
                self.step(rngs[i], i + 1, False)
        ts = [threading.Thread(target=body, args=(i,)) for i in range(threads)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()


def history(seed, tables=False):
    rng = random.Random(seed)
    plan = Plan(rng, tables)
    base = tempfile.mkdtemp(prefix="vp-store-")
    kinds = [(k if k != "tab" else "fs", h, bad) for k, h, _, bad in plan.refs]
    ev, first = [], len(kinds) + 1
    known = {(h, "mem://" + key if kind == "mem" else "fs://" + (key if bad else "/".join(key))): i for i, (kind, h, key, bad) in enumerate(plan.refs, 1)}
    died = 0
    try:
        for s in range(rng.choice([1, 2, 3, 4])):
            path = os.path.join(base, f"ev{s}")
            sub = random.Random(f"{seed}-{s}")
            cwd = os.path.join(base, "cwd1")
            os.makedirs(cwd, exist_ok=True)
            unpriv.give(base)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    unpriv.drop()
                    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                    os.chdir(cwd)
                    Segment(plan, base, sub, fd, plan.hosts, {}, first).run(tables)
                    code = 0
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
            limit = time.time() + 60
            while True:
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() > limit:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    status = "stuck"
                    break
                time.sleep(0.001)
            part = [json.loads(x) for x in open(path)] if os.path.exists(path) else []
            if status == "stuck":
                ev.append({"e": "stuck", "t": 0, "op": "", "r": 1, "v": 0, "h": 1, "f": False, "s": "", "rs": []})
                break
            died += status != 0
            if status not in (0, 77 << 8, signal.SIGXFSZ, signal.SIGXFSZ | 128):
                raise RuntimeError(f"segment of {seed} ended with {status}")
            for x in part:
                if "ref" in x:
                    assert x["ref"] == len(kinds) + 1
                    kinds.append(("mem", x["host"], False))
                    known[x["host"], x["uri"]] = x["ref"]
                    first = x["ref"] + 1
                else:
                    ev.append(x)
            for h in range(1, plan.hosts + 1):
                ev.append({"e": "close", "t": 0, "op": "", "r": 1, "v": 0, "h": h, "f": False, "s": "", "rs": []})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for e in ev:
        # what is listed, as references (0: none of them, or listed twice)
        rs = [known.get(tuple(x), 0) for x in e["rs"]]
        e["rs"] = rs if len(set(rs)) == len(rs) else [*rs, 0]
    return {"kind": [k for k, _, _ in kinds], "host": [h for _, h, _ in kinds], "bad": [b for _, _, b in kinds], "under": plan.under, "ev": ev,
            "names": [repr(x[2])[:60] for x in plan.refs], "died": died}


class Cluster:
    """Saving and loading by the parties of a deployment (runs in a forked child)."""

    def __init__(self, plan, base, rng, fd, http):
        from mplang.dialects import simp

        self.plan, self.rng, self.fd = plan, rng, fd
        os.environ["MPLANG_DATA_ROOT"] = os.path.join(base, "data")
        self.n = plan["world"]
        if http:
            import logging

            from mplang.backends.simp_worker import http as hw
            from vp import httpsim

            logging.disable(logging.CRITICAL)
            socks = httpsim.free_sockets(self.n)
            ends = [f"http://127.0.0.1:{s.getsockname()[1]}" for s in socks]
            self.servers = [httpsim.Server(hw.create_worker_app(r, self.n, ends), s) for r, s in enumerate(socks)]
            self.sim = simp.make_driver(ends)
        else:
            self.sim = simp.make_simulator(world_size=self.n)

    def emit(self, e):
        d = {"e": "call", "t": 0, "op": "", "r": 1, "v": 0, "h": 1, "f": False, "s": "", "rs": []}
        d.update(e)
        os.write(self.fd, (json.dumps(d) + "\n").encode())

    def ref(self, k, h):
        return (h - 1) * len(self.plan["keys"]) + k + 1

    def run(self):
        import mplang
        import numpy as np
        from mplang.dialects import simp, store as sd, tensor
        from mplang.edsl import typing as elt

        rng = self.rng
        for _ in range(rng.choice([2, 4, 7])):
            k = rng.randrange(len(self.plan["keys"]))
            uri = spelled(rng, self.plan["keys"][k])
            if rng.random() < 0.5:
                uri = "fs://" + uri
            parties = tuple(sorted(rng.sample(range(self.n), rng.choice([1, self.n]))))
            save = rng.random() < 0.5
            vs = {p: rng.randrange(1, 9) for p in parties}
            for p in parties:
                self.emit({"t": p + 1, "op": "put" if save else "get", "r": self.ref(k, p + 1), "h": p + 1, "v": vs[p] if save else 0})

            def work():
                if save:
                    xs = [simp.pcall_static((p,), tensor.constant, np.array([vs[p]], dtype="int32")) for p in parties]
                    return simp.pcall_static(parties, lambda y: sd.save(y, uri), simp.converge(*xs) if len(xs) > 1 else xs[0])
                return simp.pcall_static(parties, lambda: sd.load(uri, elt.TensorType(elt.i32, (1,))))
            try:
                how = rng.choice(["eager", "compiled"])
                if how == "eager":
                    with self.sim:
                        o = work()
                else:
                    prog = mplang.compile(work, context=self.sim)
                    o = mplang.evaluate(prog, context=self.sim)
                got = mplang.fetch(o, context=self.sim)
                got = [got] if self.n == 1 else got
                out = {p: int(np.asarray(got[p]).reshape(-1)[0]) for p in parties}
                for p in range(self.n):
                    if p not in parties and got[p] is not None:
                        out[parties[0]] = -9
                for p in parties:
                    if save:
                        self.emit({"e": "ret", "t": p + 1, "op": "put", "s": "ok", "v": self.ref(k, p + 1) if out[p] == vs[p] else 0})
                    else:
                        self.emit({"e": "ret", "t": p + 1, "op": "get", "s": "ok", "v": out[p]})
            except Exception as e:
                if os.environ.get("VP_DEBUG"):
                    print(save, parties, repr(e)[:300], file=sys.stderr)
                if save:
                    self.emit({"e": "crash", "op": "put"})
                else:
                    self.emit({"e": "gave up", "op": "get", "rs": [self.ref(k, p + 1) for p in parties]})
                return                       # a local cluster ends with its first failure


def cluster_history(seed):
    rng = random.Random(seed)
    names = rng.sample([w for w in WORDS if "\n" not in w], 3)
    keys = []
    for _ in range(rng.choice([1, 2, 3])):
        p = [rng.choice(names) for _ in range(rng.choice([1, 2]))]
        if not any(p[:len(q)] == q or q[:len(p)] == p for q in keys):
            keys.append(p)
    plan = {"world": rng.choice([1, 2, 3]), "keys": keys}
    base = tempfile.mkdtemp(prefix="vp-store-")
    ev = []
    try:
        for s in range(rng.choice([2, 3])):
            http = rng.random() < 0.3
            # a simulation and workers of their own do not share their files
            if s == 0:
                kind = http
            path = os.path.join(base, f"ev{s}")
            unpriv.give(base)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    unpriv.drop()
                    os.chdir(base)
                    Cluster(plan, base, random.Random(f"{seed}-{s}"), os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND), kind).run()
                    code = 0
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
            limit = time.time() + 60
            status = "stuck"
            while time.time() < limit:
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                status = "stuck"
                time.sleep(0.002)
            else:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            if status not in (0, "stuck"):
                raise RuntimeError(f"segment of {seed} ended with {status}")
            ev += [json.loads(x) for x in open(path)] if os.path.exists(path) else []
            if status == "stuck":
                ev.append({"e": "stuck", "t": 0, "op": "", "r": 1, "v": 0, "h": 1, "f": False, "s": "", "rs": []})
            for h in range(1, plan["world"] + 1):
                ev.append({"e": "close", "t": 0, "op": "", "r": 1, "v": 0, "h": h, "f": False, "s": "", "rs": []})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    n = len(keys) * plan["world"]
    return {"kind": ["fs"] * n, "host": [h for h in range(1, plan["world"] + 1) for _ in keys], "bad": [False] * n, "under": [], "ev": ev,
            "names": [repr(k) for k in keys], "died": 0}
