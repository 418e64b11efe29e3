from __future__ import annotations

import hashlib
import json
import pickle

import numpy as np

from . import libspu


def _meta(arr, vis, idx, n):
    return json.dumps(
        {"shape": list(arr.shape), "dtype": str(arr.dtype), "vis": vis.name,
         "idx": idx, "n": n}
    ).encode()


def _split(arr, n, seed):
    raw = np.frombuffer(np.ascontiguousarray(arr).tobytes(), dtype=np.uint8)
    rng = np.random.default_rng(seed)
    parts = [rng.integers(0, 256, raw.size, dtype=np.uint8) for _ in range(n - 1)]
    last = raw.copy()
    for p in parts:
        last ^= p
    return [p.tobytes() for p in parts] + [last.tobytes()]


def _mk(arr, vis, n, seed):
    arr = np.asarray(arr)
    if vis == libspu.Visibility.VIS_SECRET:
        chunks = _split(arr, n, seed)
    else:
        chunks = [np.ascontiguousarray(arr).tobytes()] * n
    out = []
    for i in range(n):
        s = libspu.Share()
        s.meta = _meta(arr, vis, i, n)
        s.share_chunks = [chunks[i]]
        out.append(s)
    return out


def _open(shares):
    metas = [json.loads(bytes(s.meta)) for s in shares]
    m = metas[0]
    if m["vis"] == "VIS_SECRET":
        if [x["idx"] for x in metas] != list(range(m["n"])):
            raise RuntimeError(f"stub spu: bad share set {[x['idx'] for x in metas]}")
        if any((x["shape"], x["dtype"]) != (m["shape"], m["dtype"]) for x in metas):
            raise RuntimeError("stub spu: inconsistent share metadata")
        acc = np.frombuffer(bytes(shares[0].share_chunks[0]), np.uint8).copy()
        for s in shares[1:]:
            acc ^= np.frombuffer(bytes(s.share_chunks[0]), np.uint8)
        raw = acc.tobytes()
    else:
        raw = bytes(shares[0].share_chunks[0])
    return np.frombuffer(raw, dtype=np.dtype(m["dtype"])).reshape(m["shape"]).copy()


class Io:
    def __init__(self, world_size, config):
        self.world_size, self.config = world_size, config

    def make_shares(self, x, vis, owner_rank=-1):
        return _mk(x, vis, self.world_size, None)

    def reconstruct(self, shares):
        if len(shares) != self.world_size:
            raise RuntimeError("stub spu: wrong share count")
        return _open(shares)


class _Meta:
    pass


class Runtime:
    def __init__(self, link, config):
        self.link, self.config, self._vars, self._runs = link, config, {}, 0

    def set_var(self, name, share):
        self._vars[name] = share

    def get_var(self, name):
        return self._vars[name]

    def get_var_meta(self, name):
        m = json.loads(bytes(self._vars[name].meta))
        r = _Meta()
        r.shape = _Meta()
        r.shape.dims = list(m["shape"])
        r.data_type = libspu.DT_OF[m["dtype"]]
        return r

    def run(self, executable):
        link = self.link
        mine = [self._vars[n] for n in executable.input_names]
        blob = pickle.dumps([(bytes(s.meta), [bytes(c) for c in s.share_chunks]) for s in mine])
        n = link.world_size
        for p in range(n):
            if p != link.rank:
                link.send(p, blob)
        rows = []
        for p in range(n):
            if p == link.rank:
                rows.append(mine)
            else:
                row = []
                for meta, chunks in pickle.loads(link.recv(p)):
                    s = libspu.Share()
                    s.meta, s.share_chunks = meta, chunks
                    row.append(s)
                rows.append(row)
        if any(len(r) != len(mine) for r in rows):
            raise RuntimeError("stub spu: parties disagree on the kernel's inputs")
        args = [_open([rows[p][i] for p in range(n)]) for i in range(len(mine))]
        outs = _execute(executable.code, args)
        self._runs += 1
        for name, o in zip(executable.output_names, outs, strict=True):
            o = np.asarray(o)
            seed = int.from_bytes(
                hashlib.sha256(o.tobytes() + f"{name}:{self._runs}".encode()).digest()[:8], "big")
            self._vars[name] = _mk(o, libspu.Visibility.VIS_SECRET, n, seed)[link.rank]


def _execute(code, args):
    """Run a kernel: pickled (kind, text, kept-arg indices, arg dtypes)."""
    import jax
    import jax.extend as jxt
    from jax._src import compiler

    kind, text, keep, dts = pickle.loads(code)
    if dts is not None:
        args = [a.astype(d) for a, d in zip(args, dts, strict=True)]
    if keep is not None:
        args = [args[i] for i in keep]
    client = jxt.backend.get_backend()
    opts = compiler.get_compile_options(num_replicas=1, num_partitions=1)
    exe = client.compile_and_load(text, client.devices(), opts)
    res = exe.execute_sharded([jax.device_put(a) for a in args])
    out = []
    for lst in res.disassemble_into_single_device_arrays():
        out.extend(np.asarray(a) for a in (lst if isinstance(lst, list) else [lst]))
    return out


def compile(source, copts):
    return pickle.dumps(("hlo", source.ir_txt, None, None))
