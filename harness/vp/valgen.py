"""Random values of the kinds that travel between parties, and their canonical terms."""

from __future__ import annotations

import base64
import math
import struct

DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "bool", "complex64", "complex128"]
TEXT = ["", "a", "_kind", "v", "items", "é", "日本", "\x00", "a\nb", "\"", "\\", "'", " ", "x" * 300, "\u2028", "😀", "None", "true", "0", "{}", "mem://a", "\ud800" [:0] + "z"]


def text(rng):
    return rng.choice(TEXT) if rng.random() < 0.6 else "".join(rng.choice("ab_{}[]\":,\\/ é\t\r😀0") for _ in range(rng.randrange(9)))


def blob(rng):
    n = rng.choice([0, 0, 1, 2, 3, 4, 5, 16, 31, 255, 1000])
    return bytes(rng.randrange(256) for _ in range(n)) if rng.random() < 0.8 else bytes([rng.choice([0, 4, 255])]) * n


def integer(rng):
    return rng.choice([0, 1, -1, 2, 255, 256, 2**31 - 1, -2**31, 2**31, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 2**64 - 1, 2**64, -10**30, 10**40, rng.randrange(-10**6, 10**6)])


def real(rng):
    return rng.choice([0.0, -0.0, 1.5, -1.5, 0.1, 1e308, 5e-324, 1 / 3, math.inf, -math.inf, math.nan, 2.0**53, 1e22, rng.uniform(-1e6, 1e6), 3.0])


def array(rng, numeric=False):
    import numpy as np

    dt = np.dtype(rng.choice(DTYPES))
    shape = rng.choice([(), (0,), (1,), (2,), (3,), (5,), (2, 3), (3, 2), (0, 3), (1, 1, 2), (2, 2, 2), (4, 1)])
    n = int(np.prod(shape)) if shape else 1
    raw = bytes(rng.randrange(256) for _ in range(n * dt.itemsize))
    if dt == np.bool_:
        raw = bytes(b & 1 for b in raw)
    a = np.frombuffer(raw, dtype=dt).reshape(shape).copy()
    z = rng.random()
    if z < 0.12 and a.ndim >= 2:
        a = a.T
    elif z < 0.2 and a.ndim and a.shape[0] > 1:
        a = a[::-1]
    elif z < 0.26 and a.ndim and a.shape[0] > 1:
        a = a[::2]
    elif z < 0.32 and a.ndim >= 2:
        a = np.asfortranarray(a)
    elif z < 0.36:
        a.flags.writeable = False
    elif z < 0.42 and dt.itemsize > 1:
        a = a.astype(dt.newbyteorder(">"))
    elif not numeric and z < 0.46:
        a = np.array([text(rng) for _ in range(rng.randrange(4))], dtype="U5")
    elif not numeric and z < 0.49:
        a = np.array([rng.randrange(10**9) for _ in range(rng.randrange(3))], dtype="datetime64[ns]")
    return a


def table(rng):
    import pyarrow as pa

    n = rng.choice([0, 1, 2, 3, 7])
    cols, names = [], []
    for k in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(["i64", "i32", "f64", "str", "bool", "bin", "u8", "date", "nul", "list", "dict", "ts"])
        null = rng.random() < 0.4

        def mk(f):
            return [None if null and rng.random() < 0.4 else f() for _ in range(n)]

        c = {"i64": lambda: pa.array(mk(lambda: rng.randrange(-2**63, 2**63)), pa.int64()), "i32": lambda: pa.array(mk(lambda: rng.randrange(-2**31, 2**31)), pa.int32()),
             "f64": lambda: pa.array(mk(lambda: real(rng)), pa.float64()), "str": lambda: pa.array(mk(lambda: text(rng)), pa.string()),
             "bool": lambda: pa.array(mk(lambda: rng.random() < 0.5), pa.bool_()), "bin": lambda: pa.array(mk(lambda: blob(rng)), pa.binary()),
             "u8": lambda: pa.array(mk(lambda: rng.randrange(256)), pa.uint8()), "date": lambda: pa.array(mk(lambda: rng.randrange(20000)), pa.date32()),
             "nul": lambda: pa.nulls(n), "list": lambda: pa.array(mk(lambda: [rng.randrange(9) for _ in range(rng.randrange(3))]), pa.list_(pa.int64())),
             "dict": lambda: pa.array(mk(lambda: rng.choice("xyz"))).dictionary_encode() if n else pa.array([], pa.string()), "ts": lambda: pa.array(mk(lambda: rng.randrange(10**12)), pa.timestamp("us"))}[t]()
        cols.append(c)
        names.append(rng.choice(["a", "b", "c", "é", "a b", "__index_level_0__", ""]) + str(k))
    t = pa.table(cols, names=names)
    if n > 1 and rng.random() < 0.4:
        k = rng.randrange(n)
        t = pa.concat_tables([t.slice(0, k), t.slice(k)])
    if rng.random() < 0.2:
        t = t.replace_schema_metadata({"k": "v", "é": "x"})
    return t


def scalar(rng):
    return rng.choice([lambda: None, lambda: rng.random() < 0.5, lambda: integer(rng), lambda: real(rng), lambda: text(rng), lambda: blob(rng)])()


def runtime_value(rng, shares=False):
    from mplang.backends import crypto_impl, table_impl, tee_impl, tensor_impl
    from mplang.backends.simp_driver.values import DriverVar

    z = rng.randrange(9)
    if z == 0:
        a = array(rng, True)
        return tensor_impl.TensorValue(a)
    if z == 1:
        return table_impl.TableValue(table(rng))
    if z == 2:
        return crypto_impl.BytesValue(blob(rng))
    if z == 3:
        import coincurve

        return crypto_impl.ECPointValue(coincurve.PublicKey.from_secret(rng.randrange(1, 2**200).to_bytes(32, "big")).format())
    if z == 4:
        return rng.choice([crypto_impl.PrivateKeyValue, crypto_impl.PublicKeyValue, crypto_impl.SymmetricKeyValue])(suite=rng.choice(["x25519", "é", ""]), key_bytes=blob(rng))
    if z == 5:
        return tee_impl.MockQuoteValue(platform=text(rng), bound_pk=blob(rng), suite=text(rng))
    if z == 6:
        return DriverVar([rng.choice([None, "mem://a", text(rng)]) for _ in range(rng.randrange(4))])
    if z == 7:
        import numpy as np

        a = np.empty(rng.choice([(2,), (1, 2), (0,)]), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = crypto_impl.BytesValue(blob(rng))
        return a
    from mplang.backends.func_impl import FunctionValue

    return FunctionValue(some_graph(rng), name=text(rng), captured=[value(rng, 1) for _ in range(rng.randrange(3))])


_graphs = []


def some_graph(rng):
    if not _graphs:
        import random

        from vp import simpgen, simprun

        r = random.Random(5)
        while len(_graphs) < 12:
            m = simpgen.Machine(r)
            try:
                tf, _ = simprun.trace_program(m, simpgen.draw(r, world=2, size=2))
            except simpgen.BadProgram:
                continue
            if tf is not None:
                _graphs.append(tf.graph)
    return rng.choice(_graphs)


NAMES = ["a", "b", "x25519", "secp256k1", "é", "a b", "_kind", "%1", "kind", "日本", "x" * 40]


def a_scalar_type(rng):
    from mplang.edsl import typing as t

    z = rng.randrange(3)
    if z == 0:
        return t.IntegerType(bitwidth=rng.choice([1, 8, 16, 32, 64, 128]), signed=rng.random() < 0.5)
    f = t.FloatType(bitwidth=rng.choice([16, 32, 64, 128]))
    return f if z == 1 else t.ComplexType(inner_type=f)


def a_type(rng, depth=2):
    from mplang.dialects import bfv, crypto, tee
    from mplang.edsl import typing as t

    z = rng.randrange(14) if depth > 0 else rng.randrange(9)
    if z <= 2:
        return a_scalar_type(rng)
    if z == 3:
        return t.CustomType(rng.choice([n for n in NAMES]))
    if z == 4:
        return rng.choice([crypto.PointType, crypto.ScalarType])(rng.choice(NAMES))
    if z == 5:
        return rng.choice([crypto.PrivateKeyType, crypto.PublicKeyType, crypto.SymmetricKeyType])(rng.choice(NAMES))
    if z == 6:
        return rng.choice([tee.QuoteType, tee.MeasurementType, lambda: tee.AttestedKeyType(rng.choice(NAMES))])()
    if z == 7:
        n = rng.choice([1024, 4096, 8192])
        v = t.VectorType(a_scalar_type(rng), n)
        return rng.choice([lambda: bfv.KeyType(kind=rng.choice(["Public", "Private"]), poly_modulus_degree=n), lambda: bfv.PlaintextType(v), lambda: bfv.CiphertextType(v), lambda: bfv.EncoderType(n)])()
    if z == 8:
        return t.VectorType(a_scalar_type(rng), rng.choice([1, 2, 4096, 2**40]))
    if z <= 10:
        return t.TensorType(a_type(rng, depth - 1), tuple(rng.choice([-1, 1, 2, 3, 1000, 2**33]) for _ in range(rng.randrange(4))))
    if z == 11:
        return t.TableType({rng.choice(NAMES) + str(k): a_type(rng, depth - 1) for k in rng.sample(range(9), rng.randrange(4))}, nrows=rng.choice([-1, 1, 2, 10**10]))
    if z == 12:
        return t.SSType(a_type(rng, depth - 1), *([rng.choice(["ss", "semi2k", ""])] if rng.random() < 0.5 else []))
    return t.MPType(a_type(rng, depth - 1), rng.choice([None, (), (0,), (1, 0), (0, 1, 2), (2, 5), tuple(range(20))]))


def a_config(rng):
    from mplang.dialects import spu

    link = None
    if rng.random() < 0.6:
        link = spu.SPULinkDesc(**{k: v for k, v in dict(recv_timeout_ms=rng.choice([0, 5, 10**7]), http_timeout_ms=7, http_max_payload_size=rng.choice([0, 2**33]), brpc_channel_protocol=rng.choice(["http", "baidu_std"]),
                                                        brpc_channel_connection_type=rng.choice(["pooled", "single"]), connect_retry_times=rng.choice([0, 3]), connect_retry_interval_ms=0).items() if rng.random() < 0.5})
    return spu.SPUConfig(protocol=rng.choice(["SEMI2K", "ABY3", "CHEETAH"]), field=rng.choice(["FM32", "FM64", "FM128"]), fxp_fraction_bits=rng.choice([0, 8, 18]), link_desc=link,
                         **{k: rng.random() < 0.5 for k in ("enable_pphlo_profile", "enable_hal_profile", "enable_pphlo_trace", "enable_action_trace")})


def built_graph(rng, depth=1, names=True):
    """A graph made with the public construction calls, with names of every kind."""
    from mplang.edsl.graph import Graph

    g = Graph()
    pool = []
    for k in range(rng.randrange(4)):
        pool.append(g.add_input(rng.choice(["x", "arg", "%", "in_", "é"]) + str(k + rng.choice([0, 10, 20])) if rng.random() < 0.8 else f"q{k}", a_type(rng)))
    for k in range(rng.randrange(6)):
        if names and rng.random() < 0.3:
            try:
                g.add_value(a_type(rng))            # used nowhere, like the value of a removed operation
                if rng.random() < 0.5:
                    g.values.popitem()
            except ValueError:
                pass
        try:
            ins = [rng.choice(pool) for _ in range(rng.randrange(3))] if pool else []
            before = set(g.values)
            pool += g.add_op(rng.choice(["a.b", "tensor.run_jax", "func.call", "é"]), ins, output_types=[a_type(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                             attrs={n: rng.choice([lambda: value(rng, 1), lambda: a_type(rng, 1), lambda: a_config(rng), lambda: [a_type(rng, 0), value(rng, 0)]])() for n in rng.sample(NAMES, rng.randrange(3))},
                             regions=[built_graph(rng, depth - 1, names) for _ in range(rng.choice([0, 0, 1, 2, 3]) if depth else 0)])
        except ValueError:
            # a generated name is taken by an input: withdraw what the failed call left behind
            for n in set(g.values) - before:
                del g.values[n]
    live = [v for v in pool if v in g.inputs or any(v in op.outputs for op in g.operations)]
    for _ in range(rng.randrange(4)):
        if live:
            g.add_output(rng.choice(live))
    return g


def value(rng, depth=3):
    z = rng.random()
    if depth <= 0 or z < 0.25:
        return scalar(rng)
    if z < 0.4:
        return array(rng)
    if z < 0.45:
        return table(rng)
    if z < 0.62:
        return runtime_value(rng)
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if z < 0.74:
        return [value(rng, depth - 1) for _ in range(n)]
    if z < 0.84:
        return tuple(value(rng, depth - 1) for _ in range(n))
    if z < 0.95:
        return {text(rng) if rng.random() < 0.8 else rng.choice(["_kind", "v", "items", "data"]): value(rng, depth - 1) for _ in range(n)}
    return {rng.choice([lambda: integer(rng), lambda: text(rng), lambda: (integer(rng), text(rng)), lambda: blob(rng), lambda: None, lambda: 0.5])(): value(rng, depth - 1) for _ in range(max(n, 1))}


class NoTerm(Exception):
    pass


def b64(b):
    return base64.b64encode(bytes(b)).decode()


def term(v):
    """What a value is, as a JSON tree; equal trees for equal values of the same kind."""
    import numpy as np
    import pyarrow as pa

    if v is None:
        return ["none"]
    if type(v) is bool:
        return ["bool", v]
    if type(v) is int:
        return ["int", str(v)]
    if type(v) is float:
        return ["float", "nan" if v != v else struct.pack(">d", v).hex()]
    if type(v) is str:
        return ["str", v]
    if type(v) is bytes:
        return ["bytes", b64(v)]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["objarray", list(v.shape), [term(x) for x in v.flat]]
        # the order of the bytes of an element is a matter of representation
        w = v.astype(v.dtype.newbyteorder("=")) if v.dtype.byteorder == ">" else v
        return ["array", w.dtype.kind + str(w.dtype.itemsize) if w.dtype.kind not in "M" else str(w.dtype), list(w.shape), b64(np.ascontiguousarray(w).tobytes())]
    if isinstance(v, pa.Table):
        return ["table", [[f.name, str(f.type), f.nullable] for f in v.schema], [[term(float(x)) if isinstance(x, float) else ["py", repr(x)] for x in c.to_pylist()] for c in v.columns],
                sorted([b64(a), b64(b)] for a, b in (v.schema.metadata or {}).items())]
    if type(v) is list:
        return ["list", [term(x) for x in v]]
    if type(v) is tuple:
        return ["tuple", [term(x) for x in v]]
    if type(v) is dict:
        return ["dict", [[term(k), term(x)] for k, x in v.items()]]
    n = type(v).__name__
    if n == "TensorValue":
        return [n, term(v.unwrap())]
    if n == "TableValue":
        return [n, term(v.data)]
    if n in ("BytesValue", "ECPointValue"):
        return [n, b64(v.unwrap())]
    if n in ("PrivateKeyValue", "PublicKeyValue", "SymmetricKeyValue"):
        return [n, v.suite, b64(v.key_bytes)]
    if n == "MockQuoteValue":
        return [n, v.platform, v.suite, b64(v.bound_pk)]
    if n == "DriverVar":
        return [n, [term(x) for x in v.values]]
    if n == "FunctionValue":
        return [n, v.name, graph_term(v.graph), [term(x) for x in v.captured]]
    if n == "Graph":
        return graph_term(v)
    if n == "SPUShareValue":
        return [n, b64(v._data.meta), [b64(c) for c in v._data.share_chunks]]
    if n == "SPUConfig" or n.endswith("Type"):
        return type_term(v)
    if hasattr(v, "__array__") and "jax" in type(v).__module__:
        return term(np.asarray(v))
    raise NoTerm(n)


def type_term(t):
    """Types compare by their public fields, not by their own equality."""
    if isinstance(t, type):
        return ["pytype", t.__name__]
    d = {}
    for k in dir(type(t)):
        if not k.startswith("_") and isinstance(getattr(type(t), k), property):
            d[k] = getattr(t, k, "absent")
    for k, x in getattr(t, "__dict__", {}).items():
        if not k.startswith("__"):
            d[k] = x
    for c in type(t).__mro__:
        for k in getattr(c, "__slots__", ()):
            if hasattr(t, k):
                d[k] = getattr(t, k)
    return [type(t).__name__, sorted([k, any_term(x)] for k, x in d.items() if not callable(x) or isinstance(x, type))]


def any_term(x):
    from mplang.edsl.typing import BaseType

    if isinstance(x, BaseType):
        return type_term(x)
    if isinstance(x, dict):
        return ["dict", [[any_term(k), any_term(y)] for k, y in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [any_term(y) for y in x]]
    if isinstance(x, frozenset):
        return ["fset", sorted(str(any_term(y)) for y in x)]
    try:
        return term(x)
    except NoTerm:
        return ["repr", type(x).__name__, repr(x)]


def graph_term(g):
    """A graph up to the names of its values."""
    names = {}

    def nm(v):
        return names.setdefault(id(v), len(names))

    return ["graph", [[nm(v), any_term(v.type)] for v in g.inputs],
            [[op.opcode, [nm(v) for v in op.inputs], [[nm(v), any_term(v.type)] for v in op.outputs], any_term(dict(sorted(op.attrs.items()))), [graph_term(r) for r in op.regions]] for op in g.operations],
            [nm(v) for v in g.outputs]]
