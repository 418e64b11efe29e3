"""Random functional programs over nested structures, run through the tracing machinery."""

from __future__ import annotations

from vp.graphgen import P

CONSTS = [0, 1, 7, -3, 2.5, "s", "", True, 1.0, 12345678901234567890, b"x", ("no", 1)]


def enc_const(x):
    for i, c in enumerate(CONSTS[:-1]):
        if type(c) is type(x) and c == x:
            return i
    return -1


# --- structures: ("v", k) | ("c", k) | ("list", [...]) | ("tuple", [...]) | ("dict", {..}) | ("none",)
def gen_struct(rng, leaf, depth):
    if depth == 0 or rng.random() < 0.35:
        return leaf()
    k = rng.choice(["list", "tuple", "dict", "list", "tuple", "dict", "none"])
    if k == "none":
        return ("none",)
    n = rng.choice([0, 1, 2, 2, 3])
    if k == "dict":
        keys = rng.sample(["b", "a", "z", "k1", "K"], n)
        return ("dict", {x: gen_struct(rng, leaf, depth - 1) for x in keys})
    return (k, [gen_struct(rng, leaf, depth - 1) for _ in range(n)])


def leaves(t, path=""):
    """(path, kind, index) of every leaf, in a fixed order; structure is part of the paths."""
    if t[0] in ("v", "c"):
        return [(path, t[0], t[1])]
    if t[0] == "none":
        return [(path + "!none", "c", 0)]
    if t[0] == "dict":
        out = [(path + f"!dict{len(t[1])}", "c", 0)]
        for k in sorted(t[1]):
            out += leaves(t[1][k], path + "." + k)
        return out
    out = [(path + f"!{t[0]}{len(t[1])}", "c", 0)]
    for i, x in enumerate(t[1]):
        out += leaves(x, path + f"/{i}")
    return out


def fill(t, var):
    if t[0] == "v":
        return var(t[1])
    if t[0] == "c":
        return CONSTS[t[1]]
    if t[0] == "none":
        return None
    if t[0] == "dict":
        return {k: fill(x, var) for k, x in t[1].items()}
    xs = [fill(x, var) for x in t[1]]
    return xs if t[0] == "list" else tuple(xs)


def flat(x, is_var, path=""):
    """Observed leaves of a real structure, in the order of ``leaves``."""
    if x is None:
        return [(path + "!none", "c", 0)]
    if type(x) is dict:
        out = [(path + f"!dict{len(x)}", "c", 0)]
        for k in sorted(x):
            out += flat(x[k], is_var, path + "." + str(k))
        return out
    if type(x) in (list, tuple):
        out = [(path + f"!{type(x).__name__}{len(x)}", "c", 0)]
        for i, y in enumerate(x):
            out += flat(y, is_var, path + f"/{i}")
        return out
    if is_var(x):
        return [(path, "v", x)]
    return [(path, "c", enc_const(x))]


def gen(rng):
    """A program: fns[0] is the entry; nested calls only to later functions."""
    nouters = rng.randrange(0, 4)
    uid = [0]
    fns = []

    def body(fn, nvars, depth, size):
        n = nvars
        for _ in range(rng.randrange(0, size + 1)):
            if depth > 0 and n and rng.random() < 0.3:
                prev = [s for s in fn["body"] if s["k"] == "call"]
                if prev and rng.random() < 0.3:
                    s = dict(rng.choice(prev))
                    s["ins"] = [rng.randrange(n) for _ in s["ins"]]
                else:
                    npar = rng.randrange(0, 3)
                    ncap = rng.randrange(0, 3)
                    caps = [rng.randrange(n) for _ in range(ncap)]
                    f = function(npar, ncap, depth - 1, max(1, size - 2))
                    s = {"k": "call", "f": f, "ins": [rng.randrange(n) for _ in range(npar)], "caps": caps, "h": uid[0], "kw": rng.random() < 0.5}
                    uid[0] += 1
                fn["body"].append(s)
                n += sum(1 for x in fns[s["f"]]["leaves"] if x[1] == "v")
            else:
                uid[0] += 1
                k = rng.choice([1, 1, 2, 2, 3]) if n else 0
                if rng.random() < 0.08:
                    k = 0
                nout = rng.choice([1, 1, 1, 2, 3, 0])
                fn["body"].append({"k": "op", "uid": uid[0], "ins": [rng.randrange(n) if rng.random() < 0.5 else max(0, n - 1 - rng.randrange(0, 2)) for _ in range(k)], "nout": nout, "c": rng.randrange(0, 50)})
                n += nout
        return n

    def function(npar, ncap, depth, size):
        fn = {"np": npar, "ncap": ncap, "body": []}
        idx = len(fns)
        fns.append(fn)
        n = body(fn, npar + ncap, depth, size)

        def leaf():
            if n and rng.random() < 0.75:
                return ("v", rng.randrange(n))
            return ("c", rng.randrange(len(CONSTS) - 1))

        fn["result"] = gen_struct(rng, leaf, rng.choice([0, 1, 2, 3]))
        fn["leaves"] = leaves(fn["result"])
        return idx

    # arguments: positions of structure with variables numbered 0 .. np-1
    nv = [0]

    def arg_leaf():
        if rng.random() < 0.7:
            nv[0] += 1
            return ("v", nv[0] - 1)
        return ("c", rng.randrange(len(CONSTS) - 1))

    args = [gen_struct(rng, arg_leaf, rng.choice([0, 0, 1, 2])) for _ in range(rng.randrange(0, 4))]
    kwargs = {k: gen_struct(rng, arg_leaf, rng.choice([0, 1, 2])) for k in rng.sample(["zz", "aa", "mid"], rng.randrange(0, 3))}
    # the same object may be passed at several positions
    alias = [rng.randrange(i + 1) if rng.random() < 0.15 else i for i in range(nv[0])]
    function(nv[0], nouters, rng.choice([0, 1, 2]), rng.choice([1, 3, 6, 10]))
    # a captured outer value may be the object also passed as an argument
    same = [rng.randrange(nv[0]) if nv[0] and rng.random() < 0.15 else -1 for _ in range(nouters)]
    return {"fns": fns, "args": args, "kwargs": kwargs, "alias": alias, "same": same, "nouters": nouters}


def spec_fns(p):
    out = []
    for f in p["fns"]:
        b = []
        for s in f["body"]:
            if s["k"] == "op":
                b.append({"k": "op", "uid": s["uid"], "ins": [i + 1 for i in s["ins"]], "nout": s["nout"], "c": s["c"]})
            else:
                b.append({"k": "call", "f": s["f"] + 1, "ins": [i + 1 for i in s["ins"]], "caps": [i + 1 for i in s["caps"]]})
        out.append({"np": f["np"], "ncap": f["ncap"], "body": b, "res": [{"path": a, "k": k, "v": v + 1 if k == "v" else v} for a, k, v in f["leaves"]]})
    return out


def prim_value(uid, c, j, args):
    return (uid * 131 + c * 29 + j * 17 + sum((i + 1) * 3 * a for i, a in enumerate(args)) + 7) % P


class Machine:
    """Runs one program through the real machinery."""

    def __init__(self, prog):
        from mplang.edsl import typing as t
        from mplang.edsl.primitive import Primitive

        self.p = prog
        self.log = []
        self.prim = Primitive("vpt.op")

        @self.prim.def_abstract_eval
        def _ae(in_types, *, uid, nout, c):
            return [t.i64] * nout

        self.ty = t.i64
        self.peek = None

    def handler(self, interp, op, *args):
        self.log.append(op.attrs["uid"])
        out = [prim_value(op.attrs["uid"], op.attrs["c"], j, [a if isinstance(a, int) else -7 for a in args]) for j in range(op.attrs["nout"])]
        return out[0] if len(out) == 1 else out

    def run_body(self, fi, env, use_func):
        f = self.p["fns"][fi]
        handles = {}
        for s in f["body"]:
            if s["k"] == "op":
                r = self.prim.bind(*[env[i] for i in s["ins"]], uid=s["uid"], nout=s["nout"], c=s["c"])
                env.extend([r] if s["nout"] == 1 else list(r))
            else:
                caps = [env[i] for i in s["caps"]]
                ins = [env[i] for i in s["ins"]]

                def inner(*xs, unused=None, _f=s["f"], _c=caps):
                    return self.run_body(_f, [*xs, *_c], use_func)

                if use_func:
                    from mplang.dialects import func

                    if s["h"] not in handles:
                        handles[s["h"]] = func.func(inner, *ins, **({"unused": 3} if s["kw"] else {}))
                    # arguments of func.call are recorded values
                    from mplang.edsl.context import get_current_context

                    r = func.call(handles[s["h"]], *[get_current_context().lift(x) for x in ins])
                else:
                    r = inner(*ins)
                env.extend(x for _, k, x in flat(r, self.is_var) if k == "v")
            if self.peek:
                self.peek(env)
        return fill(f["result"], lambda i: env[i])

    @staticmethod
    def is_var(x):
        from mplang.edsl.object import Object

        return isinstance(x, Object)

    def entry(self, outers, use_func):
        n = self.p["fns"][0]["np"]

        def fn(*args, **kwargs):
            env = [None] * n
            for t, a in list(zip(self.p["args"], args)) + [(self.p["kwargs"][k], kwargs[k]) for k in self.p["kwargs"]]:
                got = [x for _, k, x in flat(a, self.is_var) if k == "v"]
                want = [i for _, k, i in leaves(t) if k == "v"]
                for i, x in zip(want, got):
                    env[i] = x
            return self.run_body(0, [*env, *outers], use_func)

        return fn

    def arguments(self, objs):
        var = lambda i: objs[i]
        return [fill(t, var) for t in self.p["args"]], {k: fill(t, var) for k, t in self.p["kwargs"].items()}

    def observed(self, res):
        from mplang.runtime.interpreter import InterpObject

        out = []
        for path, k, x in flat(res, self.is_var):
            if k == "v":
                x = x.runtime_obj if isinstance(x, InterpObject) else -8
                x = x if type(x) is int else -7
            out.append({"path": path, "k": k, "v": x})
        return out
