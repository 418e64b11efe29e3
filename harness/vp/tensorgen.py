"""Random straight-line programs over the tensor dialect (spec: TensorOps.tla)."""

from __future__ import annotations

import math


def prod(s):
    return math.prod(s)


def gen(rng, nops):
    ops, sh = [], []
    nin = rng.randrange(1, 4)
    shapes = [(), (1,), (2,), (3,), (2, 3), (3, 2), (2, 2), (1, 3), (2, 1, 2)]
    for _ in range(nin):
        sh.append(rng.choice(shapes))
    ins_sh = list(sh)
    for _ in range(nops):
        k = rng.choice(["const", "transpose", "transpose", "reshape", "reshape", "concat", "concat", "gather", "slice", "slice", "point", "point", "ew", "two", "total"])
        i = rng.randrange(len(sh)) if rng.random() < 0.5 else len(sh) - 1 - rng.randrange(0, min(2, len(sh)))
        s = sh[i]
        o = {"k": k, "ins": [i]}
        if k == "const":
            t = rng.choice(shapes)
            o["t"] = {"s": list(t), "d": [rng.randrange(0, 97) for _ in range(prod(t))]}
            o["ins"] = []
            new = [t]
        elif k == "transpose":
            p = list(range(len(s)))
            rng.shuffle(p)
            o["perm"] = p
            new = [tuple(s[x] for x in p)]
        elif k == "reshape":
            n = prod(s)
            cands = [(n,), (1, n), (n, 1)] + [(a, n // a) for a in (2, 3) if n % a == 0] + ([()] if n == 1 else [])
            t = list(rng.choice(cands))
            new = [tuple(t)]
            if t and n and rng.random() < 0.4:
                t[rng.randrange(len(t))] = -1
            o["shape"] = t
        elif k == "concat":
            if not s:
                continue
            ax = rng.randrange(len(s))
            c = [j for j, q in enumerate(sh) if len(q) == len(s) and all(q[d] == s[d] for d in range(len(s)) if d != ax)]
            o["ins"] = [i] + [rng.choice(c) for _ in range(rng.randrange(0, 3))]
            rng.shuffle(o["ins"])
            o["axis"] = ax
            o["neg"] = rng.random() < 0.3
            t = list(s)
            t[ax] = sum(sh[j][ax] for j in o["ins"])
            if prod(t) > 24:
                continue
            new = [tuple(t)]
        elif k == "gather":
            axs = [a for a in range(len(s)) if s[a] > 0]
            if not axs:
                continue
            ax = rng.choice(axs)
            ishape = rng.choice([(), (1,), (2,), (3,), (2, 2)])
            ops.append({"k": "const", "ins": [], "t": {"s": list(ishape), "d": [rng.randrange(s[ax]) for _ in range(prod(ishape))]}})
            sh.append(ishape)
            t = s[:ax] + ishape + s[ax + 1:]
            if prod(t) > 24:
                continue
            o["ins"] = [i, len(sh) - 1]
            o["axis"] = ax
            new = [t]
        elif k == "slice":
            if not s:
                continue
            st = [rng.choice([0, 0, 1, -1, -2, 5]) for _ in s]
            en = [rng.choice([d, d, d - 1, -1, 2, 9, -7]) for d in s]
            sd = [rng.choice([1, 1, 2, 3]) for _ in s]
            o.update(st=st, en=en, sd=sd, dflt=all(x == 1 for x in sd) and rng.random() < 0.5)
            new = [tuple(len(range(*slice(a, b, c).indices(d))) for a, b, c, d in zip(st, en, sd, s))]
            if 0 in new[0]:  # empty tensors have no type
                continue
        elif k in ("point", "two", "ew"):
            fn = rng.choice(["addmod", "sub", "mulmod", "affine", "less", "pick"])
            n = {"affine": 1, "pick": 3}.get(fn, 2)
            same = [j for j, q in enumerate(sh) if q == s or q == ()]
            ins = [i] + [rng.choice(same) for _ in range(n - 1)]
            rng.shuffle(ins)
            o["ins"], o["fn"] = ins, fn
            o["ew"] = k == "ew"
            if k == "ew":
                o["k"] = "point"
            t = next((sh[j] for j in ins if sh[j] != ()), ())
            new = [t] if k != "two" else [t, sh[ins[0]]]
        else:
            new = [()]
        ops.append(o)
        sh += new
    outs = [rng.randrange(len(sh)) if rng.random() < 0.6 else len(sh) - 1 for _ in range(rng.randrange(1, 4))]
    return {"nin": nin, "in_shapes": ins_sh, "ops": ops, "outs": outs, "shapes": sh}


def fns():
    import jax.numpy as jnp

    return {
        "addmod": lambda a, b: (a + b) % 97, "sub": lambda a, b: (a - b) % 97, "mulmod": lambda a, b: (a * b) % 97,
        "affine": lambda a: (2 * a + 3) % 97, "less": lambda a, b: (a < b).astype(a.dtype),
        "pick": lambda c, a, b: jnp.where(c % 2 == 1, a, b),
    }


FN = {}


def run_ops(p, ins):
    """Execute the program's operations in the ambient context on Objects."""
    import numpy as np
    from mplang.dialects import tensor

    if not FN:
        FN.update(fns())
    env = list(ins)
    for o in p["ops"]:
        a = [env[i] for i in o["ins"]]
        k = o["k"]
        if k == "const":
            env.append(tensor.constant(np.array(o["t"]["d"], dtype=np.int32).reshape(o["t"]["s"])))
        elif k == "transpose":
            env.append(tensor.transpose(a[0], tuple(o["perm"])))
        elif k == "reshape":
            env.append(tensor.reshape(a[0], tuple(o["shape"])))
        elif k == "concat":
            env.append(tensor.concat(a, axis=o["axis"] - (len(p["shapes"][o["ins"][0]]) if o["neg"] else 0)))
        elif k == "gather":
            env.append(tensor.gather(a[0], a[1], axis=o["axis"]))
        elif k == "slice":
            env.append(tensor.slice_tensor(a[0], tuple(o["st"]), tuple(o["en"]), None if o["dflt"] else tuple(o["sd"])))
        elif k == "point":
            f = FN[o["fn"]]
            if o["ew"]:
                env.append(tensor.elementwise(lambda *xs: tensor.run_jax(f, *xs), *a))
            else:
                env.append(tensor.run_jax(f, *a))
        elif k == "two":
            f, g = FN[o["fn"]], FN["affine"]
            x, y = tensor.run_jax(lambda *xs: (f(*xs), g(xs[0])), *a)
            env += [x, y]
        else:
            env.append(tensor.run_jax(lambda x: x.sum() % 97, a[0]))
    return tuple(env[i] for i in p["outs"])


def spec_ops(p):
    out = []
    for o in p["ops"]:
        q = {k: v for k, v in o.items() if k not in ("neg", "dflt", "ew")}
        q["ins"] = [i + 1 for i in o["ins"]]
        out.append(q)
    return out
