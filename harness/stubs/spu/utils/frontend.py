from __future__ import annotations

import enum
import pickle

import jax

from .. import libspu


class Kind(enum.IntEnum):
    JAX = 1
    Tensorflow = 2
    Torch = 3


def compile(kind, fn, args, kwargs, input_names, input_vis, outputNameGen, **_kw):
    def flat_fn(vs):
        return fn(vs, **kwargs)

    def wrapped(*vs):
        return flat_fn(list(vs))

    shapes = [jax.ShapeDtypeStruct(a.shape, a.dtype) for a in args[0]]
    exported = jax.export.export(jax.jit(wrapped))(*shapes)
    code = pickle.dumps((
        "hlo", str(exported.mlir_module()), list(exported.module_kept_var_idx),
        [str(a.dtype) for a in shapes]))
    out = jax.eval_shape(flat_fn, shapes)
    names = outputNameGen(jax.tree_util.tree_leaves(out))
    exe = libspu.Executable(
        name="stub", input_names=list(input_names), output_names=names,
        code=code)
    return exe, out


def _patch_jax():
    return []


def _restore_jax_patch(patches):
    return None
