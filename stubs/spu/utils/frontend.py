import enum
import hashlib

import jax

from .. import api, libspu


class Kind(enum.Enum):
    JAX = 1


def compile(kind, fn, args, kwargs, input_names, input_vis, outputNameGen, static_argnums=(), static_argnames=None, copts=None):  # noqa: A001
    """`args` is [list_of_ShapeDtypeStruct]; fn takes that list."""
    out_info = jax.eval_shape(fn, *args, **kwargs)
    flat, _ = jax.tree_util.tree_flatten(out_info)
    text = jax.jit(fn).lower(*args, **kwargs).as_text()
    code = hashlib.sha256(text.encode()).digest()

    def run(ins):
        flat_out, _ = jax.tree_util.tree_flatten(jax.jit(fn)(list(ins)))
        return flat_out

    api._PROGRAMS[code] = run
    api._TEXTS[code] = text
    return libspu.Executable("spu", list(input_names), outputNameGen(flat), code), out_info


def _patch_jax():
    return None


def _restore_jax_patch(p):
    return None
