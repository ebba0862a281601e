"""Run a library protocol on every party with ideal (symbolic) or real (concrete) kernels."""

from __future__ import annotations

from . import mesh

_prim = {}


def prim():
    if not _prim:
        import mplang.edsl as el

        p = el.Primitive("vp.in")

        @p.def_abstract_eval
        def _ae(*in_types, tag, ty):
            return ty

        _prim["p"] = p
    return _prim["p"]


def run(E, w, f, inputs, parties=2, name=None):
    """f(**{tag: object held by its party}); returns ({rank: outputs}, output types).

    inputs: {tag: (party, type, value)}; w: the ideal world whose handlers and message log are used."""
    from mplang.dialects import simp

    if name is None:
        n = getattr(E, "_protos", 0)
        E._protos = n + 1
        name = f"proto{n}"
    from mplang.runtime.interpreter import InterpObject  # noqa: F401  (the runtime must be importable)

    def prog():
        objs = {t: simp.pcall_static((p,), lambda t=t, ty=ty: prim().bind(tag=t, ty=ty)) for t, (p, ty, _) in inputs.items()}
        return f(**objs)

    from jax.tree_util import tree_flatten

    flat = {}

    def flat_prog():
        out = prog()
        leaves, tree = tree_flatten(out, is_leaf=lambda x: hasattr(x, "type"))
        flat["tree"] = tree
        return leaves

    graph, types = mesh.trace(flat_prog)
    extra = dict(w.handlers())
    extra["vp.in"] = lambda interp, op: inputs[op.attrs["tag"]][2]
    res = mesh.run_parties(E, graph, parties, extra=extra, name=name, tap=w.log, max_steps=200000, delays=0)
    if isinstance(res, tuple):
        if res.cause is not None:
            raise res.cause
        raise RuntimeError(f"{res[0]}: {res[1]}")
    for k, (st, v) in res.items():
        if st == "error":
            raise v
    return {r: v for (_, r), (_, v) in res.items()}, types
