"""Bounded symbolic graphs over uninterpreted operations.

spec = {"n_in": k, "ops": [([value indices], n_outputs), ...], "outs": [value indices]}
Values are numbered: inputs first, then every operation's outputs in order.
"""

from __future__ import annotations


def symbolic_graph(E, *, n_ops, n_in, max_arity, max_outs=1, prefix="g", ordered=True, multi=None):
    """ordered: operand lists with order and repetition; else operand sets.
    multi: indices of the ops that may have up to max_outs results (None = all)."""
    from itertools import combinations

    ops = []
    avail = n_in
    for i in range(n_ops):
        if ordered:
            ar = E.choose(f"{prefix}_ar{i}", max_arity + 1) if max_arity else 0
            ins = [E.choose(f"{prefix}_in{i}_{j}", avail) for j in range(ar)] if avail else []
        else:
            subsets = [list(c) for k in range(max_arity + 1) for c in combinations(range(avail), k)]
            ins = E.pick(f"{prefix}_in{i}", subsets)
        no = 1
        if max_outs > 1 and (multi is None or i in multi):
            no += E.choose(f"{prefix}_no{i}", max_outs)
        ops.append((ins, no))
        avail += no
    # outputs: the last value, then optionally one solver-chosen extra (may repeat, may be an input)
    outs = [avail - 1]
    if E.choose(f"{prefix}_extra", 2):
        outs.insert(0, E.choose(f"{prefix}_out", avail))
    return {"n_in": n_in, "ops": ops, "outs": outs}


def to_graph(spec, opname="op{}"):
    from mplang.edsl.graph import Graph
    import mplang.edsl.typing as T

    ty = T.TensorType(T.i64, ())
    g = Graph()
    vals = [g.add_input(f"x{i}", ty) for i in range(spec["n_in"])]
    ins = list(vals)
    for i, (refs, no) in enumerate(spec["ops"]):
        vals += g.add_op(opname.format(i), [vals[r] for r in refs], output_types=[ty] * no)
    for o in spec["outs"]:
        g.add_output(vals[o])
    return g, ins


def uf_handlers(E, spec, calls=None):
    """op i, output j  ->  uninterpreted function f_i_j of its arguments."""

    def mk(i, no):
        def handler(interp, op, *args):
            if calls is not None:
                calls.append(i)
            r = [E.uf(f"f{i}_{j}_{len(args)}", *args) for j in range(no)]
            return r[0] if no == 1 else r

        return handler

    return {f"op{i}": mk(i, no) for i, (_, no) in enumerate(spec["ops"])}


def denote(E, spec, inputs):
    vals = list(inputs)
    for i, (refs, no) in enumerate(spec["ops"]):
        a = [vals[r] for r in refs]
        vals += [E.uf(f"f{i}_{j}_{len(a)}", *a) for j in range(no)]
    return [vals[o] for o in spec["outs"]]
