"""Structural tensor operations: shape inference executed on symbolic sizes and attributes against its definition, and the real
kernels run on tensors of unknown elements, every element of the result compared with the source element the definition names."""

import functools
import itertools

import numpy as np

from vp.sym import explore

from .P22_homomorphic import eager

FUNCS = ("tensor.slice_tensor/transpose/reshape/concat/gather/elementwise/constant/bitcast: shape inference (dialects.tensor) and kernels (backends.tensor_impl)",)


def units(tier):
    us = [("slice-shape", slice_shape, 4), ("reshape-shape", reshape_shape, 2), ("concat-shape", concat_shape, 2), ("gather-shape", gather_shape, 1),
          ("slice", slice_run, 4), ("reshape", reshape_run, 2), ("transpose", transpose_run, 2), ("concat", concat_run, 2), ("gather", gather_run, 4),
          ("elementwise", elementwise_run, 4), ("scalar-mix", scalar_mix, 1), ("constant", constant_run, 1)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def T():
    import mplang.edsl.typing as t

    return t


def typed(shape, el=None):
    return T().TensorType(el or T().i64, tuple(shape))


def attempt(f):
    """The result, or the refusal."""
    try:
        return f(), None
    except (TypeError, ValueError, IndexError, NotImplementedError) as e:
        return None, e


def inferred(f, *types):
    """The type tracing f on inputs of the given types predicts."""
    from mplang.edsl.tracer import Tracer

    with Tracer() as t:
        out, err = attempt(lambda: f(*[t._new_arg(ty) for ty in types]))
    return (None if out is None else out.type), err


def unknowns(E, shape, name="x", el=None, layout=False):
    """(object array of unknown elements, eager object holding it); with layout, the array lies in memory in either order."""
    import mplang.backends.tensor_impl as TI

    a = np.empty(shape, dtype=object)
    for k, i in enumerate(np.ndindex(*shape)):
        a[i] = E.int(f"{name}{k}")
    v = a.astype(np.int64) if E.concrete else a
    if layout and sum(d > 1 for d in shape) > 1 and E.bool(f"{name}-columns-first"):
        v = np.array(v, order="F")
    return a, eager(TI.TensorValue(v), typed(shape, el))


def result(o):
    v = o.runtime_obj
    return v.unwrap() if hasattr(v, "unwrap") else v


def same_array(E, out, want, label):
    """The result has the predicted type and the wanted elements."""
    got = result(out)
    E.check(tuple(out.type.shape) == tuple(want.shape), label + ": predicted shape", f"{out.type} for {want.shape}")
    E.check(tuple(np.shape(got)) == tuple(want.shape), label + ": shape", f"{np.shape(got)} for {want.shape}")
    if tuple(np.shape(got)) == tuple(want.shape):
        for i in np.ndindex(*want.shape):
            g = got[i]
            g = g.unwrap().item() if hasattr(g, "unwrap") else g
            E.check(same(g, want[i]), label, f"element {i}")
    E.cover(label + ": ran")


def same(a, b):
    if a is b:
        return True
    return a == b


# ------------------------------------------------------------------ shape inference on symbolic sizes


def slice_shape(tier):
    from mplang.dialects import tensor

    big = 9 if tier == "quick" else 40

    def h(E):
        n = E.int("dim", 1, big)
        s, e, t = E.int("start", -big - 2, big + 2), E.int("end", -big - 2, big + 2), E.int("stride", -1, 4)
        pre = E.pick("other", [(), (3,), (-1,)])
        given = bool(E.bool("strides"))
        ty, err = inferred(lambda x: tensor.slice_tensor(x, (*[0 for _ in pre], s), (*[3 for _ in pre], e), (*[1 for _ in pre], t) if given else None), typed((*pre, n)))
        stride = t if given else 1
        if bool(stride < 1):
            E.check(err is not None, "a non-positive stride is rejected")
            return
        # the definition, by counting
        lo = s + n if s < 0 else s
        hi = e + n if e < 0 else e
        lo = 0 if lo < 0 else (n if lo > n else lo)
        hi = 0 if hi < 0 else (n if hi > n else hi)
        if bool(hi <= lo):
            E.check(err is not None, "an empty slice is rejected")
            return
        E.check(err is None, "a legal slice is accepted", str(err))
        if err is None:
            k = ty.shape[-1]
            # k elements fit, k+1 do not
            E.check((lo + (k - 1) * stride < hi) & (lo + k * stride >= hi) & (k >= 1), "slice-length")
            E.check(tuple(ty.shape[:-1]) == pre, "other dimensions unchanged")

    explore(h, unit="slice-shape", expect=("slice-length", "a non-positive stride is rejected"), functions=FUNCS, validate=3, max_seconds=2400, bounds=f"extents 1..{big}, starts and ends beyond both bounds, strides -1..4")


def reshape_shape(tier):
    from mplang.dialects import tensor

    hi = 4 if tier == "quick" else 6

    def h(E):
        r, q = int(E.int("rank", 0, 2)), int(E.int("newrank", 0, 3))
        old = tuple(E.int(f"d{i}", 1, hi) for i in range(r))
        new = tuple(E.int(f"n{i}", -2 if i == 0 else -1, hi + 2 if q < 3 else 3) for i in range(q))
        ty, err = inferred(lambda x: tensor.reshape(x, new), typed(old))
        size = prod(old)
        holes = [i for i in range(q) if bool(new[i] == -1)]
        known = prod([d for i, d in enumerate(new) if i not in holes])
        bad = any(bool(d < 1) for i, d in enumerate(new) if i not in holes)
        ok = not bad and (len(holes) == 0 and bool(size == known) or len(holes) == 1 and bool(size % known == 0))
        E.check((err is None) == ok, "exactly the shapes of the same size are accepted", f"{old} to {new}: {err}")
        if ok and err is None:
            E.check(len(ty.shape) == q, "rank")
            E.check(prod(ty.shape) == size, "size-kept")
            for i in range(q):
                if i not in holes:
                    E.check(ty.shape[i] == new[i], "dimension as given")

    explore(h, unit="reshape-shape", expect=("size-kept",), functions=FUNCS, validate=3, max_seconds=2400, bounds=f"ranks 0..2 to 0..3, extents 1..{hi}, one inferred dimension")


def prod(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def concat_shape(tier):
    from mplang.dialects import tensor

    def h(E):
        r = int(E.int("rank", 1, 3))
        k = int(E.int("count", 1, 3 if r < 3 else 2))
        axis = int(E.int("axis", -r - 1, r))
        shapes = []
        for j in range(k):
            ds = tuple(E.int(f"d{j}_{i}", -1, 3) for i in range(r))
            for d in ds:
                E.assume(d != 0)
            shapes.append(ds)
        els = [T().i64, T().i32]
        odd = k > 1 and E.pick("types", ["same", "other"]) == "other"
        ty, err = inferred(lambda *xs: tensor.concat(list(xs), axis), *[typed(s, els[1 if odd and j == k - 1 else 0]) for j, s in enumerate(shapes)])
        ax = axis + r if axis < 0 else axis
        clash = any(bool((a[i] != b[i]) & (a[i] != -1) & (b[i] != -1)) for i in range(r) if i != ax for a, b in itertools.combinations(shapes, 2))
        ok = 0 <= ax < r and not clash and not odd
        hidden = clash and any(bool(s[i] == -1) for s in shapes for i in range(r))  # extents unknown until execution may hide a clash
        if not hidden:
            E.check((err is None) == ok, "exactly compatible tensors are accepted", str(err))
        if err is None and ok:
            for i in range(r):
                ds = [s[i] for s in shapes]
                dyn = any(bool(d == -1) for d in ds)
                if i == ax:
                    E.check(ty.shape[i] == (-1 if dyn else sum(ds[1:], ds[0])), "concatenated extent")
                elif dyn:
                    E.check(any(bool(ty.shape[i] == d) for d in [-1, *ds]), "other extent")
                else:
                    E.check(ty.shape[i] == ds[0], "other extent")

    explore(h, unit="concat-shape", expect=("concatenated extent", "other extent"), functions=FUNCS, validate=3, max_seconds=2400, bounds="up to 3 tensors of rank 1..3, extents 1..3 and unknown, every axis incl. out of range")


def gather_shape(tier):
    from mplang.dialects import tensor

    def h(E):
        r, q = int(E.int("rank", 0, 3)), int(E.int("irank", 0, 2))
        axis = int(E.int("axis", -r - 1, r))
        ds = tuple(E.int(f"d{i}", 1, 9) for i in range(r))
        js = tuple(E.int(f"j{i}", 1, 9) for i in range(q))
        it = E.pick("index", ["i64", "u32", "i8", "f64"])
        ty, err = inferred(lambda x, i: tensor.gather(x, i, axis), typed(ds), typed(js, getattr(T(), it)))
        ax = axis + r if axis < 0 else axis
        ok = 0 <= ax < r and it in ("i64", "u32")
        E.check((err is None) == ok, "exactly legal gathers are accepted", str(err))
        if ok and err is None:
            E.eq("gathered-shape", tuple(ty.shape), ds[:ax] + js + ds[ax + 1 :])
        perm = tuple(E.choose(f"p{i}", r) for i in range(r)) if it == "i64" and q == 0 and axis == 0 else None
        if perm is not None:
            ty, err = inferred(lambda x: tensor.transpose(x, perm), typed(ds))
            ok = sorted(perm) == list(range(r))
            E.check((err is None) == ok, "exactly permutations are accepted", str(err))
            if ok and err is None:
                E.eq("transposed-shape", tuple(ty.shape), tuple(ds[i] for i in perm))

    explore(h, unit="gather-shape", expect=("gathered-shape", "transposed-shape"), functions=FUNCS, validate=3, max_seconds=2400, bounds="ranks 0..3, index ranks 0..2, extents 1..9, every axis incl. out of range, four index types; every axis list")


# ------------------------------------------------------------------ the kernels on unknown elements


def slice_run(tier):
    from mplang.dialects import tensor

    def h(E):
        n = int(E.int("dim", 1, 4))
        s, e, t = int(E.int("start", -5, 4)), int(E.int("end", -4, 5)), int(E.int("stride", 1, 3))
        m = int(E.int("other", 0, 3))
        first = bool(E.bool("first")) if m else True
        shape = (n,) if m == 0 else (n, m) if first else (m, n)
        idx = [i for i in range(n)][s:e:t]  # Python's slice is the definition
        if not idx:
            return
        other = list(range(m))[1 if m > 1 else 0 :]
        a, x = unknowns(E, shape)
        at = lambda v, w: (v,) if m == 0 else (v, w) if first else (w, v)
        strides = None if t == 1 and n % 2 else at(t, 1)
        out, err = attempt(lambda: tensor.slice_tensor(x, at(s, m - len(other)), at(e, m), strides))
        E.check(err is None, "a legal slice is accepted", str(err))
        if err is None:
            want = a[idx] if m == 0 else a[np.ix_(idx, other)] if first else a[np.ix_(other, idx)]
            same_array(E, out, want, "slice")

    explore(h, unit="slice", expect=("slice: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="vectors and matrices up to 4x3, every start, end and stride 1..3; all elements")


def reshape_run(tier):
    from mplang.dialects import tensor

    def h(E):
        r, q = int(E.int("rank", 0, 3)), int(E.int("newrank", 0, 3))
        old = tuple(int(E.int(f"d{i}", 1, 3)) for i in range(r))
        size = prod(old)
        new, left = [], size
        for i in range(q):
            if i == q - 1:
                new.append(left)
                break
            d = int(E.int(f"n{i}", 1, 9))
            if left % d:
                return
            new.append(d)
            left //= d
        if q == 0 and size != 1:
            return
        hole = int(E.int("hole", -1, q - 1))
        given = tuple(-1 if i == hole else d for i, d in enumerate(new))
        a, x = unknowns(E, old, layout=True)
        out, err = attempt(lambda: tensor.reshape(x, given))
        E.check(err is None, "a legal reshape is accepted", str(err))
        if err is None:
            flat = [a[i] for i in itertools.product(*[range(d) for d in old])]
            want = np.empty(tuple(new), dtype=object)
            for v, i in zip(flat, itertools.product(*[range(d) for d in new])):
                want[i] = v
            same_array(E, out, want, "reshape")

    explore(h, unit="reshape", expect=("reshape: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="ranks 0..3 with extents 1..3 held in memory in row or column order, to every shape of the same size and rank 0..3, any dimension inferred; all elements")


def transpose_run(tier):
    from mplang.dialects import tensor

    def h(E):
        r = int(E.int("rank", 1, 4 if tier != "quick" else 3))
        shape = tuple(int(E.int(f"d{i}", 1, 3 if r < 4 else 2)) for i in range(r))
        perm = E.pick("perm", list(itertools.permutations(range(r))))
        a, x = unknowns(E, shape, layout=True)
        out, err = attempt(lambda: tensor.transpose(x, perm))
        E.check(err is None, "a legal transpose is accepted", str(err))
        if err is None:
            want = np.empty(tuple(shape[p] for p in perm), dtype=object)
            for i in np.ndindex(*want.shape):
                src = [0] * r
                for k, p in enumerate(perm):
                    src[p] = i[k]
                want[i] = a[tuple(src)]
            same_array(E, out, want, "transpose")

    explore(h, unit="transpose", expect=("transpose: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="ranks 1..3 (thorough 4), extents 1..3, every permutation; all elements")


def concat_run(tier):
    from mplang.dialects import tensor

    def h(E):
        r = int(E.int("rank", 1, 3))
        axis = int(E.int("axis", -r, r - 1))
        ax = axis % r
        k = int(E.int("count", 1, 3))
        base = [int(E.int(f"d{i}", 1, 2)) if i != ax else 0 for i in range(r)]
        arrs, objs = [], []
        for j in range(k):
            sh = list(base)
            sh[ax] = int(E.int(f"n{j}", 1, 2 if r > 1 else 3))
            a, x = unknowns(E, tuple(sh), f"x{j}_", layout=j == 0)
            arrs.append(a)
            objs.append(x)
        out, err = attempt(lambda: tensor.concat(objs, axis))
        E.check(err is None, "compatible tensors are accepted", str(err))
        if err is None:
            sh = list(base)
            sh[ax] = sum(a.shape[ax] for a in arrs)
            want = np.empty(tuple(sh), dtype=object)
            for i in np.ndindex(*sh):
                j, off = 0, i[ax]
                while off >= arrs[j].shape[ax]:
                    off -= arrs[j].shape[ax]
                    j += 1
                want[i] = arrs[j][(*i[:ax], off, *i[ax + 1 :])]
            same_array(E, out, want, "concat")

    explore(h, unit="concat", expect=("concat: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="1..3 tensors of rank 1..3, extents 1..2 (vectors 3), every axis counted from either end; all elements")


def gather_run(tier):
    from mplang.dialects import tensor

    def h(E):
        import mplang.backends.tensor_impl as TI

        r = int(E.int("rank", 1, 3))
        axis = int(E.int("axis", -r, r - 1))
        ax = axis % r
        shape = tuple(int(E.int(f"d{i}", 1, 3 if i == ax else 2)) for i in range(r))
        q = int(E.int("irank", 0, 2 if r < 3 else 1))
        js = tuple(int(E.int(f"j{i}", 1, 2)) for i in range(q))
        if tier == "quick" and r == 3 and prod(js) > 1:
            return
        if q == 2 and r == 2 and prod(js) > 2:
            return
        dt = E.pick("dtype", ["int64", "uint32", "int32"]) if q == 0 else "int64"
        idx = np.empty(js, dtype=np.int64)
        for k, i in enumerate(np.ndindex(*js)):
            idx[i] = int(E.int(f"i{k}", 0, shape[ax] - 1))
        a, x = unknowns(E, shape)
        el = {"int64": T().i64, "uint32": T().u32, "int32": T().i32}[dt]
        out, err = attempt(lambda: tensor.gather(x, eager(TI.TensorValue(idx.astype(dt)), typed(js, el)), axis))
        E.check(err is None, "a legal gather is accepted", str(err))
        if err is None:
            want = np.empty(shape[:ax] + js + shape[ax + 1 :], dtype=object)
            for i in np.ndindex(*want.shape):
                want[i] = a[(*i[:ax], int(idx[i[ax : ax + q]]), *i[ax + q :])]
            same_array(E, out, want, "gather")

    explore(h, unit="gather", expect=("gather: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="ranks 1..3 up to 3 along the axis and 2 elsewhere, index ranks 0..2, every in-range index, every axis counted from either end; all elements")


# ------------------------------------------------------------------ elementwise


_mix = {}


def mixer(E):
    """An opaque scalar operation of two arguments, usable on scalar types; its results name its operands."""
    if "p" not in _mix:
        import mplang.edsl as el

        p = el.Primitive("vp.mix")

        @p.def_abstract_eval
        def _ae(a, b, *, tag):
            return a if not isinstance(a, T().TensorType) else a.element_type

        @p.def_impl
        def _impl(interp, op, a, b):
            import mplang.backends.tensor_impl as TI

            x, y = (v.unwrap().item() for v in (a, b))
            out = np.empty((), dtype=object)
            out[()] = _mix["f"](op.attrs["tag"], x, y)
            return TI.TensorValue(out)

        _mix["p"] = p
    # an injective combination of unknown integers: linear with distinct weights (equal results for all values only for the same operands)
    _mix["f"] = lambda tag, x, y: x * 1000003 + y * 7 + tag
    return lambda a, b, tag=0: _mix["p"].bind(a, b, tag=tag)


def elementwise_run(tier):
    from mplang.dialects import tensor

    def h(E):
        r = int(E.int("rank", 0, 2))
        shape = tuple(int(E.int(f"d{i}", 1, 3)) for i in range(r))
        mix = mixer(E)
        f0 = _mix["f"]
        forms = {
            "xy": (lambda x, y, s: mix(x, y), lambda x, y, s: [f0(0, x, y)]),
            "yx": (lambda x, y, s: mix(y, x), lambda x, y, s: [f0(0, y, x)]),
            "deep": (lambda x, y, s: mix(mix(x, s, 1), y, 2), lambda x, y, s: [f0(2, f0(1, x, s), y)]),
            "scalar": (lambda x, y, s: mix(s, x), lambda x, y, s: [f0(0, s, x)]),
            "two": (lambda x, y, s: (mix(x, y), mix(y, x, 5)), lambda x, y, s: [f0(0, x, y), f0(5, y, x)]),
            "swap": (lambda x, y, s: (y, x), lambda x, y, s: [y, x]),
            "dup": (lambda x, y, s: (mix(x, s), x, mix(x, s, 3)), lambda x, y, s: [f0(0, x, s), x, f0(3, x, s)]),
            "same": (lambda x, y, s: y, lambda x, y, s: [y]),
            "dict": (lambda x, y, s: {"b": mix(x, y), "a": mix(s, y)}, lambda x, y, s: [f0(0, s, y), f0(0, x, y)]),
        }
        name = E.pick("fn", list(forms))
        fn, ref = forms[name]
        same_operand = bool(E.bool("same-operand"))
        a, x = unknowns(E, shape, "x", layout=True)
        b, y = (a, x) if same_operand else unknowns(E, shape, "y")
        c, s = unknowns(E, (), "s")
        order = E.pick("call", ["positional", "keywords", "scalar-first"])
        if order == "positional":
            call = lambda: tensor.elementwise(fn, x, y, s)
        elif order == "keywords":
            call = lambda: tensor.elementwise(fn, y=y, s=s, x=x)
        else:
            call = lambda: tensor.elementwise(lambda s, y, x: fn(x, y, s), s, y, x)
        out, err = attempt(call)
        E.check(err is None, "accepted", repr(err))
        if err is None:
            outs = [out[k] for k in sorted(out)] if isinstance(out, dict) else list(out) if isinstance(out, tuple) else [out]
            want = [np.empty(shape, dtype=object) for _ in outs]
            for i in np.ndindex(*shape):
                for k, v in enumerate(ref(a[i], b[i], c[()])):
                    want[k][i] = v
            E.check(len(outs) == len(ref(0, 0, 0)), "as many results as the function returns")
            for o, wnt in zip(outs, want):
                same_array(E, o, wnt, "elementwise")

    explore(h, unit="elementwise", expect=("elementwise: ran",), functions=FUNCS, validate=3, max_seconds=2400, bounds="nine element functions (one to three results, passed-through and repeated operands) on shapes up to 3x3 mixed with a scalar, three ways of passing arguments; all elements")


def scalar_mix(tier):
    """Results of element functions are usable by every later computation; shapes that differ are rejected; nothing is captured."""
    from mplang.dialects import tensor

    def h(E):
        mix = mixer(E)
        sa, sb = ((), (2,), (3,), (2, 1), (1, 2), (2, 3))[E.choose("a", 6)], ((), (2,), (3,), (2, 1), (1, 2), (2, 3))[E.choose("b", 6)]
        a, x = unknowns(E, sa, "x")
        b, y = unknowns(E, sb, "y")
        ok = sa == sb or not sa or not sb
        out, err = attempt(lambda: tensor.elementwise(lambda p, q: mix(p, q), x, y))
        E.check((err is None) == ok, "exactly equal shapes and scalars are accepted", repr(err))
        if ok and err is None:
            sh = sa or sb
            want = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                want[i] = _mix["f"](0, a[i] if sa else a[()], b[i] if sb else b[()])
            same_array(E, out, want, "mixed")
        out, err = attempt(lambda: tensor.elementwise(lambda p: mix(p, y), x))
        E.check(err is not None, "a captured variable is rejected")
        out, err = attempt(lambda: tensor.elementwise(lambda p: 3, x))
        E.check(err is not None, "a plain constant result is rejected")
        # structural operations on results of several element functions
        if sa == sb and len(sa) == 1:
            p, q = tensor.elementwise(lambda p, q: (mix(p, q), mix(q, p)), x, y)
            out, err = attempt(lambda: tensor.concat([q, p], 0))
            E.check(err is None, "results can be concatenated", repr(err))
            f = _mix["f"]
            want = np.empty((2 * sa[0],), dtype=object)
            want[:] = [f(0, v, u) for u, v in zip(a, b)] + [f(0, u, v) for u, v in zip(a, b)]
            same_array(E, out, want, "after elementwise")
            if E.concrete:
                got = result(tensor.run_jax(lambda u, v: u - v, p, q))
                E.check(list(got) == [f(0, u, v) - f(0, v, u) for u, v in zip(a, b)], "results can be computed with")

    explore(h, unit="scalar-mix", expect=("mixed: ran", "a captured variable is rejected", "after elementwise"), functions=FUNCS, validate=12, max_seconds=2400, bounds="all pairs of six shapes; all elements")


def constant_run(tier):
    """Constants and byte reinterpretation."""
    from mplang.dialects import tensor

    def h(E):
        dt = E.pick("dtype", ["uint8", "int8", "int16", "int32", "uint64", "int64", "bool"])
        shape = ((), (1,), (3,), (2, 2), (1, 2, 2))[E.choose("shape", 5)]
        order = E.pick("layout", ["C", "F", "strided"])
        n = prod(shape)
        hi, lo = (1, 0) if dt == "bool" else (np.iinfo(dt).max, np.iinfo(dt).min)
        vals = [int(E.concretize(E.pick(f"v{k}", [lo, hi]))) if k < 2 else k % 2 for k in range(n)]
        a = np.array(vals, dtype=dt).reshape(shape)
        b = a if order == "C" else np.array(a, order="F") if order == "F" else np.repeat(a, 2, axis=-1)[..., ::2] if shape else a
        out = tensor.constant(b)
        E.check(tuple(out.type.shape) == shape, "constant: type")
        E.check(result(out).dtype == a.dtype and np.array_equal(result(out), a), "constant")
        other = tensor.constant(a.astype("int64") + 1 if dt != "uint64" else a)
        E.check(np.array_equal(result(out), a), "constant kept")
        if shape and dt != "bool":
            to = E.pick("to", ["uint8", "int32", "uint64"])
            el = {"uint8": T().u8, "int32": T().i32, "uint64": T().u64}[to]
            want, bad = attempt(lambda: a.view(to))
            out, err = attempt(lambda: tensor.bitcast(tensor.constant(a), el))
            E.check((err is None) == (bad is None), "exactly whole elements are reinterpreted", repr(err))
            if err is None and bad is None:
                E.check(tuple(out.type.shape) == want.shape and np.array_equal(result(out), want), "bitcast")

    explore(h, unit="constant", expect=("constant", "bitcast"), functions=FUNCS, validate=1, max_seconds=2400, bounds="seven element types at their limits, five shapes, three memory layouts, three target types")
