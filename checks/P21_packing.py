"""Packed aggregation: the real routines run over the real BFV kernels on an ideal BFV scheme; slots are unknown numbers and
every declared output slot is compared with the exact sum of the selected input slots."""

import functools

import numpy as np

from vp import seal
from vp.sym import explore
from vp.zp import Unknowns

FUNCS = ("analytics.aggregation.rotate_and_sum/strided_rotate_and_sum/batch_bucket_aggregate/aggregate_sparse/masked_aggregate/extract_bucket_results", "bfv_impl kernels: encode, encrypt, add, mul, rotate, rotate_columns, decrypt, decode")
ASSUMPTIONS = ("BFV is ideal (tenseal/SEAL replaced by slot vectors with the same refusals, no noise); sums stay within the plaintext modulus",)


def units(tier):
    us = [("rotate", rotate, 4), ("rotate-small", rotate_small, 2), ("strided", strided, 3), ("buckets", buckets, 3), ("sparse", sparse, 3), ("sparse-wide", sparse_wide, 2), ("masked", masked, 1)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


class Bench:
    """One encrypted vector of unknown slots and the way back."""

    def __init__(self, E, degree, count=None, prefix="x"):
        import mplang.backends.tensor_impl  # noqa: F401
        from mplang.dialects import bfv

        self.E, self.n, self.u = E, degree, Unknowns.of(E)
        self.pk, self.sk = bfv.keygen(poly_modulus_degree=degree)
        self.gk, self.rk = bfv.make_galois_keys(self.sk), bfv.make_relin_keys(self.sk)
        self.encoder = bfv.create_encoder(poly_modulus_degree=degree)
        self.x, self.ct = self.vector(count or degree, prefix)

    def vector(self, count, prefix):
        from mplang.dialects import bfv

        x = [self.u.var(f"{prefix}{i}", -100, 100) for i in range(count)]
        return x, bfv.encrypt(bfv.encode(self.tensor(x), self.encoder), self.pk)

    def tensor(self, x):
        from mplang.backends.tensor_impl import TensorValue
        from mplang.dialects import tensor
        import mplang.edsl.typing as T
        from mplang.runtime.interpreter import InterpObject

        if self.E.concrete:
            return tensor.constant(np.array(x, dtype=np.int64))
        a = np.empty(len(x), dtype=object)
        a[:] = x
        # an object of the default context holding unknown elements
        like = tensor.constant(np.zeros(len(x), dtype=np.int64))
        return InterpObject(TensorValue(a), T.TensorType(T.i64, (len(x),)), like._context if hasattr(like, "_context") else like.context)

    def slots(self, ct, wanted=None):
        """The decoded slots (those asked for)."""
        from mplang.dialects import bfv

        seal.WANTED = wanted
        try:
            v = bfv.decode(bfv.decrypt(ct, self.sk), self.encoder)
        finally:
            seal.WANTED = None
        return v.runtime_obj.unwrap() if hasattr(v.runtime_obj, "unwrap") else v.runtime_obj


def run(E, degree, body, count=None):
    """Body on the ideal scheme (on the real one when a concrete run can use it)."""
    with seal.patched(not (E.concrete and degree >= 4096)):
        body(Bench(E, degree, count))
    E.cover("ran")


def rotate(tier):
    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        hi = E.pick("k64", (0, 1, 21, 31, 32, 33, 47, 63)) if tier == "quick" else int(E.int("k64", 0, 63))
        k = 64 * hi + int(E.int("k", 1, 64))

        def body(b):
            got = b.slots(A.rotate_and_sum(b.ct, k, b.gk), [0])
            b.u.same(got[0], total(b.x[:k]), "slot 0 is the sum of the first k slots")

        run(E, 4096, body)

    explore(h, unit="rotate", expect=("ran", "slot 0 is the sum of the first k slots"), functions=FUNCS, validate=2, max_seconds=2400,
            bounds="4096 slots, every window 1..4096 (quick: eight ranges of 64, including those around the row boundary), all slot contents")


def total(xs):
    """The sum (a polynomial built at once)."""
    from vp.zp import Zp

    d, c = {}, 0
    for x in xs:
        if isinstance(x, Zp):
            for m, e in x.d.items():
                d[m] = d.get(m, 0) + e
        else:
            c += x
    return Zp(d) + c if d else c


def rotate_small(tier):
    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        n = 1 << int(E.int("log", 3, 6))
        k = int(E.int("k", 1, 64))
        E.assume(k <= n)

        def body(b):
            b.u.same(b.slots(A.rotate_and_sum(b.ct, k, b.gk, n), [0])[0], total(b.x[:k]), "slot 0 is the sum of the first k slots")

        run(E, n, body)

    explore(h, unit="rotate-small", expect=("ran",), functions=FUNCS, validate=2, max_seconds=2400, bounds="8..64 slots, every window, all slot contents")


def strided(tier):
    top = 32 if tier == "quick" else 128

    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        s = int(E.int("stride", 1, top))
        n = int(E.int("n", 1, top))
        E.assume((n - 1) * s < top)
        lim = E.pick("max_step", [1024, 3])

        def body(b):
            got = b.slots(A.strided_rotate_and_sum(b.ct, s, n, b.gk, max_step=lim), [0])
            b.u.same(got[0], total(b.x[: (n - 1) * s + 1 : s]), "slot 0 is the sum of the strided slots")

        run(E, 2 * top, body)

    explore(h, unit="strided", expect=("ran",), functions=FUNCS, validate=2, max_seconds=2400, bounds=f"{2 * top} slots, every stride and count fitting one row, rotations whole or split, all slot contents")


def buckets(tier):
    n = 32 if tier == "quick" else 64

    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        nb = int(E.int("buckets", 1, n))
        st = n // nb
        k = int(E.int("samples", 1, n))
        E.assume(k <= st)

        def body(b):
            across = any(i * st // (n // 2) != (i * st + k - 1) // (n // 2) for i in range(nb))
            try:
                v = b.slots(A.batch_bucket_aggregate(b.ct, nb, k, b.gk, n))
            except ValueError:
                if across:
                    return  # refused: nothing wrong was computed
                raise
            for i in range(nb):
                lo = i * st
                straddles = lo // (n // 2) != (lo + k - 1) // (n // 2)
                b.u.same(v[lo], total(b.x[lo : lo + k]), "bucket-across-the-two-rows" if straddles else "bucket sum")
            if not E.concrete:
                v = np.array(list(v), dtype=object)
            r = A.extract_bucket_results(np.array(v), nb, n)
            E.check(len(r) == nb, "one sum per bucket")
            for i in range(nb):
                b.u.same(r[i], v[i * st], "extracted sum")

        run(E, n, body)

    explore(h, unit="buckets", expect=("ran", "bucket sum"), functions=FUNCS, validate=3, max_seconds=2400, bounds=f"{n} slots, every number of buckets and samples per bucket, all slot contents")


def sparse(tier):
    n = 8 if tier == "quick" else 16

    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        targets, plan = [], []
        for t in range(2 if tier == "quick" else 3):
            few = t and tier == "quick"
            slot = E.pick(f"t{t}", [0, 5]) if few else int(E.int(f"t{t}", 0, n - 1))
            if slot in targets:
                return
            targets.append(slot)
            src = sorted({E.pick(f"s{t}_{j}", [1, 6]) if few else int(E.int(f"s{t}_{j}", 0, n - 1)) for j in range(1 if t else 2)})
            plan.append((slot, src))

        def body(b):
            v = b.slots(A.aggregate_sparse(b.ct, plan, b.gk, b.encoder, n, **extra(A.aggregate_sparse, n)))
            want = dict(plan)
            for i in range(n):
                b.u.same(v[i], total([b.x[s] for s in want.get(i, [])]), "sparse sum" if i in want else "other slots are zero")

        run(E, n, body)

    explore(h, unit="sparse", expect=("ran", "sparse sum"), functions=FUNCS, validate=2, max_seconds=2400, bounds=f"{n} slots, every target with two sources in any slots, together with a second target (quick: slot 0 or 5 fed from 1 or 6), all slot contents")


def sparse_wide(tier):
    spots = (0, 1, 1024, 1500, 2047, 2048, 3073, 4095)
    if tier != "quick":
        spots += (2, 1022, 1023, 1025, 2046, 2049, 3071, 3072, 4094)

    def h(E):
        from mplang.libs.mpc.analytics import aggregation as A

        n = 4096
        t, a = E.pick("target", spots), E.pick("source", spots)
        plan = [(t, [a, 7]), (9, [a])]

        def body(b):
            v = b.slots(A.aggregate_sparse(b.ct, plan, b.gk, b.encoder, n, **extra(A.aggregate_sparse, n)), [t, 9, a, 7, 5])
            b.u.same(v[t], b.x[a] + b.x[7], "sparse sum over the whole vector")
            b.u.same(v[9], b.x[a], "sparse sum over the whole vector")
            for i in {a, 7, 5} - {t, 9}:
                b.u.same(v[i], 0, "other slots are zero")

        run(E, n, body)

    explore(h, unit="sparse-wide", expect=("ran", "sparse sum over the whole vector"), functions=FUNCS, validate=2, max_seconds=2400, bounds=f"4096 slots, sources and targets among {len(spots)} slots at the row and rotation limits, all slot contents")


def extra(f, n):
    """The number of slots, for a routine that asks for it."""
    import inspect

    return {"slot_count": n} if "slot_count" in inspect.signature(f).parameters else {}


def masked(tier):
    def h(E):
        from mplang.dialects import bfv
        from mplang.libs.mpc.analytics import aggregation as A

        n, cnt = 8, int(E.int("count", 1, 3))
        masks = [[int(E.bool(f"m{j}_{i}")) for i in range(2)] for j in range(cnt)]

        def body(b):
            vs = [b.vector(n, f"y{j}_") for j in range(cnt)]
            ms = [bfv.encode(b.tensor(m + [1] * 2) if any(m) or 1 else None, b.encoder) for m in masks]
            v = b.slots(A.masked_aggregate([c for _, c in vs], ms))
            for i in range(n):
                want = total([x[i] for (x, _), m in zip(vs, masks) if i < 4 and (m + [1, 1])[i]])
                b.u.same(v[i], want, "masked sum")

        run(E, n, body)

    explore(h, unit="masked", expect=("ran", "masked sum"), functions=FUNCS, validate=2, bounds="up to three vectors of 8 slots, every mask of two slots, all contents")
