"""Oblivious key-value stores: keys are opaque, so their rows are any rows (the same for the same key, size and seed);
values are unknown words; every peeling order the rows allow is executed."""

import ctypes
import functools
import os
import shutil
import tempfile
from unittest import mock

import numpy as np

from checks.P15_field import FUNCS as _F  # noqa: F401
from checks.P15_field import array, flat, operands, run_handler, same
from vp import anf, llvm, pykern
from vp.anf import W, as_bits
from vp.sym import explore

ASSUMPTIONS = ("the hash of a key is an opaque function of the key and seed (every row is possible); concrete replays run the real hash on random keys",
               "the native kernel is read as clang's IR of okvs.cpp at -O2 without OpenMP",
               "the binned kernels of okvs_opt.cpp (200000 keys and more) are outside the bounds")
FUNCS = ("kernels/py_kernels.py okvs_solve, okvs_decode", "backends.field_impl solve/decode handlers", "kernels/okvs.cpp solve_okvs, decode_okvs")
INLINE = ("-O2", "-finline-functions")
SEED = (0x0123456789ABCDEF, 0xFEDCBA9876543211)


def units(tier):
    us = [("python", python, 4), ("linear", linear, 1), ("native", native, 4), ("native-handler", native_handler, 2)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def sizes(tier):
    return [(1, 3), (2, 3)] if tier == "quick" else [(1, 3), (1, 4), (2, 3), (2, 4), (2, 5), (3, 4)]


def tokens(n):
    return [pykern.Tok("key", i) for i in range(n)]


def positions(E):
    pos = {}

    def at(key, m):
        k = (repr(key), m)
        if k not in pos:
            pos[k] = E.int(f"pos{len(pos)}", 0, m - 1)
        return pos[k]

    return at


def trials(n, m, run, count=400):
    """Concrete replay: the real code on random keys and values."""
    rng = np.random.default_rng(n * 1000 + m)
    for _ in range(count):
        keys = rng.integers(0, 1 << 63, size=n, dtype=np.uint64)
        vals = rng.integers(0, 1 << 63, size=(n, 2), dtype=np.uint64)
        seed = rng.integers(0, 1 << 63, size=2, dtype=np.uint64)
        yield from run(keys, vals, seed)


def check_trials(E, n, m, solve, decode, label):
    ok = 0

    def one(keys, vals, seed):
        nonlocal ok
        try:
            p = solve(keys, vals, m, seed)
        except RuntimeError:
            return
        ok += 1
        yield p.shape == (m, 2) and np.array_equal(decode(keys, p, seed), vals)

    E.check(all(trials(n, m, one)), label, "random keys and values")


def by_handlers(keys, vals, m, seed, prim="field.solve_okvs"):
    return run_handler(prim, [keys, vals, seed], m=m)


def decode_by_handlers(keys, p, seed):
    return run_handler("field.decode_okvs", [keys, p, seed])


def python(tier):
    def h(E):
        n, m = E.pick("size", sizes(tier))
        opt = n == 1 and bool(E.bool("opt"))
        kind, kindd = ("field.solve_okvs_opt", "field.decode_okvs_opt") if opt else ("field.solve_okvs", "field.decode_okvs")
        label = "encoded keys decode to their values"
        if E.concrete:
            check_trials(E, n, m, lambda k, v, m, s: run_handler(kind, [k, v, s], m=m), lambda k, p, s: run_handler(kindd, [k, p, s]), label)
            return
        pool = anf.Pool(E)
        vals = operands(E, pool, "v", n)
        keys = pykern.words((n,), tokens(n))
        seed = np.array(SEED, dtype=np.uint64)
        with pykern.symbolic(E, positions(E)):
            try:
                p = run_handler(kind, [keys, pykern.words((n, 2), vals), seed], m=m)
            except RuntimeError:
                E.cover("a failure to encode is reported")
                return
            E.check(tuple(np.shape(p)) == (m, 2), "store size")
            # any other set of queries: in reverse, with one repeated
            got = flat(run_handler(kindd, [pykern.words((n + 1,), [*keys[::-1], keys[0]]), p, seed]))
        want = [x for i in [*range(n)[::-1], 0] for x in vals[2 * i : 2 * i + 2]]
        for i, (g, w) in enumerate(zip(got, want, strict=True)):
            same(E, pool, g, w, label, f"word {i}")

    explore(h, unit="python", expect=("encoded keys decode to their values",), functions=FUNCS[:2], validate=1, split=6, max_seconds=2400, bounds=f"(keys, store size) in {sizes(tier)}, every row of every key, any values")


def linear(tier):
    """The protocols use stores as linear objects: what a key reads depends on the key, the size and the seed only."""
    ms = [3, 4] if tier == "quick" else [3, 4, 5, 6]

    def h(E):
        m = E.pick("m", ms)
        pool = anf.Pool(E)
        a, b = operands(E, pool, "a", m), operands(E, pool, "b", m)
        seed = np.array(SEED, dtype=np.uint64)
        keys = np.array([12345678901234567], dtype=np.uint64) if E.concrete else pykern.words((1,), tokens(1))
        arr = lambda v: array(E, v, (m, 2))
        add = [x ^ y for x, y in zip(a, b)]
        with pykern.symbolic(E, positions(E)):
            got = [flat(decode_by_handlers(keys, arr(v), seed)) for v in (a, b, add)]
        for x, y, z in zip(*got):
            same(E, pool, anf.wxor(x, y, 64), z, "reading is linear in the store")

    explore(h, unit="linear", expect=("reading is linear in the store",), functions=FUNCS[:1], validate=2, split=1, max_seconds=2400, bounds=f"store sizes {ms}, any two stores, every row")


@functools.lru_cache(None)
def lib():
    d = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH") or None)
    try:
        src = [os.path.join(os.path.dirname(llvm.kernels("x")), f) for f in sorted(os.listdir(os.path.dirname(llvm.kernels("x")))) if f.endswith(".cpp")]
        out = d + "/libmplang_kernels.so"
        import subprocess

        r = subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-mpclmul", "-maes", "-msse4.1", "-fopenmp", "-o", out, *src], capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise llvm.Unsupported("g++: " + r.stderr[-300:])
        return ctypes.CDLL(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native(tier):
    sz = [(1, 3), (2, 4)] if tier == "quick" else [(1, 3), (1, 5), (2, 4), (2, 5)]

    def h(E):
        n, m = E.pick("size", sz)
        label = "encoded keys decode to their values (native)"
        if E.concrete:
            with loaded(lib()):
                check_trials(E, n, m, by_handlers, decode_by_handlers, label)
            return
        pool = anf.Pool(E)
        vals = operands(E, pool, "v", n)
        mc = llvm.Machine(E, llvm.compile_ir(llvm.kernels("okvs.cpp"), INLINE))
        ks = tokens(n)
        pk, pv, pp, ps = mc.alloc(8 * n, ks), mc.alloc(16 * n, vals), mc.alloc(16 * m, [5] * (2 * m)), mc.alloc(16, SEED)
        q = [*ks[::-1], ks[0]]
        pq, po = mc.alloc(8 * len(q), q), mc.alloc(16 * len(q), [9] * (2 * len(q)))
        try:
            if mc.call("solve_okvs", [pk, pv, pp, n, m, ps]):
                E.cover("a failure to encode is reported")
                return
            mc.call("decode_okvs", [pq, pp, po, len(q), m, ps])
        except llvm.OutOfBounds as e:
            E.fail("accesses stay within the arrays", str(e))
            return
        got = [mc.load(po + 8 * i, 8) for i in range(2 * len(q))]
        want = [x for i in [*range(n)[::-1], 0] for x in vals[2 * i : 2 * i + 2]]
        for i, (g, w) in enumerate(zip(got, want, strict=True)):
            same(E, pool, g, w, label, f"word {i}")

    explore(h, unit="native", expect=("encoded keys decode to their values (native)",), functions=FUNCS[2:], validate=1, split=6, max_seconds=2400, bounds=f"(keys, store size) in {sz}, every row of every key, any values")


def loaded(lb):
    """field_impl finds this library where it looks for the native kernels."""
    import contextlib

    from mplang.backends import field_impl

    real = ctypes.CDLL

    def cdll(name, *a, **k):
        return lb if str(name).endswith("libmplang_kernels.so") else real(name, *a, **k)

    @contextlib.contextmanager
    def cm():
        saved = dict(vars(field_impl))
        try:
            with mock.patch.object(ctypes, "CDLL", cdll):
                yield
        finally:
            for k, v in saved.items():
                setattr(field_impl, k, v)

    return cm()


class Lib:
    """The native library as its IR; keys the handler passes are numbers that stand for opaque keys."""

    def __init__(self, E):
        self.m = llvm.Machine(E, llvm.compile_ir(llvm.kernels("okvs.cpp"), INLINE))
        self.at = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = lambda *a: self.run(name, *a)
        self.at[name] = f
        setattr(self, name, f)
        return f

    def run(self, name, keys, data, out, n, m, seed):
        n, m = (int(getattr(x, "value", x)) for x in (n, m))
        solve = name == "solve_okvs"
        mc = self.m
        rows = n if solve else m
        pk = mc.alloc(8 * n, [pykern.Tok("key", int(keys[i])) for i in range(n)])
        pd = mc.alloc(16 * rows, [int(data[i]) for i in range(2 * rows)])
        outs = m if solve else n
        po, ps = mc.alloc(16 * outs, [int(out[i]) for i in range(2 * outs)]), mc.alloc(16, [int(seed[0]), int(seed[1])])
        r = mc.call(name, [pk, pd, po, n, m, ps])
        for i in range(2 * outs):
            out[i] = int(mc.load(po + 8 * i, 8))
        return r or 0


def native_handler(tier):
    sz = [(1, 3), (2, 3)] if tier == "quick" else [(1, 3), (2, 3), (2, 4), (3, 4)]

    def h(E):
        n, m = E.pick("size", sz)
        label = "an encoded store decodes, or the failure is reported"
        if E.concrete:
            with loaded(lib()):
                check_trials(E, n, m, by_handlers, decode_by_handlers, label)
            return
        keys = np.arange(100, 100 + n, dtype=np.uint64)
        vals = np.array([[3 << 10 * i, 5 << 12 * i] for i in range(n)], dtype=np.uint64)
        seed = np.array(SEED, dtype=np.uint64)
        with loaded(Lib(E)):
            try:
                p = by_handlers(keys, vals, m, seed)
            except RuntimeError:
                E.cover("reported")
                return
            got = decode_by_handlers(keys[::-1].copy(), p, seed)
        E.check(np.array_equal(got, vals[::-1]), label, f"{got} {vals}")

    explore(h, unit="native-handler", expect=("an encoded store decodes, or the failure is reported", "reported"), functions=FUNCS[1:], validate=1, split=5, max_seconds=2400, bounds=f"(keys, store size) in {sz}, every row of every key")
