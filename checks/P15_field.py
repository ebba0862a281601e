"""GF(2^128) products, sums and syndromes of every implementation, for operands of unknown bits, against the definition."""

import ctypes
import functools
import os
import tempfile

import numpy as np

from checks.P22_homomorphic import eager
from vp import anf, llvm, pykern
from vp.anf import W, as_bits
from vp.sym import explore

ASSUMPTIONS = ("products and sums are put in a canonical form (xor of products of unknown bits); the difference from the definition goes to the solver",
               "the native kernels are read as clang's IR of the C++ source at -O1 without OpenMP; pclmulqdq follows Intel's definition")
FUNCS = ("kernels/py_kernels.py gf128_*, ldpc_encode", "backends.field_impl mul/ldpc handlers", "kernels/gf128.cpp gf128_mul, gf128_mul_batch", "kernels/ldpc.cpp ldpc_encode")


def units(tier):
    us = [("product", product), ("native-product", native_product), ("syndrome", syndrome), ("native-syndrome", native_syndrome)]
    return [(n, functools.partial(f, tier)) for n, f in us]


def operands(E, pool, name, n):
    """n field elements as (lo, hi) words."""
    out = []
    for i in range(n):
        for h in ("lo", "hi"):
            v = pool.word(f"{name}{i}.{h}", 64, E=E)
            out.append(pykern.U64(v.b) if isinstance(v, W) else v)
    return out


def bits(x, i):
    return as_bits(x[2 * i], 64) + as_bits(x[2 * i + 1], 64)


def gf(a, b):
    return W(anf.gf_mul(a, b)).small()


def same(E, pool, got, want, label, msg=""):
    """Words equal for all values of the unknowns."""
    from vp.sym import mkbool

    d = pool.differ(got, want)
    if E.concrete:
        E.check(d is None, label, msg)
        return
    E.check(True if d is None else mkbool(__import__("z3").Not(d)), label, msg)


def array(E, xs, shape):
    if E.concrete:
        return np.array([int(x) for x in xs], dtype=np.uint64).reshape(shape)
    return pykern.words(shape, xs)


def flat(v):
    v = v.unwrap() if hasattr(v, "unwrap") else v
    return [x if isinstance(x, W) else int(x) for x in np.asarray(v).reshape(-1)]


def pairs(E, pool, label, got, want, msg=""):
    for i, w in enumerate(want):
        g = W(as_bits(got[2 * i], 64) + as_bits(got[2 * i + 1], 64)).small()
        same(E, pool, g, w, label, f"{msg} element {i}")


def bind(prim, args, **attrs):
    """The primitive's registered handler on plain arrays."""
    import mplang.edsl.typing as T
    from mplang.backends.tensor_impl import TensorValue
    from mplang.dialects import field
    from mplang.runtime.interpreter import Interpreter

    it = Interpreter()
    with it:
        objs = [eager(TensorValue(a), T.TensorType(T.u64, a.shape)) for a in args]
        return getattr(field, prim)(*objs, **attrs)


def value(o):
    return o.runtime_obj if hasattr(o, "runtime_obj") else o


def handler(name):
    from mplang.edsl.registry import get_impl

    return get_impl(name)


class Op:
    def __init__(self, **attrs):
        self.attrs = attrs


def run_handler(name, arrays, **attrs):
    from mplang.backends.tensor_impl import TensorValue

    r = handler(name)(None, Op(**attrs), *[TensorValue(a) for a in arrays])
    return r.unwrap() if hasattr(r, "unwrap") else r


def product(tier):
    shapes = [(2,), (3, 2), (1, 2, 2)] if tier == "quick" else [(2,), (1, 2), (3, 2), (2, 2, 2), (4, 1, 2), (7, 2)]

    def h(E):
        pool = anf.Pool(E)
        shape = E.pick("shape", shapes)
        n = int(np.prod(shape)) // 2
        a, b = operands(E, pool, "a", n), operands(E, pool, "b", n)
        if n == 1 and E.pick("second", ["any", "few bits"]) == "few bits":
            b = [x & 0x8000000000000003 for x in b]
        with pykern.symbolic(E):
            out = run_handler("field.mul", [array(E, a, shape), array(E, b, shape)])
        E.check(tuple(np.shape(out)) == shape, "shape", f"{np.shape(out)} {shape}")
        got = flat(out)
        pairs(E, pool, "product is the field's", got, [gf(bits(a, i), bits(b, i)) for i in range(n)])

    explore(h, unit="product", expect=("product is the field's",), functions=FUNCS[:2], validate=2, split=1, max_seconds=2400, bounds=f"all operands, array shapes {shapes}")


def native(name):
    d = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH") or None)
    try:
        return ctypes.CDLL(llvm.shared([llvm.kernels(name)], d + "/k.so"))
    finally:
        __import__("shutil").rmtree(d, ignore_errors=True)


def u64p(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64))


@functools.cache
def ir(name):
    return llvm.compile_ir(llvm.kernels(name))


def native_product(tier):
    sizes = [0, 1, 3] if tier == "quick" else [0, 1, 2, 3, 5, 8]

    def h(E):
        pool = anf.Pool(E)
        n = E.pick("n", sizes)
        alias = E.pick("output", ["apart", "over the first operand"]) if n else "apart"
        a, b = operands(E, pool, "a", max(n, 1)), operands(E, pool, "b", max(n, 1))
        one = n == 1 and bool(E.bool("single"))
        want = [gf(bits(a, i), bits(b, i)) for i in range(n)]
        if E.concrete:
            lib = native("gf128.cpp")
            x, y = (array(E, v, (len(v),)) for v in (a, b))
            z = x if alias != "apart" else np.full(len(x), 7, dtype=np.uint64)
            (lib.gf128_mul(u64p(x), u64p(y), u64p(z)) if one else lib.gf128_mul_batch(u64p(x), u64p(y), u64p(z), ctypes.c_int64(n)))
            got = flat(z)
        else:
            m = llvm.Machine(E, ir("gf128.cpp"))
            k = len(a) * 8
            pa, pb = m.alloc(k, a), m.alloc(k, b)
            pz = pa if alias != "apart" else m.alloc(k, [7] * len(a))
            try:
                m.call("gf128_mul" if one else "gf128_mul_batch", [pa, pb, pz] + ([] if one else [n]))
            except llvm.OutOfBounds as e:
                E.fail("accesses stay within the arrays", str(e))
                return
            got = [m.load(pz + 8 * i, 8) for i in range(len(a))]
        pairs(E, pool, "native product is the field's", got, want)
        if n == 0:
            E.check(got == ([7, 7] if alias == "apart" else got), "nothing written for no elements")

    explore(h, unit="native-product", expect=("native product is the field's",), functions=FUNCS[2:3], validate=2, split=1, max_seconds=2400, bounds=f"all operands, batch sizes {sizes}, output apart from or over the first operand")


def csr(E, tier):
    """A sparse matrix chosen by the solver: row sizes and columns."""
    m, n = E.pick("dims", [(1, 2), (2, 3)] if tier == "quick" else [(1, 2), (2, 3), (3, 3)])
    ptr, idx = [0], []
    for i in range(m):
        k = int(E.int(f"row{i}", 0, 2))
        idx += [int(E.int(f"col{i}.{j}", 0, n - 1)) for j in range(k)]
        ptr.append(len(idx))
    return m, n, ptr, idx


def syndromes(E, x, m, ptr, idx):
    out = []
    for i in range(m):
        acc = W([anf.ZERO] * 128)
        for j in idx[ptr[i] : ptr[i + 1]]:
            acc = anf.wxor(acc, W(bits(x, j)), 128)
        out.append(acc if isinstance(acc, int) else W(as_bits(acc, 128)).small())
    return out


def syndrome(tier):
    def h(E):
        pool = anf.Pool(E)
        m, n, ptr, idx = csr(E, tier)
        x = operands(E, pool, "x", n)
        with pykern.symbolic(E):
            out = run_handler("field.ldpc_encode", [array(E, x, (n, 2)), np.array(idx, dtype=np.uint64), np.array(ptr, dtype=np.uint64)], m=m)
        E.check(tuple(np.shape(out)) == (m, 2), "shape", f"{np.shape(out)}")
        pairs(E, pool, "syndrome is the sum of the selected elements", flat(out), syndromes(E, x, m, ptr, idx))

    explore(h, unit="syndrome", expect=("syndrome is the sum of the selected elements",), functions=FUNCS[:2], validate=2, split=1, max_seconds=2400, bounds="matrices up to 2x3 (thorough 3x3) with up to two entries per row, repeated ones included; any message")


def native_syndrome(tier):
    def h(E):
        pool = anf.Pool(E)
        m, n, ptr, idx = csr(E, tier)
        x = operands(E, pool, "x", n)
        if E.concrete:
            lib = native("ldpc.cpp")
            z = np.full(2 * m, 7, dtype=np.uint64)
            lib.ldpc_encode(u64p(array(E, x, (2 * n,))), u64p(np.array([*idx, 0], dtype=np.uint64)), u64p(np.array(ptr, dtype=np.uint64)), u64p(z), ctypes.c_uint64(m), ctypes.c_uint64(n))
            got = flat(z)
        else:
            mc = llvm.Machine(E, ir("ldpc.cpp"))
            px, pi, pp, pz = mc.alloc(16 * n, x), mc.alloc(8 * len(idx), idx), mc.alloc(8 * len(ptr), ptr), mc.alloc(16 * m, [7] * (2 * m))
            try:
                mc.call("ldpc_encode", [px, pi, pp, pz, m, n])
            except llvm.OutOfBounds as e:
                E.fail("accesses stay within the arrays", str(e))
                return
            got = [mc.load(pz + 8 * i, 8) for i in range(2 * m)]
        pairs(E, pool, "native syndrome is the sum of the selected elements", got, syndromes(E, x, m, ptr, idx))

    explore(h, unit="native-syndrome", expect=("native syndrome is the sum of the selected elements",), functions=FUNCS[3:], validate=2, split=1, max_seconds=2400, bounds="as for syndrome")
