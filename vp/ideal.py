"""Ideal cryptography for running the secure libraries symbolically.

Words are GF(2)-polynomials of their unknown bits (vp.anf); curve points are integer polynomials (the discrete logarithm)
over named scalars and bits; hash and cipher are opaque functions.  Everything a party computes natively stays native.
The handlers replace only kernels that compute on symbolic data; with concrete data the real kernels run.
"""

from __future__ import annotations

import hashlib

import numpy as np

from . import anf
from .anf import ONE, ONE_M, W, ZERO, Pool, as_bits, conj, mux

ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def coins(seed, n):
    """Fixed coin bytes of the observing party."""
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(f"{seed}/{i}".encode()).digest()
        i += 1
    return out[:n]


class WrongKey(Exception):
    pass


# ---------------------------------------------------------------- polynomials over the integers modulo the group order
# {monomial: coefficient}; a monomial is a sorted tuple of ("b", pool index) (idempotent) and ("x", n) (scalars)


def p_const(c):
    c %= ORDER
    return {(): c} if c else {}


def p_add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = (out.get(m, 0) + k * c) % ORDER
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def p_mul(a, b):
    out = {}
    for m, c in a.items():
        for k, d in b.items():
            xs = sorted([v for v in m if v[0] == "x"] + [v for v in k if v[0] == "x"])
            bs = sorted({v for v in m if v[0] == "b"} | {v for v in k if v[0] == "b"})
            q = tuple(bs) + tuple(xs)
            v = (out.get(q, 0) + c * d) % ORDER
            if v:
                out[q] = v
            else:
                out.pop(q, None)
    return out


def p_bit(bit):
    """A GF(2) polynomial as a 0/1-valued integer polynomial."""
    acc = {}
    for m in bit:
        t = {tuple(("b", v) for v in m): 1}
        acc = p_add(p_add(acc, t), p_mul(acc, t), -2)
    return acc


def p_cof(p, v, val):
    out = {}
    for m, c in p.items():
        if ("b", v) in m:
            if not val:
                continue
            m = tuple(x for x in m if x != ("b", v))
        out = p_add(out, {m: c})
    return out


def p_key(p):
    return tuple(sorted(p.items()))


# ---------------------------------------------------------------- values (serialisation is never needed)


def classes():
    """Value subclasses; built once mplang is importable."""
    if "Pt" in _cls:
        return _cls
    from mplang.runtime.value import Value

    class Ideal(Value):
        _serde_kind = "vp.ideal"

        def to_json(self):
            raise TypeError("not serialised")

        @classmethod
        def from_json(cls, data):
            raise TypeError("not serialised")

    class Pt(Ideal):
        def __init__(self, p):
            self.p = p

        def cof(self, v, val):
            return Pt(p_cof(self.p, v, val))

        def bits(self):
            return {x[1] for m in self.p for x in m if x[0] == "b"}

        def nonlinear(self):
            return [tuple(x[1] for x in m if x[0] == "b") for m in self.p if len(m) > 1 and m[0][0] == "b"]

        def key(self):
            return ("pt", p_key(self.p))

        def select(self, c, a, b):
            return _sel(c, a, b)

    class Sc(Pt):
        pass

    class Byte(Ideal):
        """Byte i of a point's encoding."""

        def __init__(self, pt, i):
            self.pt, self.i = pt, i

    class Ct(Ideal):
        def __init__(self, key, pt):
            self.k, self.pt = key, pt

        def cof(self, v, val):
            return Ct([cofx(x, v, val) for x in self.k], cofx(self.pt, v, val))

    class Mux(Ideal):
        """bit ? a : b over values that have no arithmetic."""

        def __init__(self, bit, a, b):
            self.bit, self.a, self.b = bit, a, b

    _cls.update(Pt=Pt, Sc=Sc, Byte=Byte, Ct=Ct, Mux=Mux)
    return _cls


_cls: dict = {}


def cofx(x, v, val):
    from mplang.backends.tensor_impl import TensorValue

    if isinstance(x, W):
        return anf.cof(x, v, val)
    if hasattr(x, "cof"):
        return x.cof(v, val)
    if isinstance(x, TensorValue):
        return TensorValue(cofx(x.unwrap(), v, val))
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = cofx(x[i], v, val)
        return out
    if isinstance(x, (list, tuple)):
        return type(x)(cofx(e, v, val) for e in x)
    return x


def muxx(bit, a, b):
    """bit ? a : b on any value."""
    from mplang.backends.tensor_impl import TensorValue

    if bit == ONE:
        return a
    if bit == ZERO:
        return b
    C = classes()
    if isinstance(a, C["Sc"]) and isinstance(b, C["Sc"]) or type(a) is C["Pt"] and type(b) is C["Pt"]:
        s = p_bit(bit)
        return type(a)(p_add(b.p, p_mul(s, p_add(a.p, b.p, -1))))
    if isinstance(a, TensorValue) and isinstance(b, TensorValue):
        x, y = a.unwrap(), b.unwrap()
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = muxx(bit, x[i], y[i])
        return TensorValue(out)
    num = (int, W, bool, np.integer, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        return mux(bit, a if isinstance(a, W) else int(a), b if isinstance(b, W) else int(b))
    return C["Mux"](bit, a, b)


def _sel(c, a, b):
    return muxx(c.b[0] if isinstance(c, W) else (ONE if c else ZERO), a, b)


class World:
    """Handlers plus the log of coins drawn and messages exchanged in one run."""

    def __init__(self, E, fixed=None, pool=None):
        self.E = E
        self.pool = pool or Pool(E)
        self.fixed = fixed or {}  # rank -> coin seed: this party's coins are constants
        self.log = []             # (src, dst, value)
        self.coins = {}
        self.apps = []            # (fn, args, outputs, rank)
        self.n = 0

    # ---- coins
    def coin(self, rank, nbytes):
        k = self.coins.get(rank, 0)
        self.coins[rank] = k + 1
        return coins(f"{self.fixed[rank]}/{k}", nbytes)

    def rank(self, interp):
        from .mesh import rank_of

        return rank_of(interp)

    def random_bytes(self, interp, op):
        from mplang.backends.tensor_impl import TensorValue

        r, n = self.rank(interp), op.attrs["length"]
        if r in self.fixed:
            return TensorValue(np.frombuffer(self.coin(r, n), dtype=np.uint8).copy())
        if self.E.concrete:
            return self.real(interp, op)
        self.n += 1
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.pool.fresh(("rnd", r, self.n, i), 8)
        return TensorValue(out)

    def real(self, interp, op, *a):
        from mplang.edsl.registry import get_impl

        return get_impl(op.opcode)(interp, op, *a)

    def random_scalar(self, interp, op):
        r = self.rank(interp)
        if r in self.fixed:
            v = int.from_bytes(self.coin(r, 32), "big") % ORDER
            return v if self.E.concrete else classes()["Sc"](p_const(v))
        if self.E.concrete:
            return self.real(interp, op)
        self.n += 1
        return classes()["Sc"]({(("x", self.n),): 1})

    # ---- group
    def generator(self, interp, op):
        return classes()["Pt"](p_const(1))

    def as_scalar(self, x):
        from mplang.backends.tensor_impl import TensorValue

        if isinstance(x, TensorValue):
            x = x.unwrap().item()
        if isinstance(x, classes()["Sc"]):
            return x.p
        if isinstance(x, W):
            acc = {}
            for i, b in enumerate(x.b):
                if b:
                    acc = p_add(acc, p_bit(b), 1 << i)
            return acc
        return p_const(int(x))

    def scalar_from_int(self, interp, op, v):
        return classes()["Sc"](self.as_scalar(v))

    def ec_mul(self, interp, op, p, s):
        return classes()["Pt"](p_mul(p.p, self.as_scalar(s)))

    def ec_add(self, interp, op, p, q):
        return classes()["Pt"](p_add(p.p, q.p))

    def ec_sub(self, interp, op, p, q):
        return classes()["Pt"](p_add(p.p, q.p, -1))

    def point_to_bytes(self, interp, op, p):
        from mplang.backends.tensor_impl import TensorValue

        out = np.empty(65, dtype=object)
        for i in range(65):
            out[i] = classes()["Byte"](p, i)
        return TensorValue(out)

    def bytes_to_point(self, interp, op, b):
        B = classes()["Byte"]
        xs = list(b.unwrap().ravel())
        if len(xs) != 65 or any(not isinstance(x, B) or x.i != i or x.pt.key() != xs[0].pt.key() for i, x in enumerate(xs)):
            raise ValueError("not the encoding of a point")
        return xs[0].pt

    # ---- opaque functions
    def args(self, xs):
        """Byte elements of one point collapse to the point."""
        B = classes()["Byte"]
        out, i = [], 0
        xs = list(xs)
        while i < len(xs):
            if isinstance(xs[i], B):
                run = xs[i : i + 65]
                if len(run) == 65 and all(isinstance(x, B) and x.i == k and x.pt.key() == run[0].pt.key() for k, x in enumerate(run)):
                    out.append(run[0].pt)
                    i += 65
                    continue
                raise ValueError("torn point encoding")
            out.append(xs[i])
            i += 1
        return out

    def split(self, xs):
        """Unknown bits to case-split so that every argument becomes affine."""
        P = self.pool
        count = {}
        mons = []
        for x in xs:
            if isinstance(x, W):
                mons += [m for b in x.b for m in b if len(m) > 1]
            elif hasattr(x, "nonlinear"):
                mons += x.nonlinear()
        out = []
        # a lone bit times a scalar must be split; in products of bits the most frequent one is
        while mons:
            count = {}
            for m in mons:
                for v in m:
                    count[v] = count.get(v, 0) + 1
            v = max(count, key=lambda v: (P.kind[v] == "choice", count[v], -v))
            out.append(v)
            lone = [m for m in mons if v not in m]
            mons = lone
        return out

    def apply(self, fn, xs, width, n):
        return self._apply(fn, self.args(xs), width, n)

    def _apply(self, fn, xs, width, n):
        vs = self.split(xs)
        if len(vs) > 6:
            raise anf.Unencodable(f"{fn} of a value depending on {len(vs)} choices")
        if not vs:
            key = (fn, tuple(x.key() if hasattr(x, "key") else int(x) for x in xs))
            got = self.pool.memo.get(key)
            if got is None:
                got = self.pool.memo[key] = []
                self.apps.append((fn, xs, got, width))
            while len(got) < n:
                got.append(self.pool.fresh((fn, len(self.pool.memo), len(got)), width, "hash"))
            return got[:n]
        v = vs[0]
        a0 = self._apply(fn, [cofx(x, v, 0) for x in xs], width, n)
        a1 = self._apply(fn, [cofx(x, v, 1) for x in xs], width, n)
        return [mux(frozenset([(v,)]), x1, x0) for x0, x1 in zip(a0, a1)]

    @staticmethod
    def sym(*arrays):
        return any(a.dtype == object for a in arrays)

    def hash(self, interp, op, data):
        from mplang.backends.tensor_impl import TensorValue

        x = data.unwrap() if isinstance(data, TensorValue) else None
        if x is None or not self.sym(x):
            return self.real(interp, op, data)
        return TensorValue(obj(self.apply("sha256", x.ravel(), 8, 32)))

    def hash_batch(self, interp, op, data):
        from mplang.backends.tensor_impl import TensorValue

        x = data.unwrap()
        if not self.sym(x):
            return self.real(interp, op, data)
        if x.ndim <= 1:
            return TensorValue(obj(self.apply("sha256", x.ravel(), 8, 32)))
        rows = x.reshape(-1, x.shape[-1])
        out = np.empty((rows.shape[0], 32), dtype=object)
        for i, r in enumerate(rows):
            if any(not isinstance(v, (int, np.integer)) for v in r):
                out[i, :] = obj(self.apply("sha256", list(r), 8, 32))
            else:
                out[i, :] = obj(list(hashlib.sha256(bytes(int(v) for v in r)).digest()))
        return TensorValue(out.reshape(*x.shape[:-1], 32))

    def aes_expand(self, interp, op, seeds):
        from mplang.backends.tensor_impl import TensorValue

        x = seeds.unwrap()
        if not self.sym(x):
            return self.real(interp, op, seeds)
        n = op.attrs["length"]
        if op.inputs[0].type.element_type.bitwidth == 8 if hasattr(op.inputs[0].type.element_type, "bitwidth") else False:
            if x.shape[-1] == 16:
                x = join_bytes(x.reshape(-1, 2, 8))
        if x.shape[-1] != 2:
            x = x.reshape(-1, 2)
        out = np.empty((x.shape[0], n, 2), dtype=object)
        for i in range(x.shape[0]):
            if any(isinstance(v, W) for v in x[i]):
                out[i] = obj(self.apply("aes", list(x[i]), 64, 2 * n)).reshape(n, 2)
            else:
                native = self.real(interp, op, TensorValue(np.array([[int(v) for v in x[i]]], dtype=np.uint64))).unwrap()
                out[i] = obj([int(v) for v in np.asarray(native).ravel()]).reshape(n, 2)
        return TensorValue(out)

    def gf_mul(self, interp, op, a, b):
        from mplang.backends.tensor_impl import TensorValue

        x, y = a.unwrap(), b.unwrap()
        if not self.sym(x, y):
            return self.real(interp, op, a, b)
        if x.shape != y.shape:
            x, y = np.broadcast_arrays(x, y)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-1]):
            p = as_bits(unint(x[i][0]), 64) + as_bits(unint(x[i][1]), 64)
            q = as_bits(unint(y[i][0]), 64) + as_bits(unint(y[i][1]), 64)
            if sum(map(bool, p)) > sum(map(bool, q)):
                p, q = q, p
            r = anf.gf_mul(p, q)
            out[(*i, 0)], out[(*i, 1)] = W(r[:64]).small(), W(r[64:]).small()
        return TensorValue(out)

    # ---- ciphers
    def key_words(self, k):
        from mplang.backends.tensor_impl import TensorValue

        return [unint(v) for v in k.unwrap().ravel()] if isinstance(k, TensorValue) else list(k.unwrap()) if hasattr(k, "unwrap") else k

    def sym_encrypt(self, interp, op, key, pt):
        return classes()["Ct"](self.key_words(key), pt)

    def sym_decrypt(self, interp, op, key, ct, **kw):
        return self.dec(self.key_words(key), ct)

    def dec(self, key, ct):
        C = classes()
        if isinstance(ct, C["Mux"]):
            if len(ct.bit) != 1 or len(next(iter(ct.bit))) != 1:
                # make the condition a single unknown by splitting its variables
                vs = sorted({v for m in ct.bit for v in m})
                v = vs[0]
            else:
                v = next(iter(ct.bit))[0]
            parts = []
            for val in (1, 0):
                b = anf.cofactor(ct.bit, v, val)
                k = [cofx(x, v, val) for x in key]
                inner = cofx(ct.a, v, val) if b == ONE else cofx(ct.b, v, val) if b == ZERO else C["Mux"](b, cofx(ct.a, v, val), cofx(ct.b, v, val))
                parts.append(self.dec(k, inner))
            return muxx(frozenset([(v,)]), *parts)
        if not isinstance(ct, C["Ct"]):
            raise TypeError("not a ciphertext")
        if len(key) != len(ct.k) or any(self.pool.differ(a, b) is not None for a, b in zip(key, ct.k)):
            raise WrongKey("decryption with a key other than the encryption key")
        return ct.pt

    def select(self, interp, op, c, a, b):
        from mplang.backends.tensor_impl import TensorValue

        if isinstance(c, TensorValue):
            c = c.unwrap().item()
        if isinstance(c, classes()["Sc"]):
            if not any(c.p):
                return a if c.p else b
            # a bit-valued polynomial
            bit = ZERO
            if list(c.p.values()) == [1]:
                (m,) = c.p
                bit = frozenset([tuple(x[1] for x in m)])
                return muxx(bit, a, b)
            if type(a) is classes()["Pt"]:
                return type(a)(p_add(b.p, p_mul(c.p, p_add(a.p, b.p, -1))))
            raise anf.Unencodable("selection by a compound scalar")
        if isinstance(c, W):
            if any(c.b[1:]):
                raise anf.Unencodable("selection by a wide word")
            return muxx(c.b[0], a, b)
        return a if int(c) else b

    def handlers(self):
        from . import shlo

        if self.E.concrete:
            return {"crypto.random_bytes": self.random_bytes, "crypto.ec_random_scalar": self.random_scalar} if self.fixed else {}
        return {
            "tensor.run_jax": shlo.run_jax,
            "crypto.random_bytes": self.random_bytes, "crypto.ec_random_scalar": self.random_scalar, "crypto.ec_generator": self.generator,
            "crypto.ec_mul": self.ec_mul, "crypto.ec_add": self.ec_add, "crypto.ec_sub": self.ec_sub, "crypto.ec_scalar_from_int": self.scalar_from_int,
            "crypto.ec_point_to_bytes": self.point_to_bytes, "crypto.ec_bytes_to_point": self.bytes_to_point, "crypto.select": self.select,
            "crypto.hash": self.hash, "crypto.hash_batch": self.hash_batch, "crypto.sym_encrypt": self.sym_encrypt, "crypto.sym_decrypt": self.sym_decrypt,
            "field.aes_expand": self.aes_expand, "field.mul": self.gf_mul,
        }

    # ---- inputs
    def tensor(self, name, shape, dtype, kind="input", width=None):
        """A tensor of unknown words (concretely: of the model's values)."""
        from mplang.backends.tensor_impl import TensorValue

        dt = np.dtype(dtype)
        w = width or (1 if dt == bool else dt.itemsize * 8)
        vals = [self.pool.word(f"{name}_{'_'.join(map(str, i))}", w, kind) for i in np.ndindex(*shape)]
        if self.E.concrete:
            a = np.array(vals, dtype=np.uint64)
            return TensorValue(a.astype(dt).reshape(shape) if w < 64 else a.view(f"u{dt.itemsize}").view(dt).reshape(shape) if dt.itemsize == 8 else a.astype(dt).reshape(shape))
        return TensorValue(obj(vals).reshape(shape))


def unint(v):
    return v if isinstance(v, W) else int(v)


def obj(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def join_bytes(x):
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        bits = []
        for b in x[i]:
            bits += as_bits(unint(b), 8)
        out[i] = W(bits).small()
    return out


def elems(v):
    """Elements of a tensor value as words or Python ints."""
    from mplang.backends.tensor_impl import TensorValue

    a = v.unwrap() if isinstance(v, TensorValue) else np.asarray(v)
    return [x if not isinstance(x, (np.integer, np.bool_, bool)) else int(x) for x in a.ravel()], a.shape
