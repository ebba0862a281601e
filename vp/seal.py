"""Ideal BFV: a stand-in for the tenseal/sealapi calls the backend makes, over slot vectors whose elements are numbers or
integer polynomials.  Same operations, same refusals, no noise.  Ciphertexts are lazy: a slot is computed when asked for."""

from __future__ import annotations

import itertools
import types

from .anf import Unencodable
from .zp import Zp

_ids = itertools.count(1)


class Vec:
    """A lazy slot vector."""

    def __init__(self, n, f):
        self.n, self.f, self.memo = n, f, {}

    def get(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self.memo[i] = self.f(i)
        return v


class Params:
    def __init__(self, degree, t):
        self.degree, self.t = degree, t


class KeyHandle:
    def __init__(self, data):
        self.data = data


class Key:
    def __init__(self, kind, params, ident):
        self.kind, self.params, self.ident = kind, params, ident


class Context:
    def __init__(self, params, ident, secret=True, galois=False, relin=False):
        self.params, self.ident, self.secret, self.galois, self.relin = params, ident, secret, galois, relin

    def generate_galois_keys(self):
        self.galois = True

    def generate_relin_keys(self):
        self.relin = True

    def seal_context(self):
        return KeyHandle(self)

    def _key(self, kind, have=True):
        if not have:
            raise ValueError(f"the context has no {kind} key")
        return KeyHandle(Key(kind, self.params, self.ident))

    def public_key(self):
        return self._key("public")

    def relin_keys(self):
        return self._key("relin", self.relin)

    def galois_keys(self):
        return self._key("galois", self.galois)

    def secret_key(self):
        return self._key("secret", self.secret)

    def has_secret_key(self):
        return self.secret

    def serialize(self, save_public_key=True, save_secret_key=True, save_galois_keys=True, save_relin_keys=True):
        c = Context(self.params, self.ident, self.secret and save_secret_key, self.galois and save_galois_keys, self.relin and save_relin_keys)
        k = f"ideal-context-{next(_ids)}".encode()
        _store[k] = c
        return k


_store = {}


def context_from(data):
    return _store[bytes(data)]


class _File:
    def save(self, fname):
        k = f"ideal-{next(_ids)}".encode()
        _store[k] = self
        with open(fname, "wb") as f:
            f.write(k)

    def load(self, ctx, fname):
        with open(fname, "rb") as f:
            o = _store[f.read()]
        self.__dict__.update(o.__dict__)


class Plaintext(_File):
    v = None

    def is_zero(self):
        if self.v is None:
            return True
        for i in self.own:
            if not _zero(self.v.get(i)):
                return False
        return True


def _zero(x):
    return not bool(x != 0)


class Ciphertext(_File):
    """rand: the part that depends on the encryption coins, as {atom: coefficient}; empty means transparent."""

    v = None
    parts = 0
    params = None
    ident = None
    rand = {}

    def is_transparent(self):
        return not self.rand

    def size(self):
        return self.parts


def _check(ct, params, what="encrypted"):
    if ct.parts == 0 or ct.params is None or (ct.params.degree, ct.params.t) != (params.degree, params.t):
        raise ValueError(f"{what} is not valid for encryption parameters")


def _set(out, v, parts, src, rand):
    rand = {k: c for k, c in rand.items() if c}
    if not rand:
        raise RuntimeError("result ciphertext is transparent")
    out.v, out.parts, out.params, out.ident, out.rand = v, parts, src.params, src.ident, rand


def _same_key(a, b):
    if a.ident != b.ident:
        raise Unencodable("operands under different keys")


class Evaluator:
    def __init__(self, ctx):
        self.p = ctx.params

    def _two(self, a, b, out, sign):
        _check(a, self.p, "encrypted1")
        _check(b, self.p, "encrypted2")
        _same_key(a, b)
        rand = dict(a.rand)
        for k, c in b.rand.items():
            rand[k] = rand.get(k, 0) + sign * c
        x, y = a.v, b.v
        _set(out, Vec(x.n, lambda i: x.get(i) + y.get(i) if sign > 0 else x.get(i) - y.get(i)), max(a.parts, b.parts), a, rand)

    def add(self, a, b, out):
        self._two(a, b, out, 1)

    def sub(self, a, b, out):
        self._two(a, b, out, -1)

    def negate(self, a, out):
        _check(a, self.p)
        x = a.v
        _set(out, Vec(x.n, lambda i: -x.get(i)), a.parts, a, {k: -c for k, c in a.rand.items()})

    def _plain(self, a, p, out, sign):
        _check(a, self.p)
        if p.v is None or (p.params.degree, p.params.t) != (self.p.degree, self.p.t):
            raise ValueError("plain is not valid for encryption parameters")
        x, y = a.v, p.v
        _set(out, Vec(x.n, lambda i: x.get(i) + y.get(i) if sign > 0 else x.get(i) - y.get(i)), a.parts, a, dict(a.rand))

    def add_plain(self, a, p, out):
        self._plain(a, p, out, 1)

    def sub_plain(self, a, p, out):
        self._plain(a, p, out, -1)

    def multiply_plain(self, a, p, out):
        _check(a, self.p)
        if p.is_zero():
            raise RuntimeError("result ciphertext is transparent")
        x, y = a.v, p.v
        const = all(y.get(i) is y.get(0) or y.get(i) == y.get(0) for i in p.own) and len(p.own) == self.p.degree if not any(isinstance(y.get(i), Zp) for i in p.own) else False
        rand = {k: c * int(y.get(0)) for k, c in a.rand.items()} if const else {("mul", p.ident, k): c for k, c in a.rand.items()}
        _set(out, Vec(x.n, lambda i: 0 if _is0(y.get(i)) else x.get(i) * y.get(i)), a.parts, a, rand)

    def multiply(self, a, b, out):
        _check(a, self.p, "encrypted1")
        _check(b, self.p, "encrypted2")
        _same_key(a, b)
        x, y = a.v, b.v
        _set(out, Vec(x.n, lambda i: x.get(i) * y.get(i)), a.parts + b.parts - 1, a, {("prod", next(_ids)): 1})

    def relinearize(self, a, rk, out):
        _check(a, self.p)
        if not isinstance(rk, Key) or rk.kind != "relin" or rk.ident != a.ident:
            raise ValueError("relin_keys is not valid for encryption parameters")
        _set(out, a.v, 2, a, {("relin", k): c for k, c in a.rand.items()} if a.parts > 2 else dict(a.rand))

    def _galois(self, a, gk):
        _check(a, self.p)
        if not isinstance(gk, Key) or gk.kind != "galois" or gk.ident != a.ident:
            raise ValueError("galois_keys is not valid for encryption parameters")
        if a.parts > 2:
            raise ValueError("encrypted size must be 2")

    def rotate_rows(self, a, steps, gk, out):
        row = self.p.degree // 2
        steps = int(steps)
        self._galois(a, gk)
        if abs(steps) >= row:
            raise ValueError("step count too large")
        x = a.v
        rand = {("rot", steps % row, k): c for k, c in a.rand.items()} if steps else dict(a.rand)
        _set(out, Vec(x.n, lambda i: x.get(i - i % row + (i + steps) % row)), a.parts, a, rand)

    def rotate_columns(self, a, gk, out):
        self._galois(a, gk)
        row = self.p.degree // 2
        x = a.v
        _set(out, Vec(x.n, lambda i: x.get((i + row) % (2 * row))), a.parts, a, {("col", k): c for k, c in a.rand.items()})


def _is0(x):
    return x.is_const() and x.const() == 0 if isinstance(x, Zp) else isinstance(x, int) and x == 0


class BatchEncoder:
    def __init__(self, ctx):
        self.p = ctx.params

    def encode(self, values, out):
        if not isinstance(values, list) or any(isinstance(v, (list, float, complex, str)) for v in values):
            raise TypeError("encode(): incompatible function arguments")
        if len(values) > self.p.degree:
            raise ValueError("values_matrix size is too large")
        half = self.p.t // 2
        vals = []
        for v in values:
            if not isinstance(v, Zp):
                if isinstance(v, int):
                    if not -(2**63) <= v < 2**64:
                        raise TypeError("encode(): incompatible function arguments")
                    if abs(v) > half:
                        raise Unencodable("value beyond the plaintext modulus")
                    v = int(v)
            vals.append(v)
        out.v = Vec(self.p.degree, lambda i: vals[i] if i < len(vals) else 0)
        out.own, out.params, out.ident = range(len(vals)) if len(vals) < self.p.degree else range(self.p.degree), self.p, next(_ids)

    def decode_int64(self, pt):
        return Decoded(pt.v)


OPENED: list = []  # slot vectors decrypted since the last patching
WANTED = None  # slots a decoding has to deliver (None: all)
UNREAD = type("Unread", (), {"__repr__": lambda self: "a slot nobody asked for"})()


class Decoded(list):
    """The decoded slots; a list once looked at."""

    def __init__(self, v):
        self.vec = v
        super().__init__()
        self.done = False

    def _fill(self):
        if not self.done:
            self.done = True
            super().extend(self.vec.get(i) if WANTED is None or i in WANTED else UNREAD for i in range(self.vec.n))

    def __len__(self):
        return self.vec.n

    def __iter__(self):
        self._fill()
        return super().__iter__()

    def __getitem__(self, i):
        if isinstance(i, int):
            return self.vec.get(i % self.vec.n)
        self._fill()
        return super().__getitem__(i)


class Encryptor:
    def __init__(self, ctx, pk):
        if pk.kind != "public":
            raise ValueError("public key is not valid for encryption parameters")
        self.p, self.ident = ctx.params, pk.ident

    def encrypt(self, pt, out):
        if pt.v is None or (pt.params.degree, pt.params.t) != (self.p.degree, self.p.t):
            raise ValueError("plain is not valid for encryption parameters")
        out.v, out.parts, out.params, out.ident, out.rand = pt.v, 2, self.p, self.ident, {("enc", next(_ids)): 1}

    def encrypt_zero(self, out):
        out.v, out.parts, out.params, out.ident, out.rand = Vec(self.p.degree, lambda i: 0), 2, self.p, self.ident, {("enc", next(_ids)): 1}


class Decryptor:
    def __init__(self, ctx, sk):
        if sk.kind != "secret":
            raise ValueError("secret key is not valid for encryption parameters")
        self.p, self.ident = ctx.params, sk.ident

    def decrypt(self, ct, out):
        _check(ct, self.p)
        if ct.ident != self.ident:
            v = Vec(self.p.degree, lambda i: Zp({(f"garbage{next(_ids)}",): 1}))
        else:
            v = ct.v
        OPENED.append(v)
        out.v, out.own, out.params, out.ident = v, range(self.p.degree), self.p, next(_ids)


class SCHEME_TYPE:
    BFV = "BFV"


def context(scheme, poly_modulus_degree=4096, plain_modulus=1032193, **kw):
    if scheme != SCHEME_TYPE.BFV:
        raise Unencodable("scheme")
    n = int(poly_modulus_degree)
    if n & (n - 1) or n < 8:
        raise ValueError("non-standard poly_modulus_degree")
    return Context(Params(n, int(plain_modulus)), next(_ids))


sealapi = types.SimpleNamespace(Evaluator=Evaluator, BatchEncoder=BatchEncoder, Encryptor=Encryptor, Decryptor=Decryptor, Plaintext=Plaintext, Ciphertext=Ciphertext)
ts = types.SimpleNamespace(context=context, context_from=context_from, Context=Context, SCHEME_TYPE=SCHEME_TYPE, sealapi=sealapi)


class patched:
    """Within: the BFV backend runs on the ideal scheme."""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        from mplang.backends import bfv_impl

        self.m = bfv_impl
        self.saved = (bfv_impl.ts, bfv_impl.sealapi)
        if self.on:
            bfv_impl.ts, bfv_impl.sealapi = ts, sealapi
            OPENED.clear()
        bfv_impl.clear_keygen_cache()

    def __exit__(self, *a):
        self.m.ts, self.m.sealapi = self.saved
        self.m.clear_keygen_cache()
