"""Ideal cryptography behind the real libraries' interfaces: byte strings of unknown bytes, a group whose points are known by their
discrete logarithm, Diffie-Hellman keys that are opaque handles, and an authenticated cipher that opens exactly what it sealed."""

import base64
import builtins
import contextlib

import z3

from . import sym
from .sym import SymInt

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


class Byte(SymInt):
    def __xor__(self, o):
        return Byte(z3.BV2Int(z3.Int2BV(self.e, 8) ^ z3.Int2BV(sym.zint(o), 8)))

    __rxor__ = __xor__


class SymBytes(bytes):
    """Bytes of known number and unknown values."""

    def __new__(cls, elems):
        elems = list(elems)
        o = bytes.__new__(cls, len(elems))
        o.elems = elems
        return o

    def __getitem__(self, k):
        return SymBytes(self.elems[k]) if isinstance(k, slice) else self.elems[k]

    def __iter__(self):
        return iter(self.elems)

    def __add__(self, o):
        return SymBytes(self.elems + list(elements(o)))

    def __radd__(self, o):
        return SymBytes(list(elements(o)) + self.elems)

    def same(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)) or len(o) != len(self):
            return False
        r = True
        for a, b in zip(self.elems, elements(o)):
            c = a == b
            if c is False:
                return False
            r = c if r is True else r if c is True else r & c
        return r

    def __eq__(self, o):
        return self.same(o)

    def __ne__(self, o):
        r = self.same(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 7

    def __bytes__(self):
        return self

    def decode(self, *a, **k):
        if all(type(x) is int for x in self.elems):
            return bytes(self.elems).decode(*a, **k)
        raise NotImplementedError("text of unknown bytes")

    def tobytes(self):
        return self

    def __reduce__(self):
        raise NotImplementedError("pickled")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SymBytes({len(self)})"


def elements(b):
    return b.elems if isinstance(b, SymBytes) else list(bytes.__iter__(bytes(b)))


class Text64(str):
    """base64 text of unknown bytes."""

    def __new__(cls, raw):
        o = str.__new__(cls, "?" * (-(-len(raw) // 3) * 4))
        o.raw = raw
        return o

    def decode(self, *a):
        return self

    def encode(self, *a):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class IntBytes(bytes):
    """A whole number written out as bytes."""

    def __new__(cls, value, n, order):
        o = bytes.__new__(cls, n)
        o.value, o.order = value, order
        return o


def to_bytes(self, length=1, byteorder="big", *, signed=False):
    n = length
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not ((self >= lo) & (self <= hi)):
        raise OverflowError("int too big to convert")
    return IntBytes(self, n, byteorder)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a, **k):
        return x if isinstance(x, SymInt) else builtins.int(x, *a, **k)

    def __or__(cls, o):
        return builtins.int | o


class Int(metaclass=_IntMeta):
    """int(), except that an unknown number stays itself."""

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, IntBytes) and b.order == byteorder and not signed:
            return b.value
        if isinstance(b, SymBytes):
            v = 0
            for x in b.elems if byteorder == "big" else reversed(b.elems):
                v = v * 256 + x
            return v
        return builtins.int.from_bytes(b, byteorder, signed=signed)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.bytes)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.bytes)

    def __call__(cls, x=b"", *a):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (builtins.bytes, builtins.int, str, bytearray, memoryview)) or hasattr(x, "__bytes__") or hasattr(x, "dtype"):
            return builtins.bytes(x, *a)
        x = list(x)
        return SymBytes(x) if any(isinstance(i, SymInt) for i in x) else builtins.bytes(x)

    def __or__(cls, o):
        return builtins.bytes | o

    def __ror__(cls, o):
        return o | builtins.bytes

    def __getattr__(cls, n):
        return getattr(builtins.bytes, n)


class Bytes(metaclass=_BytesMeta):
    """bytes(), except that unknown elements stay unknown."""


# ------------------------------------------------------------------ a group of known order


class Group:
    """Points are byte handles; as on the curve, opposite points share their first coordinate. Logarithms are kept in [0, N)."""

    def __init__(self, E):
        self.E, self.points, self.products, self.named = E, [], [], []

    def canon(self, x):
        """x in [0, N), named."""
        if type(x) is int or z3.is_const(x.e):
            return x
        for y, r in self.named:
            if z3.eq(y.e, x.e):
                return r
        r = self.E.int(f"log{len(self.named)}", 0, N - 1)
        self.E.assume(r.e == x.e)
        self.named.append((x, r))
        return r

    def add(self, a, b):
        if type(a) is int and type(b) is int:
            return (a + b) % N
        a, b = self.canon(a), self.canon(b)
        x = a + b
        return self.canon(self.E.ite(x >= N, x - N, x))

    def neg(self, a):
        if type(a) is int:
            return -a % N
        a = self.canon(a)
        return self.canon(self.E.ite(a == 0, 0, N - a))

    def mul(self, a, b):
        """a * b modulo N of two numbers in [0, N)."""
        if type(a) is int and type(b) is int:
            return a * b % N
        a, b = self.canon(a), self.canon(b)
        if type(a) is int or type(b) is int:
            c, x = (a, b) if type(a) is int else (b, a)
            if c > N // 2:
                return self.neg(self.mul(N - c, x))
            if c < 64:
                out = 0
                for bit in bin(c)[2:]:
                    out = self.add(out, out)
                    if bit == "1":
                        out = self.add(out, x)
                return out
            return c * x % N
        for x, y, p in self.products:
            if (same(x, a) and same(y, b)) or (same(x, b) and same(y, a)):
                return p
        p = self.E.int(f"prod{len(self.products)}", 0, N - 1)
        # N is prime
        self.E.assume((p.e == 0) == z3.Or(zt(a) == 0, zt(b) == 0))
        for x, y, q in self.products:
            eq = z3.Or(z3.And(zt(x) == zt(a), zt(y) == zt(b)), z3.And(zt(x) == zt(b), zt(y) == zt(a)))
            self.E.assume(z3.Implies(eq, p.e == q.e))
        self.products.append((a, b, p))
        return p

    def handle(self, log, compressed):
        for i, l in enumerate(self.points):
            if bool(l == log):
                odd = 0
                break
            if bool(l + log == N):
                odd = 1
                break
        else:
            i, odd = len(self.points), 0
            self.points.append(log)
        x = b"\x11" * 28 + i.to_bytes(4, "big")
        return bytes([2 + odd]) + x if compressed else b"\x04" + x + bytes([0x22 + odd]) * 32

    def log(self, data):
        data = bytes(data)
        if data == GEN:
            return 1
        i = int.from_bytes(data[29:33], "big")
        ok = data[1:29] == b"\x11" * 28 and i < len(self.points)
        if ok and len(data) == 33 and data[0] in (2, 3):
            odd = data[0] - 2
        elif ok and len(data) == 65 and data[0] == 4 and data[33:] in (b"\x22" * 32, b"\x23" * 32):
            odd = data[33] - 0x22
        else:
            raise ValueError("The public key could not be parsed or is invalid.")
        return self.neg(self.points[i]) if odd else self.points[i]


def zt(a):
    return sym.zint(a)


class Plain:
    """The same arithmetic on plain numbers."""

    @staticmethod
    def add(a, b):
        return (a + b) % N

    @staticmethod
    def neg(a):
        return -a % N

    @staticmethod
    def mul(a, b):
        return a * b % N


def same(a, b):
    return a is b or (type(a) is type(b) is int and a == b) or (isinstance(a, SymInt) and isinstance(b, SymInt) and z3.eq(a.e, b.e))


GEN = bytes.fromhex("0279BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")


def public_key(group):
    class PublicKey:
        def __init__(self, data=None, context=None, log=None):
            self.l = group.log(data) if log is None else log

        def format(self, compressed=True):
            if type(self.l) is int and self.l == 1 and compressed:
                return GEN
            return group.handle(self.l, compressed)

        def multiply(self, scalar, update=False):
            if isinstance(scalar, IntBytes):
                if len(scalar) != 32 or scalar.order != "big":
                    raise ValueError("scalar")
                s = scalar.value
            else:
                s = int.from_bytes(scalar, "big")
            if bool(s == 0) or not bool(s < N):
                raise ValueError("Secret scalar must be greater than 0 and less than the group order")
            out = group.mul(s, self.l)
            if bool(out == 0):
                raise ValueError("the point at infinity")
            if update:
                self.l = out
                return self
            return PublicKey(log=out)

        def combine(self, others, update=False):
            out = self.l
            for o in others:
                out = group.add(out, o.l)
            if bool(out == 0):
                raise ValueError("The sum of the public keys is not valid.")
            return PublicKey(log=out)

        @staticmethod
        def combine_keys(keys, context=None):
            return keys[0].combine(keys[1:])

        def __eq__(self, o):
            return bool(self.l == o.l)

    return PublicKey


# ------------------------------------------------------------------ key exchange, derivation, cipher


class Handles:
    def __init__(self):
        self.n, self.of = 0, {}

    def new(self, what, size):
        self.n += 1
        b = self.n.to_bytes(4, "big").rjust(size, b"\x5a")[-size:]
        self.of[b] = what
        return b

    def find(self, b, kind, err):
        w = self.of.get(bytes(b))
        if w is None or w[0] != kind:
            raise ValueError(err)
        return w


def exchange(h):
    """X25519 with opaque keys."""
    made = {}

    class Public:
        def __init__(self, b):
            self.b = b

        @classmethod
        def from_public_bytes(cls, b):
            if len(b) != 32:
                raise ValueError("An X25519 public key is 32 bytes long")
            return cls(bytes(b))

        def public_bytes(self, *a):
            return self.b

        public_bytes_raw = public_bytes

    class Private:
        def __init__(self, b):
            self.b = b

        @classmethod
        def generate(cls):
            sk = h.new(("sk",), 32)
            h.of[sk] = ("sk", h.new(("pk", sk), 32))
            return cls(sk)

        @classmethod
        def from_private_bytes(cls, b):
            if len(b) != 32:
                raise ValueError("An X25519 private key is 32 bytes long")
            return cls(bytes(b))

        def public_key(self):
            return Public(h.find(self.b, "sk", "not a private key")[1])

        def private_bytes(self, *a):
            return self.b

        private_bytes_raw = private_bytes

        def exchange(self, pk):
            # anything that is no public key acts as an unrelated one
            other = h.of.get(pk.b)
            other = other[1] if other and other[0] == "pk" else pk.b
            k = frozenset([self.b, other])
            if k not in made:
                made[k] = h.new(("shared", k), 32)
            return made[k]

    return Private, Public


def cipher(E, h):
    sealed = []

    class Tag(Exception):
        pass

    from cryptography.exceptions import InvalidTag

    class AESGCM:
        def __init__(self, key):
            if len(key) not in (16, 24, 32):
                raise ValueError("AESGCM key must be 128, 192, or 256 bits.")
            self.key = key

        def encrypt(self, nonce, data, aad):
            if not 8 <= len(nonce) <= 128:
                raise ValueError("Nonce must be between 8 and 128 bytes")
            for k, n, *_ in sealed:
                E.check(not (bool(k == self.key) and bool(n == nonce)), "no nonce is used twice under one key")
            k = len(sealed)
            ct = SymBytes([E.int(f"ct{k}_{i}", 0, 255) for i in range(len(data) + 16)])
            for _, _, o, _, _ in sealed:  # tags do not repeat
                E.assume(o[-16:] != ct[-16:])
            sealed.append((self.key, nonce, ct, data, aad))
            return ct

        def decrypt(self, nonce, data, aad):
            for k, n, c, m, a in sealed:
                if bool(k == self.key) and len(n) == len(nonce) and len(c) == len(data) and bool(n == nonce) and bool(c == data) and a == aad:
                    return m
            raise InvalidTag

    return AESGCM, sealed


@contextlib.contextmanager
def ideal(E):
    """The real library modules with ideal contents; only the source of fresh bytes is left alone when concrete."""
    if E.concrete:
        yield type("Plain", (), {"group": Plain()})
        return
    import coincurve
    import cryptography.hazmat.primitives.asymmetric.x25519 as X
    import cryptography.hazmat.primitives.ciphers.aead as A
    import cryptography.hazmat.primitives.kdf.hkdf as K
    import os

    import mplang.backends.crypto_impl as C

    g, h = Group(E), Handles()
    pk = public_key(g)
    priv, pub = exchange(h)
    aes, sealed = cipher(E, h)
    derived, drawn = {}, []

    class HKDF:
        def __init__(self, algorithm, length, salt, info, backend=None):
            self.a = (algorithm.name, length, salt, bytes(info))

        def derive(self, ikm):
            k = (*self.a, bytes(ikm))
            if k not in derived:
                derived[k] = h.new(("kdf", k), self.a[1])
            return derived[k]

    def urandom(n):
        # fresh bytes do not repeat (beyond a negligible chance)
        new = SymBytes([Byte(E.int(f"rnd{len(drawn)}_{i}", 0, 255).e) for i in range(n)])
        for o in drawn:
            m = min(len(o), n)
            if m >= 8:
                for i in range(0, m - 7):
                    E.assume(o[:8] != new[i : i + 8])
                    E.assume(o[i : i + 8] != new[:8])
        drawn.append(new)
        return new

    real_enc, real_dec = base64.b64encode, base64.b64decode
    swaps = [(coincurve, "PublicKey", pk), (X, "X25519PrivateKey", priv), (X, "X25519PublicKey", pub), (A, "AESGCM", aes), (K, "HKDF", HKDF), (os, "urandom", urandom),
             (base64, "b64encode", lambda b, *a, **k: Text64(b) if isinstance(b, SymBytes) else real_enc(b, *a, **k)),
             (base64, "b64decode", lambda t, *a, **k: t.raw if isinstance(t, Text64) else real_dec(t, *a, **k))]
    old = [(m, n, getattr(m, n)) for m, n, _ in swaps]
    names = [(n, old_v, new) for (m, n, new), (_, _, old_v) in zip(swaps, old) if m is not base64 and m is not os and m is not coincurve]
    globs = []
    for n, o, new in names:  # names imported at the top of the module
        if C.__dict__.get(n) is o:
            globs.append((n, o))
            C.__dict__[n] = new
    had = {n: C.__dict__.get(n) for n in ("int", "bytes")}
    SymInt.to_bytes = to_bytes
    C.__dict__["int"] = Int
    C.__dict__["bytes"] = Bytes
    try:
        for m, n, v in swaps:
            setattr(m, n, v)
        yield type("Ideal", (), {"group": g, "handles": h, "sealed": sealed})
    finally:
        for m, n, v in old:
            setattr(m, n, v)
        for n, o in globs:
            C.__dict__[n] = o
        for n, o in had.items():
            C.__dict__.pop(n) if o is None else C.__dict__.__setitem__(n, o)
        del SymInt.to_bytes
