"""Words whose bits are polynomials over GF(2) in named boolean unknowns (algebraic normal form).

The normal form is canonical, so two words are equal for all values of the unknowns iff their bits are the same sets of
monomials; when they are not, `differ` turns the difference into a formula for the solver, which finds the values that
expose it.  A function that is only known to be a function (hash, cipher) yields new unknowns per distinct argument;
unknowns declared as `choice` bits are case-split inside its arguments, so that f(s ? a : b) = s ? f(a) : f(b).
"""

from __future__ import annotations

import z3

ONE_M = ()
ZERO = frozenset()
ONE = frozenset([ONE_M])


class Unencodable(Exception):
    pass


class Pool:
    """The unknowns of one run."""

    def __init__(self, E):
        self.E = E
        self.z = []          # z3 Bool of each unknown
        self.kind = []       # "input" | "choice" | "random" | "hash"
        self.label = []
        self.memo = {}
        self.own = {}        # what made the unknown: used by privacy checks

    def bit(self, z, kind, label):
        self.z.append(z)
        self.kind.append(kind)
        self.label.append(label)
        return frozenset([(len(self.z) - 1,)])

    def word(self, name, width, kind="input", E=None):
        """An input word: a bit-vector of the engine (so that the model names its value)."""
        v = (E or self.E).bv(name, width)
        if not isinstance(v, z3.ExprRef):
            v = getattr(v, "e", v)
        if isinstance(v, int):
            return v
        return W([self.bit(z3.Extract(i, i, v) == 1, kind, (name, i)) for i in range(width)])

    def fresh(self, label, width, kind="random"):
        return W([self.bit(z3.Bool(f"{label}#{len(self.z) + i}") if False else z3.Bool(f"u{len(self.z)}"), kind, (label, i)) for i in range(width)])

    # ---- opaque functions
    def apply(self, fn, args, width, n, split=None):
        """n words of `width` bits: fn(args) for words `args` (W or int), case-split over its choice bits."""
        split = self.splits(args) if split is None else split
        if split:
            v = split[0]
            a0 = self.apply(fn, [cof(a, v, 0) for a in args], width, n, split[1:])
            a1 = self.apply(fn, [cof(a, v, 1) for a in args], width, n, split[1:])
            s = frozenset([(v,)])
            return [mux(s, x1, x0) for x0, x1 in zip(a0, a1)]
        key = (fn, tuple(a.key() if isinstance(a, W) else a for a in args))
        got = self.memo.get(key)
        if got is None:
            got = self.memo[key] = []
        while len(got) < n:
            got.append(self.fresh((fn, len(self.memo), len(got)), width, "hash"))
        return got[:n]

    def splits(self, args, most=3):
        vs = sorted({v for a in args if isinstance(a, W) for b in a.b for m in b for v in m if self.kind[v] == "choice"})
        strong = [v for v in vs if self.label[v][0] in self.strong]
        rest = [v for v in vs if v not in strong]
        return strong + (rest if len(rest) <= most else [])

    strong = frozenset()  # names of choice words that are always split

    def expr(self, bit):
        out = []
        for m in bit:
            out.append(z3.And([self.z[v] for v in m]) if m else z3.BoolVal(True))
        if not out:
            return z3.BoolVal(False)
        e = out[0]
        for o in out[1:]:
            e = z3.Xor(e, o)
        return e

    def differ(self, a, b):
        """Formula: the two words (or ints) differ; None when they are identical."""
        w = a.w if isinstance(a, W) else b.w if isinstance(b, W) else None
        if w is None:
            return None if int(a) == int(b) else z3.BoolVal(True)
        d = sorted((x for x in (i ^ j for i, j in zip(as_bits(a, w), as_bits(b, w))) if x), key=len)
        if not d:
            return None
        return z3.Or([self.expr(x) for x in d[:4] if len(x) < 500] or [self.expr(d[0])])


def xor(a, b):
    return a ^ b


def conj(a, b):
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    out = {}
    for m in a:
        for k in b:
            p = tuple(sorted({*m, *k})) if m and k else m or k
            if p in out:
                del out[p]
            else:
                out[p] = 1
    return frozenset(out)


def cofactor(bit, v, val):
    if not any(v in m for m in bit):
        return bit
    out = set()
    for m in bit:
        if v in m:
            if not val:
                continue
            m = tuple(x for x in m if x != v)
        out ^= {m}
    return frozenset(out)


def cof(a, v, val):
    return W([cofactor(b, v, val) for b in a.b]) if isinstance(a, W) else a


def as_bits(x, w):
    if isinstance(x, W):
        return x.b[:w] + [ZERO] * (w - len(x.b))
    x = int(x)
    return [ONE if x >> i & 1 else ZERO for i in range(w)]


def mux(s, a, b):
    """s ? a : b for a bit polynomial s."""
    if s == ONE:
        return a
    if s == ZERO:
        return b
    w = max(x.w if isinstance(x, W) else int(x).bit_length() for x in (a, b)) or 1
    return W([y ^ conj(s, x ^ y) if x != y else x for x, y in zip(as_bits(a, w), as_bits(b, w))]).small()


class W:
    """A word of len(b) bits, least significant first."""

    __slots__ = ("b", "_k")

    def __init__(self, b):
        self.b = list(b)
        self._k = None

    @property
    def w(self):
        return len(self.b)

    def key(self):
        if self._k is None:
            k = self.small()
            self._k = k if isinstance(k, int) else ("w", tuple(frozenset(b) for b in _trim(self.b)))
        return self._k

    def small(self):
        """An int when no unknown is left."""
        v = 0
        for i, b in enumerate(self.b):
            if b == ONE:
                v |= 1 << i
            elif b:
                return self
        return v

    def __repr__(self):
        return f"W{self.w}<{sum(map(len, self.b))} monomials>"

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, (int, W)):
            return self.key() == (o.key() if isinstance(o, W) else int(o))
        return NotImplemented

    def __bool__(self):
        raise Unencodable("the value of a symbolic word is needed to continue")

    __int__ = __index__ = __float__ = __bool__


def _trim(b):
    n = len(b)
    while n and not b[n - 1]:
        n -= 1
    return b[:n]


def wxor(a, b, w):
    return W([x ^ y for x, y in zip(as_bits(a, w), as_bits(b, w))]).small()


def wand(a, b, w):
    return W([conj(x, y) for x, y in zip(as_bits(a, w), as_bits(b, w))]).small()


def wor(a, b, w):
    return W([x ^ y ^ conj(x, y) for x, y in zip(as_bits(a, w), as_bits(b, w))]).small()


def wnot(a, w):
    return wxor(a, (1 << w) - 1, w)


def wshl(a, n, w):
    return W([ZERO] * min(n, w) + as_bits(a, w)[: max(w - n, 0)]).small()


def wshr(a, n, w):
    return W(as_bits(a, w)[n:] + [ZERO] * min(n, w)).small()


def weq(a, b, w):
    """Bit polynomial: equal."""
    r = ONE
    for x, y in zip(as_bits(a, w), as_bits(b, w)):
        r = conj(r, x ^ y ^ ONE)
        if not r:
            return ZERO
        if len(r) > 4096:
            raise Unencodable("comparison of wide symbolic words")
    return r


def wadd(a, b, w):
    c, out = ZERO, []
    for x, y in zip(as_bits(a, w), as_bits(b, w)):
        out.append(x ^ y ^ c)
        c = conj(x, y) ^ conj(c, x ^ y)
        if len(c) > 4096:
            raise Unencodable("addition of wide symbolic words")
    return W(out).small()


def wmul(a, b, w):
    """Product when one factor has few unknown bits (selection by a 0/1 mask, small constants)."""
    if isinstance(a, W) and isinstance(b, W) and sum(map(bool, a.b)) > sum(map(bool, b.b)):
        a, b = b, a
    if not isinstance(a, W) and isinstance(b, W):
        pass
    elif isinstance(a, W) and not isinstance(b, W):
        a, b = b, a
    bits = as_bits(a, w)
    if sum(map(bool, bits)) > 8:
        raise Unencodable("product of wide symbolic words")
    acc = 0
    for i, x in enumerate(bits):
        if x:
            acc = wadd(acc, wshl(W([conj(x, y) for y in as_bits(b, w)]), i, w), w) if isinstance(acc, W) or acc else wshl(W([conj(x, y) for y in as_bits(b, w)]), i, w)
    return acc


# ---------------------------------------------------------------- GF(2^128)

POLY = 0x87


def gf_mul(a, b, n=128):
    """Schoolbook product of two field elements given as lists of bit polynomials: the definition."""
    prod = [set() for _ in range(2 * n - 1)]
    for i, x in enumerate(a):
        if not x:
            continue
        for j, y in enumerate(b):
            if y:
                prod[i + j] ^= conj(x, y)
    for i in range(2 * n - 2, n - 1, -1):
        if prod[i]:
            for k in range(8):
                if POLY >> k & 1:
                    prod[i - n + k] ^= prod[i]
    return [frozenset(p) for p in prod[:n]]
