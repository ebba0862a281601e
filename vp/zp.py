"""Integer polynomials over named unknowns, with Python operators: the element values of linear protocols.

Equality questions are decided by the engine over integer unknowns (declared lazily, so that a vector of thousands of
unknown slots costs nothing until a question about some of them is asked)."""

from __future__ import annotations

from .anf import Unencodable


def norm(d, m):
    if not m:
        return {k: c for k, c in d.items() if c}
    out = {}
    for k, c in d.items():
        c %= m
        if c:
            out[k] = c if c <= m // 2 else c - m
    return out


class Zp:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(x):
        if isinstance(x, Zp):
            return x
        if isinstance(x, (float, complex)) and x != int(x.real):
            raise Unencodable("fraction in an integer polynomial")
        x = int(x)
        return Zp({(): x} if x else {})

    def _lin(self, o, k):
        o = Zp.of(o).d
        if not o:
            return self
        r = dict(self.d)
        for m, c in o.items():
            c = r.get(m, 0) + k * c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return Zp(r)

    def __add__(self, o):
        return self._lin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Zp({m: -c for m, c in self.d.items()})

    def __mul__(self, o):
        o = Zp.of(o).d
        r = {}
        for m, c in self.d.items():
            for n, e in o.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                v = r.get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Zp(r)

    __rmul__ = __mul__

    def is_const(self):
        return all(m == () for m in self.d)

    def const(self):
        return self.d.get((), 0)

    def __bool__(self):
        if self.is_const():
            return bool(self.const())
        return bool(self != 0)

    def _cmp(self, o, op):
        diff = self - o
        if diff.is_const():
            c = diff.const()
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        from .sym import cur, mkbool

        e = Unknowns.of(cur()).expr(diff)
        return mkbool({"==": e == 0, "!=": e != 0, "<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0}[op])

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __index__(self):
        if self.is_const():
            return int(self.const())
        raise Unencodable("concrete value of a symbolic polynomial")

    __int__ = __index__

    def convert(self, a, b):
        if b.float or b.bool:
            raise Unencodable("symbolic polynomial to float or bool")
        return self

    def key(self):
        return ("zp", frozenset(self.d.items()))

    def nonlinear(self):
        return []

    def cof(self, v, val):
        return self

    def select(self, c, a, b):
        return a if bool(c) else b

    def __repr__(self):
        return "+".join(f"{c}*{'*'.join(map(str, m))}" for m, c in list(self.d.items())[:4]) + ("..." if len(self.d) > 4 else "")


class Unknowns:
    """The engine inputs behind polynomial variables, declared on first use."""

    @staticmethod
    def of(E):
        u = getattr(E, "_zp", None)
        if u is None:
            u = E._zp = Unknowns(E)
        return u

    def __init__(self, E, lo=None, hi=None):
        self.E, self.vars, self.lo, self.hi = E, {}, lo, hi
        self.range = {}

    def var(self, name, lo=None, hi=None):
        """A polynomial variable (concretely: the model's number, or a name-dependent default)."""
        self.range[name] = (lo, hi)
        if self.E.concrete:
            return self.number(name)
        return Zp({(name,): 1})

    def number(self, name):
        lo, hi = self.range[name]
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            self.E.values.setdefault(name, 0)  # unknowns no question was asked about are zero
        return int(self.E.int(name, lo, hi))

    def z3(self, name):
        if name not in self.vars:
            lo, hi = self.range.get(name, (None, None))
            v = self.E.int(name, lo, hi)
            self.vars[name] = v
        return self.vars[name]

    def expr(self, p):
        import z3

        from .sym import zint

        acc = z3.IntVal(p.d.get((), 0))
        for m, c in p.d.items():
            if m == ():
                continue
            t = z3.IntVal(c)
            for v in m:
                t = t * zint(self.z3(v))
            acc = acc + t
        return acc

    def same(self, got, want, label, modulus=0, most=24):
        """Assert equality for every value of the unknowns."""
        E = self.E
        if E.concrete:
            d = int(got) - int(want)
            E.check((d % modulus if modulus else d) == 0, label, f"got {int(got)}, expected {int(want)}")
            return
        diff = Zp(norm((Zp.of(got) - want).d, modulus))
        if not diff.d:
            E.check(True, label)
            return
        import z3

        # a counterexample needs few of the differing unknowns: the others are zero
        terms = sorted(diff.d.items(), key=lambda t: (len(t[0]), str(t[0])))
        cut = Zp(dict(terms[:most]))
        e = self.expr(cut)
        E.check(mk(e == 0) if not modulus else mk(e % modulus == 0), label, f"differs by {diff!r}")


def mk(e):
    from .sym import mkbool

    return mkbool(e)
