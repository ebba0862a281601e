"""Replay-based symbolic execution of real Python code with z3.

A *harness* is an ordinary Python function ``h(E)``.  It asks ``E`` for inputs
(``E.int``, ``E.bool``, ``E.bv``, ``E.choose`` ...), calls the real
implementation with them and states the property with ``E.check``.

Two engines implement ``E``:

``Symbolic``  - inputs are z3 terms (wrapped so that ordinary Python operators
    work).  When the implementation branches on one, the solver decides which
    outcomes are feasible under the path condition; the harness is re-run once
    per feasible path.  ``E.check(c)`` is discharged by asking the solver for
    ``path /\\ not c``: unsat means it holds for every input on that path.

``Concrete``  - inputs come from a solver model.  The same harness then runs on
    plain Python values.  It is used (a) to replay every counterexample on the
    unmodified code before anything is reported, and (b) to validate the
    encoding: a sample of the explored paths is concretised and re-executed.
"""

from __future__ import annotations

import time
from fractions import Fraction
from typing import Any, Callable

from . import boot  # noqa: F401
import z3


class PathEnd(BaseException):
    """Abandon this path (assumption infeasible / budget)."""


class Inconclusive(Exception):
    """The solver did not decide, or a bound was hit: an error of the check."""


class Counterexample(BaseException):
    def __init__(self, label: str, message: str, model: dict[str, Any]):
        super().__init__(f"{label}: {message}")
        self.label, self.message, self.model = label, message, model


class CheckFailed(BaseException):
    """Raised by the Concrete engine when a check fails on plain values."""

    def __init__(self, label, message):
        super().__init__(f"{label}: {message}")
        self.label, self.message = label, message


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.checks = 0
        self.unsat = 0
        self.replays = 0
        self.functions: set[str] = set()
        self.bounds: list[str] = []
        self.samples: list[Any] = []
        self.labels: dict[str, int] = {}
        self.units: list[dict[str, Any]] = []
        self.assumptions: list[str] = []
        self.extra: dict[str, Any] = {}
        self.expect: list[dict[str, Any]] = []
        self.unencodable: list[str] = []


STATS = Stats()
_CUR: list[Any] = []


def cur():
    return _CUR[-1]


QUERY_TIMEOUT_MS = 120_000
SHARD = (0, 1)  # (index, count): which part of every exploration tree is ours
SHARD_DEPTH = 5


def _mine(trail):
    if SHARD_DEPTH == 1:
        return (trail[0] if trail else 0) % SHARD[1] == SHARD[0]
    h = 0
    for x in trail[:SHARD_DEPTH]:
        h = (h * 1000003 + x * 7919 + 12345) & 0xFFFFFFFF
    h ^= h >> 15
    return (h * 2654435761 >> 8) % SHARD[1] == SHARD[0]


# --------------------------------------------------------------------------
# wrapped values
# --------------------------------------------------------------------------


def is_sym(x) -> bool:
    return isinstance(x, (z3.ExprRef, SymBool, SymInt))


def _simp(e):
    return z3.simplify(e)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return mkbool(self.e == zbool(o))

    def __ne__(self, o):
        return mkbool(self.e != zbool(o))

    def __hash__(self):
        return self.e.hash()

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __repr__(self):
        return f"SymBool({self.e})"


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = _simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def mkint(e):
    e = _simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


_POISON = 10**40


_PICKLED: list = []  # symbolic values written by pickle in this process


def _unpickled(i):
    return _PICKLED[i]


class SymInt(int):
    """A symbolic Python int (mathematical integer).

    It subclasses int so that ``isinstance(x, int)`` in the code under test
    behaves as for a real int.  The underlying C value is a huge poison value:
    C code that reads it directly (``range``, list indexing) fails loudly
    instead of silently using a wrong number.
    """

    e: Any

    def __new__(cls, e):
        o = int.__new__(cls, _POISON)
        o.e = e
        return o

    # arithmetic
    def __add__(self, o):
        return mkint(self.e + zint(o)) if isinstance(o, int) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self.e - zint(o)) if isinstance(o, int) else NotImplemented

    def __rsub__(self, o):
        return mkint(zint(o) - self.e) if isinstance(o, int) else NotImplemented

    def __mul__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self.e * zint(o))

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _fdm(a, b):
        a, b = zint(a), zint(b)
        if cur().branch(b == 0):
            raise ZeroDivisionError
        # z3 div is euclidean; Python floors.
        q, r = a / b, a % b  # r >= 0
        if z3.is_int_value(b) and b.as_long() > 0:
            return q, r
        fix = z3.And(b < 0, r != 0)
        return z3.If(fix, q - 1, q), z3.If(fix, r + b, r)

    def __floordiv__(self, o):
        return mkint(SymInt._fdm(self, o)[0])

    def __rfloordiv__(self, o):
        return mkint(SymInt._fdm(o, self)[0])

    def __mod__(self, o):
        return mkint(SymInt._fdm(self, o)[1])

    def __rmod__(self, o):
        return mkint(SymInt._fdm(o, self)[1])

    def __divmod__(self, o):
        q, r = SymInt._fdm(self, o)
        return mkint(q), mkint(r)

    def __rdivmod__(self, o):
        q, r = SymInt._fdm(o, self)
        return mkint(q), mkint(r)

    def __pow__(self, n, m=None):
        if m is None and not isinstance(n, SymInt) and 0 <= n <= 8:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        raise Inconclusive("symbolic power")

    def __truediv__(self, o):
        raise Inconclusive("true division of a symbolic int")

    __rtruediv__ = __truediv__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            raise Inconclusive("symbolic shift amount")
        return mkint(self.e * (1 << o))

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            raise Inconclusive("symbolic shift amount")
        return mkint(self.e / (1 << o))

    def __rlshift__(self, o):
        return int.__lshift__(o, cur().concretize(self))

    def __rrshift__(self, o):
        return int.__rshift__(o, cur().concretize(self))

    def __and__(self, o):
        if not isinstance(o, SymInt) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return cur().concretize(self) & (cur().concretize(o) if isinstance(o, SymInt) else o)

    __rand__ = __and__

    def __or__(self, o):
        return cur().concretize(self) | (cur().concretize(o) if isinstance(o, SymInt) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return cur().concretize(self) ^ (cur().concretize(o) if isinstance(o, SymInt) else o)

    __rxor__ = __xor__

    # comparison
    def __eq__(self, o):
        return mkbool(self.e == zint(o)) if isinstance(o, int) else False

    def __ne__(self, o):
        return mkbool(self.e != zint(o)) if isinstance(o, int) else True

    def __lt__(self, o):
        return mkbool(self.e < zint(o)) if isinstance(o, int) else NotImplemented

    def __le__(self, o):
        return mkbool(self.e <= zint(o)) if isinstance(o, int) else NotImplemented

    def __gt__(self, o):
        return mkbool(self.e > zint(o)) if isinstance(o, int) else NotImplemented

    def __ge__(self, o):
        return mkbool(self.e >= zint(o)) if isinstance(o, int) else NotImplemented

    def __bool__(self):
        return bool(mkbool(self.e != 0))

    def __hash__(self):
        # hashing commits to a value: fork over the feasible ones
        return hash(cur().concretize(self))

    def __index__(self):
        return cur().concretize(self)

    __int__ = __index__

    def __trunc__(self):
        return self

    def bit_length(self):
        return cur().concretize(self).bit_length()

    def __repr__(self):
        return f"SymInt({self.e})"

    def __str__(self):
        return str(cur().concretize(self))

    def __format__(self, spec):
        return format(cur().concretize(self), spec)

    def __reduce__(self):
        _PICKLED.append(self)
        return (_unpickled, (len(_PICKLED) - 1,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def py(e):
    """z3 value -> Python value."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_string_value(e):
        return e.as_string()
    raise Inconclusive(f"no Python value for {e}")


# --------------------------------------------------------------------------
# engines
# --------------------------------------------------------------------------


class Engine:
    concrete = False

    def __init__(self):
        self.inputs: dict[str, Any] = {}
        self.notes: list[str] = []

    # convenience shared by both engines
    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def bools(self, name, n):
        return [self.bool(f"{name}{i}") for i in range(n)]

    def bvs(self, name, n, w):
        return [self.bv(f"{name}{i}", w) for i in range(n)]

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, len(seq))]

    def eq(self, label, got, want, message=""):
        """Structural equality of (possibly nested) results."""
        c = deep_eq(got, want)
        self.check(c, label, message or f"got {short(got)}, want {short(want)}")


def short(x, n=300):
    try:
        s = repr(x)
    except BaseException as e:  # noqa: BLE001
        s = f"<unprintable {type(e).__name__}>"
    return s if len(s) <= n else s[: n - 3] + "..."


def deep_eq(a, b):
    """a == b as True / False / SymBool, over lists, tuples, dicts, z3 terms."""
    import numpy as np

    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        a2, b2 = lift_like(a, b), lift_like(b, a)
        if a2 is None or b2 is None:
            return False
        if a2.sort() != b2.sort():
            return False
        return SymBool(a2 == b2)  # not simplified: the solver decides
    if isinstance(a, (SymBool, SymInt)) or isinstance(b, (SymBool, SymInt)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return mkbool(zbool(a) == zbool(b))
        if not isinstance(a, int) or not isinstance(b, int):
            return False
        return a == b if isinstance(a, SymInt) else b == a
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype != object and b.dtype != object:
            return bool((a == b).all())
        return deep_eq(list(a.reshape(-1)), list(b.reshape(-1)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(zbool(r))
        return SymBool(z3.And(*acc)) if acc else True
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        return deep_eq([a[k] for k in a], [b[k] for k in a])
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)


def lift_like(x, like):
    """Make x a z3 term, using `like`'s sort for plain Python numbers."""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (SymBool, SymInt)):
        return x.e
    if not isinstance(like, z3.ExprRef):
        return None
    s = like.sort()
    if isinstance(s, z3.BitVecSortRef):
        return z3.BitVecVal(int(x), s.size())
    if s == z3.IntSort():
        return z3.IntVal(int(x))
    if s == z3.BoolSort():
        return z3.BoolVal(bool(x))
    if s == z3.RealSort():
        return z3.RealVal(x)
    return None


class Symbolic(Engine):
    def __init__(self, prefix, unit):
        super().__init__()
        self.prefix = prefix
        self.trail: list[int] = []
        self.pending: list[list[int]] = []
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_TIMEOUT_MS)
        self.unit = unit
        self.vars: dict[str, Any] = {}
        self.path: list[Any] = []

    # ---- inputs -------------------------------------------------------
    def _new(self, name, sort_fn):
        if name in self.vars:
            raise RuntimeError(f"harness declares input {name!r} twice")
        v = sort_fn(name)
        self.vars[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        v = self._new(name, z3.Int)
        if lo is not None:
            self._add(v >= zint(lo))
        if hi is not None:
            self._add(v <= zint(hi))
        return SymInt(v)

    def bool(self, name):
        return SymBool(self._new(name, z3.Bool))

    def bv(self, name, w):
        return self._new(name, lambda n: z3.BitVec(n, w))

    def real(self, name):
        return self._new(name, z3.Real)

    def term(self, name, sort):
        return self._new(name, lambda n: z3.Const(n, sort))

    def choose(self, name, n):
        """A symbolic choice in range(n); returns a concrete int per path."""
        if n <= 0:
            raise PathEnd
        if n == 1:
            self.vars.setdefault(name, z3.IntVal(0))
            return 0
        v = self._new(name, z3.Int)
        # v is fresh and unconstrained, so every outcome is feasible
        return self._fork([v == k for k in range(n)], fresh=True)

    # ---- path control --------------------------------------------------
    def _add(self, c):
        self.path.append(c)
        self.solver.add(c)

    def _query(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver: {self.solver.reason_unknown()} in {self.unit}")
        return r == z3.sat

    def _fork(self, conds, fresh=False):
        """Take one of mutually exclusive, exhaustive conditions."""
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            feas = []
            for j, c in enumerate(conds):
                if fresh or self._query(c):
                    feas.append(j)
            STATS.branches += 1
            if not feas:
                raise PathEnd
            k = feas[0]
            for j in feas[1:]:
                self.pending.append([*self.trail, j])
        self.trail.append(k)
        self._add(conds[k])
        self._shard()
        return k

    def _shard(self):
        """Keep only this process's share of the exploration tree."""
        if SHARD[1] > 1 and len(self.trail) == SHARD_DEPTH and _mine(self.trail) is False:
            raise PathEnd

    def branch(self, e) -> bool:
        e = z3.simplify(zbool(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._fork([e, z3.Not(e)]) == 0

    def concretize(self, v, limit=64):
        """Fork over every feasible value of a symbolic int (at most `limit`)."""
        if not isinstance(v, SymInt):
            return v
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trail.append(k)
            self._add(e == k)
            self._shard()
            return k
        vals = []
        self.solver.push()
        while self._query():
            k = self.solver.model().eval(e, model_completion=True).as_long()
            vals.append(k)
            if len(vals) > limit:
                self.solver.pop()
                raise Inconclusive(f"more than {limit} values for {e} in {self.unit}")
            self.solver.add(e != k)
        self.solver.pop()
        STATS.branches += 1
        if not vals:
            raise PathEnd
        vals.sort()
        for k in vals[1:]:
            self.pending.append([*self.trail, k])
        self.trail.append(vals[0])
        self._add(e == vals[0])
        self._shard()
        return vals[0]

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd
            return
        e = zbool(c)
        self._add(e)
        if not self._query():
            raise PathEnd

    def check(self, c, label, message=""):
        STATS.checks += 1
        STATS.labels[label] = STATS.labels.get(label, 0) + 1
        if isinstance(c, (SymBool, z3.BoolRef)):
            neg = z3.Not(zbool(c))
            if not self._query(neg):
                STATS.unsat += 1
                return
            m = self.solver.model()
            if f"{self.unit}/{label}" in HITS:  # a recorded finding, already reproduced: look at what lies beyond it
                self._add(zbool(c))
                if not self._query():
                    raise PathEnd
                return
        else:
            if c is True or (c is not False and bool(c)):
                # path-concrete fact; still needs the path to be feasible,
                # which every fork has established
                STATS.unsat += 1
                return
            if not self._query() or f"{self.unit}/{label}" in HITS:
                raise PathEnd
            m = self.solver.model()
        raise Counterexample(label, message, self.model_values(m))

    def fail(self, label, message=""):
        self.check(False, label, message)

    def cover(self, label):
        STATS.labels[label] = STATS.labels.get(label, 0) + 1

    def model_values(self, m):
        out = {}
        for n, v in self.vars.items():
            out[n] = py(m.eval(v, model_completion=True)) if v.sort().kind() != z3.Z3_UNINTERPRETED_SORT else str(
                m.eval(v, model_completion=True)
            )
        return out

    def some_model(self):
        if not self._query():
            return None
        return self.model_values(self.solver.model())

    # helpers that behave the same on plain values
    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)) and not isinstance(a, z3.ExprRef):
                return mkint(z3.If(c.e, zint(a), zint(b)))
            return z3.If(c.e, lift_like(a, b), lift_like(b, a))
        return a if c else b

    def uf(self, name, *args):
        """Uninterpreted function application (free term when concrete)."""
        zs = [term_of(a) for a in args]
        f = z3.Function(name, *[z.sort() for z in zs], TERM)
        return f(*zs)


class Concrete(Engine):
    concrete = True

    def __init__(self, values, unit=""):
        super().__init__()
        self.values = values
        self.unit = unit
        self.reached: set[str] = set()

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo=None, hi=None):
        v = self._get(name, lo if lo is not None else (hi if hi is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathEnd
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def bv(self, name, w):
        return int(self._get(name, 0)) & ((1 << w) - 1)

    def real(self, name):
        return self._get(name, Fraction(0))

    def term(self, name, sort):
        return ("var", name)

    def choose(self, name, n):
        if n <= 0:
            raise PathEnd
        return int(self._get(name, 0)) % n

    def branch(self, e):
        raise RuntimeError(f"symbolic value in a concrete replay: {e}")

    def concretize(self, v, limit=0):
        return v

    def assume(self, c):
        if not c:
            raise PathEnd

    def check(self, c, label, message=""):
        self.reached.add(label)
        if not bool(c):
            raise CheckFailed(label, message)

    def fail(self, label, message=""):
        raise CheckFailed(label, message)

    def cover(self, label):
        self.reached.add(label)

    def ite(self, c, a, b):
        return a if c else b

    def uf(self, name, *args):
        return Atom((name, *args))


class Atom(tuple):
    """A free term in a concrete replay (not a container)."""

    __slots__ = ()


TERM = z3.DeclareSort("Term")


def term_of(a):
    if isinstance(a, (SymInt, SymBool)):
        return a.e
    if isinstance(a, z3.ExprRef):
        return a
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    if a is None:
        return z3.Const("none", TERM)
    if isinstance(a, str):
        return z3.Const(f"str:{a}", TERM)
    raise TypeError(f"no term for {a!r}")


# --------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------


KNOWN: set[str] = set()  # "unit/label" of the recorded findings of this property
HITS: set[str] = set()  # those reproduced so far


class Violation(Exception):
    def __init__(self, unit, label, message, model, replayed):
        super().__init__(f"{unit}: {label}: {message}")
        self.unit, self.label, self.message = unit, label, message
        self.model, self.replayed = model, replayed


def explore(
    harness: Callable[[Any], None],
    *,
    unit: str,
    max_paths: int = 20000,
    max_seconds: float = 600.0,
    validate: int = 3,
    expect: tuple[str, ...] = (),
    functions: tuple[str, ...] = (),
    bounds: str = "",
    allow_exc: tuple[type, ...] = (),
    replay: Callable[[dict], None] | None = None,
    collect: bool = False,
    split: int = 5,
) -> list[Violation]:
    """Explore every path of `harness`; raise Violation on a real one.

    expect: labels that must have been reached at least once (vacuity guard).
    validate: how many explored paths are concretised and re-executed.
    """
    global SHARD_DEPTH
    SHARD_DEPTH = split  # how many choices deep the exploration is dealt out to the processes
    t0 = time.time()
    work: list[list[int]] = [[]]
    seen_labels: set[str] = set()
    found: list[Violation] = []
    paths = 0
    unenc = 0
    q0, s0, c0 = STATS.queries, STATS.solver_s, STATS.checks
    samples = []
    while work:
        prefix = work.pop()
        if paths >= max_paths:
            raise Inconclusive(f"{unit}: more than {max_paths} paths")
        if time.time() - t0 > max_seconds:
            raise Inconclusive(f"{unit}: exploration exceeded {max_seconds}s ({paths} paths)")
        eng = Symbolic(prefix, unit)
        _CUR.append(eng)
        before = dict(STATS.labels)
        ended = True
        try:
            try:
                harness(eng)
            except PathEnd:
                ended = False
            except Counterexample as cex:
                v = _confirm(harness, unit, cex.label, cex.message, cex.model, replay)
                key = f"{unit}/{cex.label}"
                if key in KNOWN and key not in HITS:
                    HITS.add(key)
                    work.append(prefix)
                    continue
                if not collect:
                    raise v from None
                found.append(v)
                ended = False
            except (Inconclusive, KeyboardInterrupt, MemoryError):
                raise
            except Exception as exc:  # noqa: BLE001
                # an exception escaping from the code under test
                if not eng._query():
                    ended = False
                else:
                    import traceback

                    tb = traceback.format_exc(limit=-6)
                    model = eng.model_values(eng.solver.model())
                    r = replay(model) if replay is not None else run_concrete(harness, model, unit)
                    if r is None:
                        # the symbolic values do not survive this path (e.g. a C
                        # function that needs plain numbers): not encodable
                        STATS.unencodable.append(f"{unit}: {type(exc).__name__}: {exc}\n{tb}"[:1500])
                        STATS.replays += 1
                        unenc += 1
                        ended = False
                    else:
                        STATS.replays += 1
                        msg = f"{type(exc).__name__}: {exc}\n{tb} || replayed on real code: {r}"
                        v = Violation(unit, "exception", msg, model, r)
                        if not collect:
                            raise v from None
                        found.append(v)
                        ended = False
        finally:
            _CUR.pop()
        work.extend(eng.pending)
        if ended and SHARD[1] > 1 and len(eng.trail) < SHARD_DEPTH and not _mine(eng.trail):
            ended = False
        if ended:
            paths += 1
            STATS.paths += 1
            for k, n in STATS.labels.items():
                if n != before.get(k, 0):
                    seen_labels.add(k)
            if len(samples) < validate:
                m = None
                _CUR.append(eng)
                try:
                    m = eng.some_model()
                finally:
                    _CUR.pop()
                if m is not None:
                    samples.append(m)
    # encoding validation: the same harness on plain values must agree
    for m in samples:
        r = run_concrete(harness, m, unit)
        if r is not None:
            raise Inconclusive(f"{unit}: symbolic run verified but concrete run disagrees: {r} on {short(m)}")
        STATS.replays += 1
    STATS.expect.append({"unit": unit, "expect": list(expect), "seen": sorted(seen_labels), "paths": paths, "found": len(found)})
    STATS.functions.update(functions)
    if bounds:
        STATS.bounds.append(f"{unit}: {bounds}")
    STATS.units.append({
        "unit": unit,
        "paths": paths,
        "queries": STATS.queries - q0,
        "assertions": STATS.checks - c0,
        "solver_s": round(STATS.solver_s - s0, 3),
        "wall_s": round(time.time() - t0, 3),
        "validated_on_real_code": len(samples),
        "unencodable_paths": unenc,
    })
    if samples and len(STATS.samples) < 12:
        STATS.samples.append({"unit": unit, "path_model": jsonable(samples[0])})
    return found


def run_concrete(harness, values, unit):
    """None if all checks hold on plain values, else a description."""
    eng = Concrete(values, unit)
    _CUR.append(eng)
    try:
        harness(eng)
    except PathEnd:
        return None
    except CheckFailed as f:
        return f"{f.label}: {f.message}"
    except (Inconclusive, KeyboardInterrupt, MemoryError):
        raise
    except Exception as exc:  # noqa: BLE001
        return f"exception: {type(exc).__name__}: {exc}"
    finally:
        _CUR.pop()
    return None


def _confirm(harness, unit, label, message, model, replay):
    if replay is not None:
        r = replay(model)
    else:
        r = run_concrete(harness, model, unit)
    if r is None:
        raise Inconclusive(
            f"{unit}: counterexample for {label} does not reproduce on the real code: {message} model={short(model, 1500)}"
        )
    STATS.replays += 1
    return Violation(unit, label, f"{message} || replayed on real code: {r}", model, r)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, int):
        return x if abs(x) < 2**53 else str(x)
    if isinstance(x, float):
        return x
    return str(x)
