"""The Python fallback kernels over symbolic words: the module's source is re-executed with `int` and `numpy` shadowed, and
`if` statements on data that only assign local names become selections (both branches run, the results are merged)."""

from __future__ import annotations

import ast
import contextlib
import inspect

import numpy as np

from . import anf
from .anf import W, as_bits
from .llvm import Opaque, Unsupported
from .sym import SymBool, SymInt


class GW(W):
    """An unbounded non-negative integer of unknown bits."""

    fixed = None  # width of a machine word, None for Python integers

    def mk(self, v):
        if not isinstance(v, W):
            return v if self.fixed is None else v & ((1 << self.fixed) - 1)
        b = v.b if self.fixed is None else as_bits(v, self.fixed)
        return type(self)(b).tidy()

    def tidy(self):
        s = self.small()
        return s if isinstance(s, int) else self

    def two(self, o):
        if isinstance(o, np.ndarray):
            return None
        if isinstance(o, W):
            return o
        if isinstance(o, (bool, np.bool_, int, np.integer)) and not isinstance(o, SymInt):
            return int(o)
        raise Unsupported(f"{type(o)} with data")

    def wide(self, o):
        return max(self.w, o.w if isinstance(o, W) else max(int(o), 0).bit_length(), self.fixed or 0) or 1

    def _bin(f):  # noqa: N805
        def op(self, o):
            o = self.two(o)
            if o is None:
                return NotImplemented
            if isinstance(o, int) and o < 0:
                o &= (1 << self.wide(0)) - 1
            return self.mk(f(self, o, self.wide(o)))

        return op

    __xor__ = __rxor__ = _bin(anf.wxor)
    __and__ = __rand__ = _bin(anf.wand)
    __or__ = __ror__ = _bin(anf.wor)

    def __lshift__(self, n):
        n = shift(n)
        return self.mk(anf.wshl(self, n, self.w + n))

    def __rshift__(self, n):
        return self.mk(anf.wshr(self, shift(n), self.w))

    def __mul__(self, o):
        o = self.two(o)
        if o is None:
            return NotImplemented
        return self.mk(anf.wmul(self, o, self.wide(o) + self.w))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (int, np.integer, W)):
            return NotImplemented
        return bit_word(anf.weq(self, o if isinstance(o, W) else int(o), self.wide(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bit_word(as_bits(r, 1)[0] ^ anf.ONE)

    __hash__ = W.__hash__

    def __bool__(self):
        raise Unsupported("branch on data")

    def __int__(self):
        raise Unsupported("the value of data is needed")

    __index__ = __float__ = __int__


def bit_word(b):
    return 1 if b == anf.ONE else 0 if not b else GW([b])


def shift(n):
    if isinstance(n, W):
        raise Unsupported("shift by data")
    return int(n)


class U64(GW):
    fixed = 64


class Tok(Opaque):
    """An opaque integer: arithmetic builds expressions, a remainder is a position."""

    pos = None  # set by the harness

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.key == o.key

    def __hash__(self):
        return hash(repr(self.key))

    def _op(name, comm=False, swap=False):  # noqa: N805
        def f(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            ks = [self.key, o.key if isinstance(o, Opaque) else int(o)]
            if comm:
                ks.sort(key=repr)
            elif swap:
                ks.reverse()
            return Tok(name, *ks)

        return f

    __add__ = __radd__ = _op("+", True)
    __mul__ = __rmul__ = _op("*", True)
    __xor__ = __rxor__ = _op("^", True)
    __or__ = __ror__ = _op("|", True)
    __sub__, __rsub__ = _op("-"), _op("-", swap=True)
    __lshift__, __rshift__ = _op("<<"), _op(">>")

    def __and__(self, o):
        return self if o == (1 << 64) - 1 and self.key[0] == "&" else Tok("&", *sorted((self.key, o.key if isinstance(o, Opaque) else int(o)), key=repr))

    __rand__ = __and__

    def __mod__(self, m):
        return Tok.pos(self.key, m)

    def __int__(self):
        raise Unsupported("the value of a key is needed")

    __index__ = __bool__ = __int__


def shint(x=0, *a):
    if isinstance(x, U64):
        return GW(x.b).tidy()
    if isinstance(x, (W, Opaque)):
        return x
    if isinstance(x, SymInt):
        return x
    return int(x, *a)


class ShIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, W))

    def __call__(cls, *a):
        return shint(*a)


class ShInt(metaclass=ShIntMeta):
    pass


def u64(x):
    """What storing x into an array of 64-bit words gives."""
    if isinstance(x, U64) or isinstance(x, (Opaque, SymInt)):
        return x
    if isinstance(x, W):
        if any(x.b[64:]):
            raise OverflowError("Python integer too large to convert to C long")
        return U64(x.b).tidy()
    x = int(x)
    if not 0 <= x < 1 << 64:
        raise OverflowError("Python integer out of bounds for uint64")
    return x


def plain_index(i):
    """A symbolic position takes every value."""
    if isinstance(i, SymInt):
        return int(i.__index__())
    if isinstance(i, tuple):
        return tuple(plain_index(x) for x in i)
    return i


def words(shape, it):
    a = np.empty(shape, dtype=object)
    a.ravel()[:] = 0
    f = a.reshape(-1)
    for i, v in enumerate(it):
        f[i] = v
    return f.reshape(shape)


class U64Type:
    """numpy.uint64; as a dtype, arrays of it hold objects."""

    dtype = np.dtype(object)

    def __call__(self, x=0):
        return u64(x) if isinstance(x, (W, Opaque)) else np.uint64(x)

    def __eq__(self, o):
        return o is self or o == np.uint64

    __hash__ = None


def real_type(d):
    return np.uint64 if isinstance(d, U64Type) else d


class Np:
    """numpy as the kernels use it; arrays of unknown words are object arrays."""

    def __getattr__(self, n):
        return getattr(np, n)

    def zeros(self, shape, dtype=float, **k):
        dtype = real_type(dtype)
        if dtype == np.uint64:
            a = np.empty(shape, dtype=object)
            a.fill(0)
            return a
        return np.zeros(shape, dtype=dtype, **k)

    empty = zeros

    def zeros_like(self, a, dtype=None, **k):
        if a.dtype == object:
            return self.zeros(a.shape, np.uint64)
        return np.zeros_like(a, dtype=real_type(dtype), **k)

    empty_like = zeros_like

    def array(self, x, dtype=None, **k):
        dtype = real_type(dtype)
        flat = list(np.asarray(x, dtype=object).ravel())
        if any(isinstance(v, (W, Opaque, SymInt)) for v in flat):
            a = np.array(x, dtype=object)
            return words(a.shape, [u64(v) if dtype in (None, np.uint64) else v for v in flat])
        return np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        return self.array(x, dtype, **k)

    ascontiguousarray = asarray

    uint64 = U64Type()


class Convert(ast.NodeTransformer):
    """Selections for branches that only assign names."""

    n = 0
    reads = None

    def visit_FunctionDef(self, node):
        old, self.reads = self.reads, loads(node)
        self.generic_visit(node)
        self.reads = old
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.slice, ast.Slice) and not (isinstance(node.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in node.slice.elts)):
            node.slice = ast.Call(ast.Name("__vp_at", ast.Load()), [node.slice], [])
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        lam = lambda b: ast.Lambda(ast.arguments([], [], None, [], [], None, []), b)
        return ast.Call(ast.Name("__vp_ite", ast.Load()), [node.test, lam(node.body), lam(node.orelse)], [])

    def visit_While(self, node):
        names = sorted(targets(node.body) or [])
        self.generic_visit(node)
        if not names or node.orelse:
            return node
        Convert.n += 1
        t, a, s0 = (f"__vp_{x}{Convert.n}" for x in ("t", "a", "s"))
        stmt = lambda src: ast.parse(src).body[0]
        test = ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("__vp_and", ast.Load()), [ast.Name(a, ast.Load()), node.test], []))
        put = stmt(f"({', '.join(names)},) = __vp_merge({t}, __vp_get(locals(), {names!r}), {s0}) if __vp_sym({t}) else __vp_get(locals(), {names!r})")
        body = [test, stmt(f"if not __vp_sym({t}) and not {t}:\n break"), stmt(f"{a} = {t}"), stmt(f"{s0} = __vp_get(locals(), {names!r})"), *node.body, put]
        return [stmt(f"{a} = 1"), ast.While(ast.Constant(True), body, [])]

    def visit_If(self, node):
        names = sorted(targets(node.body + node.orelse) or [])
        simple = targets(node.body + node.orelse) is not None
        if simple and self.reads is not None:
            inside = loads(node)
            names = [v for v in names if inside.get(v, 0) < self.reads.get(v, 0) or not written_first(node.body, v) or not written_first(node.orelse, v)]
        self.generic_visit(node)
        if not simple or not names:
            return node
        Convert.n += 1
        t, s0, s1 = (f"__vp_{x}{Convert.n}" for x in ("t", "s", "r"))
        load = lambda v: ast.parse(f"{v} = __vp_get(locals(), {names!r})").body[0]
        put = lambda src: ast.parse(f"({', '.join(names)},) = {src}").body[0]
        test = ast.Assign([ast.Name(t, ast.Store())], node.test)
        merged = [load(s0), *node.body, load(s1), put(s0), *node.orelse, put(f"__vp_merge({t}, {s1}, __vp_get(locals(), {names!r}))")]
        cond = ast.parse(f"__vp_sym({t})", mode="eval").body
        return [test, ast.If(cond, merged, [ast.If(ast.Name(t, ast.Load()), node.body, node.orelse)])]


def targets(body):
    out = set()
    for s in body:
        if isinstance(s, ast.Assign):
            ts = [e for t in s.targets for e in (t.elts if isinstance(t, ast.Tuple) else [t])]
        elif isinstance(s, ast.AugAssign):
            ts = [s.target]
        elif isinstance(s, ast.If):
            r = targets(s.body + s.orelse)
            if r is None:
                return None
            out |= r
            continue
        elif isinstance(s, ast.Pass):
            continue
        else:
            return None
        for t in ts:
            if not isinstance(t, ast.Name):
                return None
            out.add(t.id)
    return out


def loads(node):
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and (isinstance(x.ctx, ast.Load)):
            out[x.id] = out.get(x.id, 0) + 1
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out[x.target.id] = out.get(x.target.id, 0) + 1
    return out


def written_first(body, v):
    """v is a temporary of this branch: assigned before it is read."""
    for s in body:
        if isinstance(s, ast.Assign) and v not in loads(s) and any(isinstance(t, ast.Name) and t.id == v for t in s.targets):
            return True
        if v in loads(s):
            return False
    return True


UNDEF = object()


def truth(t):
    """The bit that says whether t is not zero."""
    return as_bits(t, 1)[0] if not any(t.b[1:]) else as_bits(t != 0, 1)[0]


def both(alive, t):
    if not isinstance(t, W):
        return alive if t else 0
    return bit_word(truth(t)) if not isinstance(alive, W) else GW([truth(t)]) & alive


def merge(t, a, b):
    bit = truth(t)
    out = []
    for x, y in zip(a, b):
        if x is UNDEF or y is UNDEF:
            out.append(y if x is UNDEF else x)
        elif isinstance(x, (int, W)) and isinstance(y, (int, W)):
            like = x if isinstance(x, GW) else y if isinstance(y, GW) else GW([])
            v = anf.mux(bit, x, y)
            out.append(like.mk(v) if isinstance(v, W) else v)
        elif x is y:
            out.append(x)
        else:
            raise Unsupported("merge of other values")
    return tuple(out)


def ite(t, a, b):
    if isinstance(t, W):
        return merge(t, (a(),), (b(),))[0]
    return a() if t else b()


@contextlib.contextmanager
def symbolic(E, position=None):
    """py_kernels with symbolic words (not on concrete replays)."""
    from mplang.kernels import py_kernels as mod

    if E.concrete:
        yield
        return
    tree = Convert().visit(ast.parse(inspect.getsource(mod)))
    tree.body = [s for s in tree.body if not (isinstance(s, ast.ImportFrom) and s.module == "__future__")]
    ast.fix_missing_locations(tree)
    saved = dict(vars(mod))
    d = vars(mod)
    for k, v in saved.items():
        if callable(v) and getattr(v, "__module__", "") == mod.__name__:
            del d[k]
    d.update(__vp_get=lambda loc, ns: tuple(loc.get(n, UNDEF) for n in ns), __vp_merge=merge, __vp_sym=lambda t: isinstance(t, W), __vp_ite=ite, __vp_and=both, __vp_at=plain_index)
    Tok.pos = staticmethod(position) if position else None
    try:
        exec(compile("from __future__ import annotations\n", "x", "exec"), {})
        exec(compile(tree, mod.__file__, "exec", flags=__import__("__future__").annotations.compiler_flag), d)
        d["np"], d["int"] = Np(), ShInt
        yield
    finally:
        d.clear()
        d.update(saved)


def word_array(ws, shape):
    return words(shape, [U64(w.b) if isinstance(w, W) else w for w in ws])
