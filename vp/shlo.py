"""StableHLO over symbolic elements: interprets the very module text that mplang hands to XLA.

Arrays are native numpy arrays when nothing in them is symbolic, otherwise object arrays of Python numbers and symbolic
elements: W words (vp.anf), engine integers and booleans (vp.sym), or any object with Python operators.
Symbolic integers are ideal (no wrap-around); W words and numbers wrap at the type's width.
"""

from __future__ import annotations

import hashlib
import itertools
import math
import operator

import numpy as np

from . import anf
from .anf import W, Unencodable
from .sym import SymBool, SymInt, cur

_cache = {}
_keep = []


def parse(text):
    from jax._src.interpreters import mlir
    from jaxlib.mlir import ir

    k = hashlib.sha256(text.encode()).digest()
    if k not in _cache:
        ctx = mlir.make_ir_context()
        with ctx:
            m = ir.Module.parse(text)
        _keep.append((ctx, m))
        _cache[k] = ctx, {ir.StringAttr(f.attributes["sym_name"]).value: f for f in m.body.operations}
    return _cache[k]


def run(text, args):
    """args: arrays; returns the list of result arrays."""
    ctx, funcs = parse(text)
    with ctx:
        return Run(funcs).call("main", [arr(a) for a in args])


def arr(a):
    return a if isinstance(a, np.ndarray) else np.asarray(a)


def is_sym(x):
    return isinstance(x, (W, SymInt, SymBool)) or not isinstance(x, (int, float, complex, bool, np.generic))


def tidy(a, ty):
    """Back to a native array when no element is symbolic."""
    if a.dtype == object:
        if any(is_sym(x) for x in a.flat):
            return a
        return np.array(a.tolist(), dtype=ty.np).reshape(a.shape) if a.size else np.zeros(a.shape, ty.np)
    return a if a.dtype == ty.np else a.astype(ty.np)


class Ty:
    """Element type and shape of a ranked tensor type."""

    names = {"i1": "bool", "f16": "float16", "f32": "float32", "f64": "float64"}

    def __init__(self, t):
        from jaxlib.mlir import ir

        t = ir.RankedTensorType(t)
        self.shape = tuple(t.shape)
        e = str(t.element_type)
        self.name = e
        self.float = e[0] == "f"
        self.bool = e == "i1"
        self.unsigned = e.startswith("ui")
        if e in self.names:
            self.np = np.dtype(self.names[e])
        elif e[0] == "i":
            self.np = np.dtype("int" + e[1:])
        elif e[:2] == "ui":
            self.np = np.dtype("uint" + e[2:])
        else:
            raise Unencodable(f"element type {e}")
        self.w = 1 if self.bool else self.np.itemsize * 8

    def wrap(self, x):
        """A Python number in the range of the type."""
        if isinstance(x, (W, SymInt, SymBool)) or not isinstance(x, (int, bool, np.integer, np.bool_)):
            return x
        if self.bool:
            return bool(x)
        if self.float:
            return float(x)
        x = int(x) & ((1 << self.w) - 1)
        return x - (1 << self.w) if not self.unsigned and x >> (self.w - 1) else x


_ty = {}


def ty(v):
    s = str(v.type)
    if s not in _ty:
        _ty[s] = Ty(v.type)
    return _ty[s]


def ints(a):
    return [int(x) for x in a]


def idx(x):
    """A concrete index; a symbolic one is decided by the engine (words of secret bits: by the caller, over every position)."""
    return x if isinstance(x, W) else int(x)


def places(p, shape):
    """[(condition bit polynomial, position)]: where a position with W components may be."""
    out = [(anf.ONE, ())]
    for x, n in zip(p, shape):
        if isinstance(x, W):
            out = [(c2, q + (k,)) for c, q in out for k in range(n) for c2 in [anf.conj(c, anf.weq(x, k, x.w))] if c2]
        else:
            out = [(c, q + (x,)) for c, q in out if 0 <= x < n]
    return out


# ---------------------------------------------------------------- element operations


def _cmp(d, a, b, t):
    if isinstance(a, W) or isinstance(b, W):
        if d == "EQ":
            r = anf.weq(a, b, t.w)
        elif d == "NE":
            r = anf.weq(a, b, t.w) ^ anf.ONE
        elif d in ("LT", "GE") and not isinstance(b, W) and b == 0 and not t.unsigned:
            s = anf.as_bits(a, t.w)[t.w - 1]
            r = s if d == "LT" else s ^ anf.ONE
        elif not t.float:
            lt = anf.ZERO
            x, y = (a, b) if d in ("LT", "GE") else (b, a)
            ps, qs = anf.as_bits(x, t.w), anf.as_bits(y, t.w)
            if not (t.unsigned or t.bool):
                ps, qs = ps[:-1] + [ps[-1] ^ anf.ONE], qs[:-1] + [qs[-1] ^ anf.ONE]
            for p, q in zip(ps, qs):
                e = p ^ q
                lt = anf.conj(e, q) ^ anf.conj(e ^ anf.ONE, lt)
                if len(lt) > 4096:
                    raise Unencodable("order of wide symbolic words")
            r = lt if d in ("LT", "GT") else lt ^ anf.ONE
        else:
            raise Unencodable("order of symbolic floats")
        v = W([r]).small()
        return bool(v) if isinstance(v, int) else v
    return {"EQ": operator.eq, "NE": operator.ne, "LT": operator.lt, "LE": operator.le, "GT": operator.gt, "GE": operator.ge}[d](a, b)


def _sel(c, a, b, t):
    if isinstance(c, W):
        v = anf.mux(c.b[0], a, b)
        return t.wrap(v) if isinstance(v, int) else v
    if isinstance(c, SymBool):
        if a is b:
            return a
        for x in (a, b):
            if hasattr(x, "select"):
                return x.select(c, a, b)
        if isinstance(a, W) or isinstance(b, W):
            return a if bool(c) else b
        return cur().ite(c, a, b)
    return a if c else b


def _bin(name):
    def f(a, b, t):
        s = isinstance(a, W) or isinstance(b, W)
        if name == "add":
            return anf.wadd(a, b, t.w) if s else (a | b if t.bool else a + b)
        if name == "subtract":
            if s:
                return anf.wadd(anf.wadd(a, anf.wnot(b, t.w), t.w), 1, t.w)
            return a - b
        if name == "multiply":
            return anf.wmul(a, b, t.w) if s else (a & b if t.bool else a * b)
        if name == "xor":
            return anf.wxor(a, b, t.w) if s else (a != b if t.bool else a ^ b)
        if name == "and":
            return anf.wand(a, b, t.w) if s else a & b
        if name == "or":
            return anf.wor(a, b, t.w) if s else a | b
        if name == "maximum":
            return _sel(_cmp("LT", a, b, t), b, a, t)
        if name == "minimum":
            return _sel(_cmp("LT", b, a, t), b, a, t)
        if name == "divide":
            if s:
                raise Unencodable("division of symbolic words")
            if t.float:
                return a / b
            if not is_sym(a) and not is_sym(b):
                return 0 if b == 0 else int(math.copysign(abs(a) // abs(b), a * b)) if a * b else 0
            if not is_sym(b) and b > 0:
                return cur().ite(a >= 0, a // b, -((-a) // b)) if is_sym(a) else a // b
            raise Unencodable("division by a symbolic integer")
        if name == "remainder":
            if s:
                if not isinstance(b, W) and b > 0 and b & (b - 1) == 0 and t.unsigned:
                    return anf.wand(a, b - 1, t.w)
                return opaque_mod(a, b, t)
            if t.float:
                return math.fmod(a, b)
            if not is_sym(a) and not is_sym(b):
                return int(math.fmod(a, b)) if abs(a) < 2**50 else (abs(a) % abs(b)) * (1 if a >= 0 else -1)
            if not is_sym(b) and b > 0:
                return cur().ite(a >= 0, a % b, -((-a) % b)) if is_sym(a) else a % b
            raise Unencodable("remainder of symbolic integers")
        if name in ("shift_left", "shift_right_logical", "shift_right_arithmetic"):
            if isinstance(b, W):
                raise Unencodable("shift by a symbolic amount")
            n = int(b)
            if n >= t.w or n < 0:
                return 0
            if isinstance(a, W):
                if name == "shift_left":
                    return anf.wshl(a, n, t.w)
                if name == "shift_right_logical" or t.unsigned:
                    return anf.wshr(a, n, t.w)
                raise Unencodable("arithmetic shift of symbolic words")
            if name == "shift_left":
                return a << n
            if name == "shift_right_logical" and not is_sym(a):
                return (int(a) & ((1 << t.w) - 1)) >> n
            return a >> n
        if name == "power":
            return a ** b
        raise Unencodable(name)

    return f


def opaque_mod(a, b, t):
    raise Unencodable("remainder of a symbolic word")


def _un(name):
    def f(a, t):
        if name == "not":
            return anf.wnot(a, t.w) if isinstance(a, W) else (~a if isinstance(a, SymBool) else (not a) if t.bool else ~a)
        if name == "negate":
            return anf.wadd(anf.wnot(a, t.w), 1, t.w) if isinstance(a, W) else -a
        if name == "abs":
            return abs(a)
        if name == "sign":
            if is_sym(a):
                return cur().ite(a > 0, 1, cur().ite(a < 0, -1, 0))
            return (a > 0) - (a < 0)
        if name == "is_finite":
            return True if is_sym(a) else math.isfinite(a)
        if name in ("floor", "ceil") and not is_sym(a):
            return float(getattr(math, name)(a))
        if name == "round_nearest_even" and not is_sym(a):
            return float(round(a))
        if name == "popcnt" and not is_sym(a):
            return bin(a & ((1 << t.w) - 1)).count("1")
        if hasattr(a, "apply"):
            return a.apply(name)
        m = {"exponential": math.exp, "log": math.log, "sqrt": math.sqrt, "tanh": math.tanh, "logistic": lambda x: 1 / (1 + math.exp(-x)), "rsqrt": lambda x: 1 / math.sqrt(x), "cosine": math.cos, "sine": math.sin,
             "exponential_minus_one": math.expm1, "log_plus_one": math.log1p, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x)}
        if name in m and not is_sym(a):
            return m[name](a)
        raise Unencodable(name)

    return f


BIN = {n: _bin(n) for n in "add subtract multiply xor and or maximum minimum divide remainder shift_left shift_right_logical shift_right_arithmetic power".split()}
UN = {n: _un(n) for n in "not negate abs sign is_finite floor ceil round_nearest_even popcnt exponential log sqrt tanh logistic rsqrt cosine sine exponential_minus_one log_plus_one cbrt".split()}


def obj(a):
    if a.dtype == object:
        return a
    o = np.empty(a.shape, dtype=object)
    o.flat[:] = a.ravel().tolist() if a.size else []
    return o


def emap(f, t, *arrays):
    """Apply f element-wise (object arrays)."""
    out = np.empty(arrays[0].shape, dtype=object)
    fl = [obj(a).ravel() for a in arrays]
    r = out.ravel()
    for i in range(r.size):
        r[i] = t.wrap(f(*[x[i] for x in fl]))
    return r.reshape(out.shape)


NATIVE2 = {"add": np.add, "subtract": np.subtract, "multiply": np.multiply, "xor": np.bitwise_xor, "and": np.bitwise_and, "or": np.bitwise_or, "maximum": np.maximum, "minimum": np.minimum}
NATIVE_CMP = {"EQ": np.equal, "NE": np.not_equal, "LT": np.less, "LE": np.less_equal, "GT": np.greater, "GE": np.greater_equal}


def convert_el(x, a, b):
    if isinstance(x, W):
        if b.float:
            raise Unencodable("symbolic word to float")
        if b.bool:
            return _cmp("NE", x, 0, a)
        bits = anf.as_bits(x, a.w)
        top = anf.ZERO if a.unsigned or a.bool else bits[-1]
        return W((bits + [top] * b.w)[: b.w]).small()
    if isinstance(x, SymBool):
        return x if b.bool else cur().ite(x, 1.0 if b.float else 1, 0.0 if b.float else 0)
    if isinstance(x, SymInt):
        return x != 0 if b.bool else x.as_real() if b.float and hasattr(x, "as_real") else x
    if is_sym(x):
        return x.convert(a, b) if hasattr(x, "convert") else x
    if b.bool:
        return bool(x)
    if b.float:
        return float(x)
    return int(x)


def to_bits_el(x, t):
    if isinstance(x, W):
        return anf.as_bits(x, t.w)
    if t.float:
        x = int(np.array(x, t.np).view(f"uint{t.w}"))
    if is_sym(x):
        raise Unencodable("bits of a symbolic integer")
    return anf.as_bits(int(x) & ((1 << t.w) - 1), t.w)


def from_bits_el(bits, t):
    v = W(bits).small()
    if isinstance(v, W):
        return v
    if t.float:
        return float(np.array(v, f"uint{t.w}").view(t.np))
    return t.wrap(v)


# ---------------------------------------------------------------- operations


class Run:
    def __init__(self, funcs):
        self.funcs = funcs

    def call(self, name, args):
        return self.block(self.funcs[name].regions[0].blocks[0], args, {})

    def block(self, b, args, env):
        env = env if env is not None else {}
        for p, a in zip(b.arguments, args):
            env[p] = a
        for op in b.operations:
            o = op.operation
            n = o.name
            if n in ("func.return", "stablehlo.return"):
                return [env[v] for v in o.operands]
            ins = [env[v] for v in o.operands]
            if n == "func.call":
                from jaxlib.mlir import ir

                outs = self.call(ir.FlatSymbolRefAttr(o.attributes["callee"]).value, ins)
            else:
                f = getattr(self, "op_" + n.split(".", 1)[1], None)
                short = n.split(".", 1)[1]
                rt = [ty(r) for r in o.results]
                if f is not None:
                    outs = f(o, ins, rt, env)
                elif short in BIN:
                    outs = [self.binary(short, ins, rt[0])]
                elif short in UN:
                    outs = [self.unary(short, ins[0], rt[0], ty(o.operands[0]))]
                else:
                    raise Unencodable(n)
                outs = [tidy(a, t) for a, t in zip(outs, rt)]
                for a, t in zip(outs, rt):
                    if tuple(a.shape) != t.shape:
                        raise RuntimeError(f"{n}: computed shape {a.shape}, declared {t.shape}")
            for r, a in zip(o.results, outs):
                env[r] = a
        return []

    def binary(self, n, ins, t):
        a, b = ins
        if a.dtype != object and b.dtype != object and n in NATIVE2:
            with np.errstate(all="ignore"):
                return (np.logical_or if n == "add" else np.logical_and)(a, b) if t.bool and n in ("add", "multiply") else NATIVE2[n](a, b)
        if a.dtype != object and b.dtype != object and t.float and n == "divide":
            with np.errstate(all="ignore"):
                return np.divide(a, b).astype(t.np)
        f = BIN[n]
        return emap(lambda x, y: f(x, y, t), t, a, b)

    def unary(self, n, a, t, src):
        if a.dtype != object and t.float and n in ("exponential", "log", "tanh", "sqrt", "negate", "floor", "round_nearest_even"):
            with np.errstate(all="ignore"):
                return {"exponential": np.exp, "log": np.log, "tanh": np.tanh, "sqrt": np.sqrt, "negate": np.negative, "floor": np.floor, "round_nearest_even": np.round}[n](a).astype(t.np)
        if a.dtype != object and n == "is_finite":
            return np.isfinite(a)
        return emap(lambda x: UN[n](x, src), t, a)

    # ---- data movement
    def op_constant(self, o, ins, rt, env):
        t = rt[0]
        a = np.array(o.attributes["value"])
        return [a.astype(t.np).reshape(t.shape) if a.size == int(np.prod(t.shape)) else np.full(t.shape, a.ravel()[0], t.np)]

    def op_iota(self, o, ins, rt, env):
        d = int_attr(o, "iota_dimension")
        t = rt[0]
        sh = [1] * len(t.shape)
        sh[d] = t.shape[d]
        return [np.broadcast_to(np.arange(t.shape[d]).reshape(sh), t.shape).astype(t.np)]

    def op_reshape(self, o, ins, rt, env):
        return [ins[0].reshape(rt[0].shape)]

    def op_optimization_barrier(self, o, ins, rt, env):
        return ins

    def op_custom_call(self, o, ins, rt, env):
        raise Unencodable(f"custom call {o.attributes['call_target_name']}")

    def op_broadcast_in_dim(self, o, ins, rt, env):
        dims = vec(o, "broadcast_dimensions")
        sh = [1] * len(rt[0].shape)
        for i, d in enumerate(dims):
            sh[d] = ins[0].shape[i]
        return [np.broadcast_to(ins[0].reshape(sh), rt[0].shape)]

    def op_transpose(self, o, ins, rt, env):
        return [np.transpose(ins[0], vec(o, "permutation"))]

    def op_slice(self, o, ins, rt, env):
        s, e, st = vec(o, "start_indices"), vec(o, "limit_indices"), vec(o, "strides")
        return [ins[0][tuple(slice(a, b, c) for a, b, c in zip(s, e, st))]]

    def op_dynamic_slice(self, o, ins, rt, env):
        sz = vec(o, "slice_sizes")
        s = [min(max(idx(i.item()), 0), n - k) for i, n, k in zip(ins[1:], ins[0].shape, sz)]
        return [ins[0][tuple(slice(a, a + k) for a, k in zip(s, sz))]]

    def op_dynamic_update_slice(self, o, ins, rt, env):
        a, u = ins[0], ins[1]
        s = [min(max(idx(i.item()), 0), n - k) for i, n, k in zip(ins[2:], a.shape, u.shape)]
        if u.dtype == object or a.dtype == object:
            a, u = obj(a), obj(u)
        a = a.copy()
        a[tuple(slice(x, x + k) for x, k in zip(s, u.shape))] = u
        return [a]

    def op_concatenate(self, o, ins, rt, env):
        if any(a.dtype == object for a in ins):
            ins = [obj(a) for a in ins]
        return [np.concatenate(ins, axis=int_attr(o, "dimension"))]

    def op_reverse(self, o, ins, rt, env):
        return [np.flip(ins[0], tuple(vec(o, "dimensions")))]

    def op_pad(self, o, ins, rt, env):
        lo, hi, mid = vec(o, "edge_padding_low"), vec(o, "edge_padding_high"), vec(o, "interior_padding")
        a = obj(ins[0])
        out = np.empty(rt[0].shape, dtype=object)
        out[...] = obj(ins[1]).item() if not isinstance(ins[1], np.ndarray) or ins[1].dtype != object else ins[1].item()
        for i in np.ndindex(a.shape):
            j = tuple(l + x * (m + 1) for l, x, m in zip(lo, i, mid))
            if all(0 <= x < n for x, n in zip(j, out.shape)):
                out[j] = a[i]
        return [out]

    def op_select(self, o, ins, rt, env):
        c, a, b = ins
        t = rt[0]
        if c.shape != a.shape:
            c = np.broadcast_to(c, a.shape)
        if c.dtype != object:
            if a.dtype == object or b.dtype == object:
                a, b = obj(a), obj(b)
            return [np.where(c, a, b)]
        return [emap(lambda p, x, y: _sel(p, x, y, t), t, c, a, b)]

    def op_clamp(self, o, ins, rt, env):
        lo, x, hi = (np.broadcast_to(a, ins[1].shape) for a in ins)
        t = rt[0]
        return [self.binary("minimum", [self.binary("maximum", [x, lo], t), hi], t)]

    def op_compare(self, o, ins, rt, env):
        d = str(o.attributes["comparison_direction"]).split()[-1].rstrip(">")
        a, b = ins
        if a.dtype != object and b.dtype != object:
            return [NATIVE_CMP[d](a, b)]
        t = ty(o.operands[0])
        return [emap(lambda x, y: _cmp(d, x, y, t), rt[0], a, b)]

    def op_convert(self, o, ins, rt, env):
        s, t = ty(o.operands[0]), rt[0]
        if ins[0].dtype != object:
            with np.errstate(all="ignore"):
                return [ins[0].astype(t.np)]
        return [emap(lambda x: convert_el(x, s, t), t, ins[0])]

    def op_bitcast_convert(self, o, ins, rt, env):
        s, t, a = ty(o.operands[0]), rt[0], ins[0]
        if a.dtype != object:
            return [np.ascontiguousarray(a).view(t.np).reshape(t.shape) if a.ndim and a.size else a.reshape(1).view(t.np).reshape(t.shape) if a.size else a.astype(t.np).reshape(t.shape)]
        out = np.empty(t.shape, dtype=object)
        if s.w == t.w:
            for i in np.ndindex(a.shape):
                out[i] = from_bits_el(to_bits_el(a[i], s), t)
        elif s.w > t.w:
            for i in np.ndindex(a.shape):
                b = to_bits_el(a[i], s)
                for k in range(s.w // t.w):
                    out[(*i, k)] = from_bits_el(b[k * t.w : (k + 1) * t.w], t)
        else:
            for i in np.ndindex(out.shape):
                parts = [a[(*i, k)] for k in range(t.w // s.w)]
                if hasattr(parts[0], "join"):
                    out[i] = parts[0].join(parts, t)
                else:
                    out[i] = from_bits_el([x for q in parts for x in to_bits_el(q, s)], t)
        return [out]

    # ---- reductions and loops
    def combine(self, o, env, a, b):
        """Apply the two-argument region to scalars."""
        blk = o.regions[0].blocks[0]
        n = len(blk.arguments) // 2
        ts = [ty(p) for p in blk.arguments]
        r = self.block(blk, [wrap0(x, t) for x, t in zip([*a, *b], ts)], env)
        return [x.item() if x.dtype != object else x[()] for x in r][:n]

    def op_reduce(self, o, ins, rt, env):
        n = len(ins) // 2
        dims = vec(o, "dimensions")
        xs = [obj(a) for a in ins[:n]]
        init = [a.item() if a.dtype != object else a[()] for a in ins[n:]]
        sh = xs[0].shape
        outs = [np.empty(t.shape, dtype=object) for t in rt]
        keep = [d for d in range(len(sh)) if d not in dims]
        simple = self.simple(o)
        for i in np.ndindex(*[sh[d] for d in keep]):
            acc = list(init)
            for j in np.ndindex(*[sh[d] for d in dims]):
                at = [0] * len(sh)
                for d, v in zip(keep, i):
                    at[d] = v
                for d, v in zip(dims, j):
                    at[d] = v
                acc = self.step(o, env, simple, acc, [x[tuple(at)] for x in xs])
            for k in range(n):
                outs[k][i] = acc[k]
        return outs

    def simple(self, o):
        ops = list(o.regions[0].blocks[0].operations)
        if len(ops) == 2 and len(o.regions[0].blocks[0].arguments) == 2:
            n = ops[0].operation.name.split(".", 1)[1]
            if n in BIN and [str(x) for x in ops[0].operation.operands] == [str(x) for x in o.regions[0].blocks[0].arguments]:
                return BIN[n], ty(ops[0].operation.results[0])
        return None

    def step(self, o, env, simple, acc, x):
        if simple:
            f, t = simple
            return [t.wrap(f(acc[0], x[0], t))]
        return self.combine(o, env, acc, x)

    def op_reduce_window(self, o, ins, rt, env):
        n = len(ins) // 2
        win = vec(o, "window_dimensions")
        r = len(win)
        st = vec(o, "window_strides", [1] * r)
        bd, wd = vec(o, "base_dilations", [1] * r), vec(o, "window_dilations", [1] * r)
        pad = np.array(o.attributes["padding"]).reshape(r, 2).tolist() if "padding" in o.attributes else [[0, 0]] * r
        if any(x != 1 for x in bd):
            raise Unencodable("base dilation")
        xs = [obj(a) for a in ins[:n]]
        init = [a.item() if a.dtype != object else a[()] for a in ins[n:]]
        outs = [np.empty(t.shape, dtype=object) for t in rt]
        simple = self.simple(o)
        for i in np.ndindex(*rt[0].shape):
            acc = list(init)
            for j in np.ndindex(*win):
                at = tuple(a * s + w * d - p[0] for a, s, w, d, p in zip(i, st, j, wd, pad))
                if all(0 <= v < m for v, m in zip(at, xs[0].shape)):
                    acc = self.step(o, env, simple, acc, [x[at] for x in xs])
            for k in range(n):
                outs[k][i] = acc[k]
        return outs

    def op_while(self, o, ins, rt, env):
        vals = list(ins)
        for _ in range(100000):
            c = self.block(o.regions[0].blocks[0], vals, env)[0]
            if not bool(c.item() if c.dtype != object else c[()]):
                return vals
            vals = [tidy(a, t) for a, t in zip(self.block(o.regions[1].blocks[0], vals, env), rt)]
        raise Unencodable("long loop")

    def op_case(self, o, ins, rt, env):
        n = len(o.regions)
        k = idx(ins[0].item())
        return self.block(o.regions[k if 0 <= k < n else n - 1].blocks[0], [], env)

    def op_if(self, o, ins, rt, env):
        return self.block(o.regions[0 if bool(ins[0].item()) else 1].blocks[0], [], env)

    def op_sort(self, o, ins, rt, env):
        import functools

        d = int_attr(o, "dimension", -1) % ins[0].ndim
        xs = [obj(a) for a in ins]
        outs = [np.empty(a.shape, dtype=object) for a in xs]
        blk = o.regions[0].blocks[0]
        ts = [ty(p) for p in blk.arguments]

        def less(a, b):
            r = self.block(blk, [wrap0(v, t) for v, t in zip([y for pair in zip(a, b) for y in pair], ts)], env)[0]
            return bool(r.item() if r.dtype != object else r[()])

        key = functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0)
        rest = [n for k, n in enumerate(xs[0].shape) if k != d]
        for i in np.ndindex(*rest):
            at = [(*i[:d], k, *i[d:]) for k in range(xs[0].shape[d])]
            rows = sorted(([x[p] for x in xs] for p in at), key=key)
            for p, row in zip(at, rows):
                for out, v in zip(outs, row):
                    out[p] = v
        return outs

    def op_gather(self, o, ins, rt, env):
        from jaxlib.mlir.dialects import stablehlo as sh

        a, ix = ins
        d = sh.GatherDimensionNumbers(o.attributes["dimension_numbers"])
        off, coll, smap, ivd = list(d.offset_dims), list(d.collapsed_slice_dims), list(d.start_index_map), d.index_vector_dim
        ob, sb = list(d.operand_batching_dims), list(d.start_indices_batching_dims)
        sz = vec(o, "slice_sizes")
        out = np.empty(rt[0].shape, dtype=object)
        a = obj(a)
        batch = [k for k in range(out.ndim) if k not in off]
        inner = [k for k in range(a.ndim) if k not in coll and k not in ob]
        memo = {}
        for i in np.ndindex(*out.shape):
            bi = tuple(i[k] for k in batch)
            if bi not in memo:
                at = list(bi)
                if ivd < ix.ndim:
                    at.insert(ivd, slice(None))
                v = ix[tuple(at)]
                v = [idx(x) for x in (v.ravel() if isinstance(v, np.ndarray) else [v])]
                st = [0] * a.ndim
                for k, x in zip(smap, v):
                    if isinstance(x, W) and sz[k] != 1:
                        raise Unencodable("a window at a secret position")
                    st[k] = x if isinstance(x, W) else min(max(x, 0), a.shape[k] - sz[k])
                full = [k for k in range(ix.ndim) if k != ivd]
                for k, s in zip(ob, sb):
                    st[k] = bi[full.index(s)]
                memo[bi] = st
            p = list(memo[bi])
            for k, dim in zip(off, inner):
                if i[k]:
                    p[dim] += i[k]
            out[i] = a[tuple(p)] if not any(isinstance(x, W) for x in p) else _at(a, places(p, a.shape))
        return [out]

    def op_scatter(self, o, ins, rt, env):
        from jaxlib.mlir.dialects import stablehlo as sh

        n = (len(ins) - 1) // 2
        d = sh.ScatterDimensionNumbers(o.attributes["scatter_dimension_numbers"])
        uw, iw, smap, ivd = list(d.update_window_dims), list(d.inserted_window_dims), list(d.scattered_dims_to_operand_dims), d.index_vector_dim
        ib, sb = list(d.input_batching_dims), list(d.scatter_indices_batching_dims)
        outs = [obj(a).copy() for a in ins[:n]]
        ix = ins[n]
        ups = [obj(a) for a in ins[n + 1 :]]
        batch = [k for k in range(ups[0].ndim) if k not in uw]
        inner = [k for k in range(outs[0].ndim) if k not in iw and k not in ib]
        full = [k for k in range(ix.ndim) if k != ivd]
        memo = {}
        for i in np.ndindex(*ups[0].shape):
            bi = tuple(i[k] for k in batch)
            if bi not in memo:
                at = list(bi)
                if ivd < ix.ndim:
                    at.insert(ivd, slice(None))
                v = ix[tuple(at)]
                memo[bi] = [idx(x) for x in (v.ravel() if isinstance(v, np.ndarray) else [v])]
            p = [0] * outs[0].ndim
            for k, x in zip(smap, memo[bi]):
                p[k] = x
            for k, s in zip(ib, sb):
                p[k] = bi[full.index(s)]
            for k, dim in zip(uw, inner):
                if i[k]:
                    p[dim] += i[k]
            if any(isinstance(x, W) for x in p):
                for c, q in places(p, outs[0].shape):
                    r = self.combine(o, env, [x[q] for x in outs], [u[i] for u in ups])
                    for x, v in zip(outs, r):
                        x[q] = anf.mux(c, v, x[q])
            elif all(0 <= x < m for x, m in zip(p, outs[0].shape)):
                p = tuple(p)
                r = self.combine(o, env, [x[p] for x in outs], [u[i] for u in ups])
                for x, v in zip(outs, r):
                    x[p] = v
        return outs

    def op_dot_general(self, o, ins, rt, env):
        from jaxlib.mlir.dialects import stablehlo as sh

        d = sh.DotDimensionNumbers(o.attributes["dot_dimension_numbers"])
        lb, rb, lc, rc = (list(x) for x in (d.lhs_batching_dimensions, d.rhs_batching_dimensions, d.lhs_contracting_dimensions, d.rhs_contracting_dimensions))
        a, b = ins
        t = rt[0]
        lf = [k for k in range(a.ndim) if k not in lb + lc]
        rf = [k for k in range(b.ndim) if k not in rb + rc]
        if a.dtype != object and b.dtype != object:
            s = "abcdefghijklmnop"
            L, R, it = [None] * a.ndim, [None] * b.ndim, iter(s)
            for x, y in zip(lb, rb):
                L[x] = R[y] = next(it)
            for x, y in zip(lc, rc):
                L[x] = R[y] = next(it)
            for x in lf:
                L[x] = next(it)
            for y in rf:
                R[y] = next(it)
            out = "".join([L[x] for x in lb] + [L[x] for x in lf] + [R[y] for y in rf])
            return [np.einsum(f"{''.join(L)},{''.join(R)}->{out}", a, b).astype(t.np)]
        a, b = obj(a), obj(b)
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            bi, li, ri = i[: len(lb)], i[len(lb) : len(lb) + len(lf)], i[len(lb) + len(lf) :]
            acc = 0.0 if t.float else 0
            for c in np.ndindex(*[a.shape[k] for k in lc]):
                p, q = [0] * a.ndim, [0] * b.ndim
                for ds, vs in ((lb, bi), (lf, li), (lc, c)):
                    for k, v in zip(ds, vs):
                        p[k] = v
                for ds, vs in ((rb, bi), (rf, ri), (rc, c)):
                    for k, v in zip(ds, vs):
                        q[k] = v
                x, y = a[tuple(p)], b[tuple(q)]
                acc = BIN["add"](acc, BIN["multiply"](x, y, t), t)
            out[i] = t.wrap(acc)
        return [out]


def _at(a, cands):
    """The element at a secret position (positions outside the array excluded by the caller)."""
    r = None
    for c, q in cands:
        r = a[q] if r is None else anf.mux(c, a[q], r)
    return r


def wrap0(x, t):
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.array(x, dtype=t.np)


def vec(o, name, default=None):
    if name not in o.attributes:
        return default
    return [int(x) for x in o.attributes[name]]


def int_attr(o, name, default=None):
    from jaxlib.mlir import ir

    return ir.IntegerAttr(o.attributes[name]).value if name in o.attributes else default


# ---------------------------------------------------------------- the tensor.run_jax kernel


def run_jax(interp, op, *args):
    """Stand-in for the XLA kernel of tensor.run_jax: same argument casts, same kept arguments, same text."""
    from mplang.backends.tensor_impl import TensorValue

    ins = []
    for a in args:
        a = a._data if isinstance(a, TensorValue) else a
        ins.append(np.asarray(a) if not isinstance(a, np.ndarray) else a)
    if not any(x.dtype == object and any(is_sym(v) for v in x.flat) for x in ins):
        from mplang.edsl.registry import get_impl

        return get_impl("tensor.run_jax")(interp, op, *args)
    keep = op.attrs.get("arg_keep_map")
    ins = [ins[i] for i in keep] if keep is not None else ins
    ctx, funcs = parse(op.attrs["stablehlo_code"])
    with ctx:
        ts = [ty(p) for p in funcs["main"].regions[0].blocks[0].arguments]
    cast = []
    for a, t in zip(ins, ts):
        if a.dtype == object:
            a = tidy(emap(lambda x: t.wrap(x) if not t.bool or isinstance(x, (W, SymBool)) else x, t, a), t)
        elif a.dtype != t.np:
            a = a.astype(t.np)
        cast.append(a)
    out = [TensorValue(a if a.dtype != object else np.array(a, dtype=object, copy=True)) for a in run(op.attrs["stablehlo_code"], cast)]
    return out[0] if len(op.outputs) == 1 and len(out) == 1 else out
