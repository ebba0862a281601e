"""What one party can tell from its view of a protocol run.

A run with every other party's coins and inputs unknown gives the observer's view as polynomials.  The observer may add up
bits it holds, combine group elements linearly, hash or expand anything it can form, and open ciphertexts whose key it can
form.  A relation among what it then knows that holds for one value of the secrets and not for another is a leak; each is
handed to the solver, and replayed on a real run in which the observer's coins are the same constants.
"""

from __future__ import annotations

import hashlib

import numpy as np

from . import ideal
from .anf import ONE_M, W, as_bits, cofactor
from .ideal import ORDER, classes, p_cof

WIDTH = {"bool": 1, "uint8": 8, "int8": 8, "uint16": 16, "int16": 16, "uint32": 32, "int32": 32, "uint64": 64, "int64": 64}


class Rows:
    """Incremental elimination over GF(2) that remembers which items each row combines."""

    def __init__(self):
        self.piv = {}  # monomial -> (row, items)
        self.relations = []  # (items, constant)
        self.count = {}

    def reduce(self, row, items):
        row, items = set(row), set(items)
        while True:
            hit = [m for m in row if m in self.piv]
            if not hit:
                return row, items
            for m in hit:
                if m in row:
                    r, it = self.piv[m]
                    row ^= r
                    items ^= it

    def add(self, row, item):
        row, items = self.reduce(row, {item})
        const = ONE_M in row
        row.discard(ONE_M)
        if not row:
            self.relations.append((frozenset(items), int(const)))
            return
        p = min(row, key=lambda m: (self.count.get(m, 0), -len(m), m))
        if const:
            row.add(ONE_M)
        self.piv[p] = (row, items)

    def form(self, bit):
        """(items, constant) whose xor is the bit; None when it cannot be formed."""
        row, items = self.reduce(bit, ())
        c = ONE_M in row
        row.discard(ONE_M)
        return None if row else (frozenset(items), int(c))


class Points:
    """Elimination modulo the group order over the discrete logarithms of the group elements held."""

    def __init__(self, polys):
        self.piv = []  # (monomial, row, combination)
        self.relations = []
        for i, p in enumerate(polys):
            self.add(p, {i: 1})

    def reduce(self, p, comb):
        p, comb = dict(p), dict(comb)
        for m, row, c in self.piv:
            k = p.get(m)
            if k:
                for x, v in row.items():
                    p[x] = (p.get(x, 0) - k * v) % ORDER
                for x, v in c.items():
                    comb[x] = (comb.get(x, 0) - k * v) % ORDER
                p = {x: v for x, v in p.items() if v}
        return p, comb

    def add(self, p, comb):
        p, comb = self.reduce(p, comb)
        mons = [m for m in p if m != ()]
        if not mons:
            self.relations.append(({k: v for k, v in comb.items() if v}, p.get((), 0)))
            return
        m = mons[0]
        inv = pow(p[m], -1, ORDER)
        self.piv.append((m, {x: v * inv % ORDER for x, v in p.items()}, {x: v * inv % ORDER for x, v in comb.items()}))

    def form(self, p):
        """Coefficients (and a constant multiple of the generator) that give the point; None when it cannot be formed."""
        r, comb = self.reduce(p, {})
        if any(m != () for m in r):
            return None
        return {k: -v % ORDER for k, v in comb.items() if v}, r.get((), 0)


def flatten(v):
    from mplang.backends.tensor_impl import TensorValue

    C = classes()
    if isinstance(v, TensorValue):
        v = v.unwrap()
    if isinstance(v, np.ndarray):
        w = WIDTH.get(str(v.dtype))
        for x in v.ravel():
            if isinstance(x, (C["Pt"], C["Ct"], C["Byte"], C["Mux"])):
                yield from flatten(x)
            else:
                yield ("word", x if isinstance(x, W) else int(x), w)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from flatten(x)
    elif isinstance(v, (C["Pt"],)):
        yield ("point", v)
    elif isinstance(v, C["Byte"]):
        yield ("byte", v)
    elif isinstance(v, C["Ct"]):
        yield ("ct", v)
    elif isinstance(v, (W, int, np.integer, np.bool_)):
        yield ("word", v if isinstance(v, W) else int(v), None)
    else:
        raise ideal.anf.Unencodable(f"message of {type(v).__name__}")


class View:
    """Everything `rank` received, and what it can derive."""

    def __init__(self, w, rank, own=()):
        self.w, self.rank = w, rank
        self.bits = []    # (bit polynomial, item)
        self.points = []  # (poly, item)
        self.cts = []
        seen = set()
        msgs = [v for s, d, v in w.log if d == rank and s != rank] + [v for v in own]
        for k, v in enumerate(msgs):
            for j, x in enumerate(flatten(v)):
                if x[0] == "word" and isinstance(x[1], W):
                    for b, p in enumerate(x[1].b):
                        if p:
                            self.bits.append((p, ("msg", k, j, b)))
                elif x[0] == "point":
                    self.points.append((x[1].p, ("pt", k, j)))
                elif x[0] == "byte" and x[1].i == 0 and x[1].pt.key() not in seen:
                    seen.add(x[1].pt.key())
                    self.points.append((x[1].pt.p, ("ptb", k, j)))
                elif x[0] == "ct":
                    self.cts.append((x[1], ("ct", k, j)))

    def closure(self, sub, most=6):
        """Relations under a substitution of the secrets (sub: bit -> bit, on polynomials)."""
        rows = Rows()
        bits = [(sub(b), it) for b, it in self.bits]
        for b, _ in bits:
            for m in b:
                rows.count[m] = rows.count.get(m, 0) + 1
        for b, it in bits:
            if b:
                rows.add(b, it)
            else:
                rows.relations.append((frozenset([it]), 0))
        pts = Points([psub(p, sub) for p, _ in self.points])
        known, opened = set(), set()
        for _ in range(most):
            grew = False
            for n, (fn, xs, outs, width) in enumerate(self.w.apps):
                if n in known:
                    continue
                args = []
                for x in xs:
                    if isinstance(x, W):
                        f = []
                        for b in x.b:
                            g = rows.form(sub(b))
                            if g is None:
                                break
                            f.append(g)
                        if len(f) < len(x.b):
                            break
                        args.append(("bits", f))
                    elif isinstance(x, classes()["Pt"]):
                        g = pts.form(psub(x.p, sub))
                        if g is None:
                            break
                        args.append(("point", g))
                    else:
                        args.append(("const", int(x)))
                if len(args) < len(xs):
                    continue
                known.add(n)
                grew = True
                for i, o in enumerate(outs):
                    for j, b in enumerate(o.b):
                        if b:
                            rows.add(sub(b), ("fn", fn, width, tuple((k, tuple(v) if k == "bits" else (tuple((self.points[q][1], co) for q, co in sorted(v[0].items())), v[1]) if k == "point" else v) for k, v in args), i, j))
            for n, (ct, it) in enumerate(self.cts):
                if n in opened:
                    continue
                key = []
                for x in ct.k:
                    key.append([rows.form(sub(b)) for b in as_bits(x, 8)])
                if any(g is None for ks in key for g in ks):
                    continue
                opened.add(n)
                grew = True
                for i, x in enumerate(flatten(ct.pt)):
                    if x[0] == "word" and isinstance(x[1], W):
                        for j, b in enumerate(x[1].b):
                            if b:
                                rows.add(sub(b), ("open", it, tuple(tuple(ks) for ks in key), i, j))
            if not grew:
                break
        return rows, pts


def psub(p, sub):
    """Substitute bits of a point's discrete logarithm (secrets become constants)."""
    vs = {x[1] for m in p for x in m if x[0] == "b"}
    for v in vs:
        b = sub(frozenset([(v,)]))
        if not b:
            p = p_cof(p, v, 0)
        elif b == frozenset([ONE_M]):
            p = p_cof(p, v, 1)
    return p


def assign(pool, secret, val):
    """Substitution setting every secret bit: val(label) -> 0/1."""
    sec = {v: val(pool.label[v]) for v in range(len(pool.z)) if secret(pool.label[v])}

    def sub(bit):
        hit = {v for m in bit for v in m if v in sec}
        for v in hit:
            bit = cofactor(bit, v, sec[v])
        return bit

    return sub


def patterns():
    return [("zeros", lambda l: 0), ("ones", lambda l: 1), ("mixed", lambda l: hashlib.sha256(repr(l).encode()).digest()[0] & 1)]


def leaks(w, rank, secret, allowed=(), own=(), every_bit=False):
    """Distinguishing relations: (kind, relation, expected constant, pattern A, pattern B, formula under B)."""
    import z3

    view = View(w, rank, own)
    pool = w.pool
    out = []
    subs = [(n, assign(pool, secret, f)) for n, f in patterns()]
    done = {}
    for n, sub in subs:
        done[n] = view.closure(sub)
    items = dict((it, b) for b, it in view.bits)
    for na, a in subs:
        rows, pts = done[na]
        for rel, c in rows.relations:
            for nb, b in subs:
                if nb == na:
                    continue
                tot = set()
                for it in rel:
                    tot ^= value(view, items, it, b)
                c2 = ONE_M in tot
                tot.discard(ONE_M)
                if tot or int(c2) != c:
                    e = pool.expr(frozenset(tot)) if tot else z3.BoolVal(False)
                    out.append(("bits", rel, c, na, nb, (e if not c2 else z3.Not(e)) == z3.BoolVal(bool(c))))
                    break
        for comb, c in pts.relations:
            for nb, b in subs:
                if nb != na:
                    tot = {}
                    for k, v in comb.items():
                        tot = ideal.p_add(tot, psub(view.points[k][0], b), v)
                    if tot != ({(): c} if c else {}):
                        out.append(("points", tuple((view.points[k][1], v) for k, v in sorted(comb.items())), c, na, nb, z3.BoolVal(False)))
                        break
        if len(out) > 3:
            break
    return out


def value(view, items, it, sub):
    """The item's bit under another substitution."""
    if it[0] == "msg":
        return set(sub(items[it]))
    if it[0] == "fn":
        # the same function of what the observer holds: look it up by the arguments' values under the substitution
        fn, width, args, i, j = it[1:]
        xs = []
        for k, v in args:
            if k == "bits":
                bits = []
                for its, c in v:
                    t = set()
                    for x in its:
                        t ^= value(view, items, x, sub)
                    if c:
                        t ^= {ONE_M}
                    bits.append(frozenset(t))
                xs.append(W(bits).small())
            elif k == "point":
                p = ideal.p_const(v[1])
                held = {it: q for q, it in view.points}
                for n, co in v[0]:
                    p = ideal.p_add(p, psub(held[n], sub), co)
                xs.append(classes()["Pt"](p))
            else:
                xs.append(v)
        outs = view.w._apply(fn, xs, width, i + 1)
        return set(sub(as_bits(outs[i], width)[j]))
    if it[0] == "open":
        ct = next(c for c, i in view.cts if i == it[1])
        for x, ks in zip(ct.k, it[2]):
            for b, g in zip(as_bits(x, 8), ks):
                t = set(sub(b))
                for y in g[0]:
                    t ^= value(view, items, y, sub)
                if t != ({ONE_M} if g[1] else set()):
                    return {()}  # it no longer opens: that itself tells the secrets apart
        x = list(flatten(ct.pt))[it[3]][1]
        return set(sub(as_bits(x, 64)[it[4]]))
    raise KeyError(it)


# ---------------------------------------------------------------- replay on a real run


class Real:
    """The observer's view in a real run, item by item."""

    def __init__(self, w, rank, own=()):
        from mplang.backends.tensor_impl import TensorValue

        self.msgs = [v for s, d, v in w.log if d == rank and s != rank] + list(own)
        self.flat = {}
        self.T = TensorValue

    def elem(self, k, j):
        if k not in self.flat:
            self.flat[k] = list(self.flatten(self.msgs[k]))
        return self.flat[k][j]

    def flatten(self, v):
        if isinstance(v, self.T):
            v = v.unwrap()
        if isinstance(v, np.ndarray):
            for x in v.ravel():
                yield x
        elif isinstance(v, (list, tuple)):
            for x in v:
                yield from self.flatten(x)
        else:
            yield v

    def bit(self, it):
        if it[0] == "msg":
            return int(self.elem(it[1], it[2])) >> it[3] & 1
        if it[0] == "fn":
            fn, width, args, i, j = it[1:]
            return self.call(fn, args)[i] >> j & 1
        if it[0] == "open":
            from mplang.edsl.registry import get_impl

            ct = self.elem(it[1][1], it[1][2])
            key = bytes(sum(self.form(g) << b for b, g in enumerate(ks)) for ks in it[2])
            op = type("Op", (), {"attrs": {"algo": "aes-gcm"}})()
            pt = get_impl("crypto.sym_decrypt")(None, op, self.T(np.frombuffer(key, dtype=np.uint8)), ct)
            x = list(self.flatten(pt))[it[3]]
            return int(x) >> it[4] & 1

    def form(self, g):
        r = g[1]
        for it in g[0]:
            r ^= self.bit(it)
        return r

    def call(self, fn, args):
        from mplang.edsl.registry import get_impl

        words = []
        for k, v in args:
            if k == "bits":
                words.append(sum(self.form(g) << b for b, g in enumerate(v)))
            elif k == "point":
                words += list(self.encode(self.point(v)))
            else:
                words.append(v)
        if fn == "sha256":
            return list(hashlib.sha256(bytes(words)).digest())
        if fn == "aes":
            op = type("Op", (), {"attrs": {"length": 64}})()
            return [int(x) for x in np.asarray(get_impl("field.aes_expand")(None, op, self.T(np.array([words], dtype=np.uint64))).unwrap()).ravel()]
        raise KeyError(fn)

    def encode(self, p):
        from mplang.edsl.registry import get_impl

        return bytes(get_impl("crypto.ec_point_to_bytes")(None, None, p).unwrap())

    def point(self, v):
        from mplang.edsl.registry import get_impl

        mul, add = get_impl("crypto.ec_mul"), get_impl("crypto.ec_add")
        acc = mul(None, None, get_impl("crypto.ec_generator")(None, None), v[1]) if v[1] else None
        for it, co in v[0]:
            acc = add(None, None, acc, mul(None, None, self.held_point(it), co))
        return acc

    def held_point(self, it):
        import coincurve
        from mplang.backends.crypto_impl import ECPointValue

        if it[0] == "pt":
            return self.elem(it[1], it[2])
        b = bytes(int(self.elem(it[1], it[2] + i)) for i in range(65))
        return ECPointValue(coincurve.PublicKey(b))

    def sum_points(self, comb, c):
        """sum(coef * point) - c * G is the identity?"""
        from mplang.edsl.registry import get_impl

        mul, add = get_impl("crypto.ec_mul"), get_impl("crypto.ec_add")
        G = get_impl("crypto.ec_generator")(None, None)
        acc = None
        for it, co in comb:
            acc = add(None, None, acc, mul(None, None, self.held_point(it), co))
        want = mul(None, None, G, c) if c else None
        enc = lambda p: None if p is None else p.unwrap()
        return enc(acc) == enc(want)


def judge(E, run, rank, secret, label):
    """Check that no relation distinguishes; concretely, that none of those found survives real runs.

    run(E, real, pattern) -> (world, own): a symbolic run when `real` is false, otherwise a real one whose secrets follow
    the pattern."""
    import z3

    w, own = run(False, None)
    found = leaks(w, rank, secret, own=own)
    if not found:
        E.check(True, label)
        return
    kind, rel, c, na, nb, formula = found[0]
    if not E.concrete:
        E.check(formula, label, f"a relation of {len(rel)} received values holds for secrets '{na}' but not for '{nb}'")
        return

    def holds(pat):
        rw, rown = run(True, pat)
        real = Real(rw, rank, rown)
        if kind == "points":
            return real.sum_points(rel, c)
        return sum(real.bit(it) for it in rel) % 2 == c

    pats = dict(patterns())
    ok = holds(pats[na]) and any(not holds(pats[nb]) for _ in range(8))
    E.check(not ok, label, f"a relation of {len(rel)} received values holds for secrets '{na}' but not for '{nb}'")
