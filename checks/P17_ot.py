"""Oblivious transfer: the real protocols run on both parties' real interpreters with every message, choice bit and coin
unknown; group, hash and cipher are ideal.  The receiver's result is compared with the definition, and each party's view
is examined for relations that depend on what it must not learn."""

import functools

import numpy as np

from vp import ideal, proto, views
from vp.anf import ONE, ZERO, W, as_bits
from vp.sym import explore

FUNCS = ("ot.base.transfer", "ot.extension.iknp_core/prg_expand/vec_hash/transfer_extension", "silent.silent_vole_random_u", "simp workers and their communication", "StableHLO text of every run_jax")
ASSUMPTIONS = ("the curve group is ideal (discrete logarithms are unknown scalars), SHA-256 and the AES expansion are opaque functions whose longer outputs extend shorter ones, AES-GCM decrypts only under the encryption key",
               "secrecy is decided against linear attacks: xor sums of received bits, of coins, and of hash outputs whose inputs the party can form; linear combinations of group elements, the observer's coins being fixed constants")


def units(tier):
    us = [("base", base, 3), ("extension", extension, 3), ("iknp", iknp, 3), ("base-views", base_views, 2), ("extension-views", ext_views, 3)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def mp_type(dt, shape):
    import mplang.edsl.typing as T

    m = {"int64": T.i64, "int32": T.i32, "uint8": T.u8, "bool": T.bool_, "uint64": T.u64, "int8": T.i8, "uint16": T.u16}
    return T.TensorType(m[dt], shape)


def wordeq(E, w, got, want, width, label):
    """The two words are equal for every value of the unknowns."""
    if E.concrete:
        E.check(int(got) & ((1 << width) - 1) == int(want) & ((1 << width) - 1), label)
        return
    import z3

    if not isinstance(got, (int, W, bool)):
        E.check(False, label)
        return
    if not isinstance(got, W):
        got = int(got) & ((1 << width) - 1)
    d = w.pool.differ(got, want if isinstance(want, W) else int(want) & ((1 << width) - 1)) if isinstance(got, W) or isinstance(want, W) else (None if got == int(want) & ((1 << width) - 1) else z3.BoolVal(True))
    E.check(z3.BoolVal(True) if d is None else z3.Not(d), label)


def tensor_is(E, w, value, shape, width, want, label):
    xs, sh = ideal.elems(value)
    E.check(tuple(sh) == tuple(shape), label + "-shape")
    if tuple(sh) == tuple(shape):
        for x, y in zip(xs, want):
            wordeq(E, w, x, y, width, label)


def pick_parties(E):
    s = int(E.int("sender", 0, 1))
    return s, 1 - s


def attempt(E, f):
    """Run a protocol; an ideal decryption failure is a violation like the real one."""
    try:
        return f()
    except Exception as e:
        if isinstance(e, (ideal.WrongKey,)) or type(e).__name__ in ("InvalidTag",):
            E.check(False, "the receiver can decrypt its ciphertext")
            return None
        raise


def base(tier):
    from mplang.libs.mpc.ot import base as ot

    def h(E):
        w = ideal.World(E)
        s, r = pick_parties(E)
        dt = E.pick("dtype", ["int64", "uint8", "int32"])
        cdt = E.pick("choice", ["int64", "uint8", "bool"])
        rank = int(E.int("rank", 0, 2))
        shape = () if rank == 0 else (int(E.int("n", 1, 3)),) if rank == 1 else (2, int(E.int("n", 1, 2)))
        m0, m1 = w.tensor("m0", shape, dt), w.tensor("m1", shape, dt)
        c = w.tensor("c", shape, cdt, "choice", 1)
        ins = {"m0": (s, mp_type(dt, shape), m0), "m1": (s, mp_type(dt, shape), m1), "c": (r, mp_type(cdt, shape), c)}
        out = attempt(E, lambda: proto.run(E, w, lambda m0, m1, c: ot.transfer(m0, m1, c, s, r), ins))
        if out is None:
            return
        got = out[0][r][0]
        bits = np.dtype(dt).itemsize * 8
        want = [chosen(x, y, z) for x, y, z in zip(ideal.elems(m0)[0], ideal.elems(m1)[0], ideal.elems(c)[0])]
        tensor_is(E, w, got, shape, bits, want, "chosen")
        E.check(out[0][s][0] is None, "sender has no result")
        E.cover("ran")

    explore(h, unit="base", expect=("ran", "chosen"), functions=FUNCS, max_seconds=2400, validate=3,
            bounds="scalar, vector up to 3 and matrix up to 2x2 messages, 3 element types, 3 choice types, both role assignments; all messages, choices and coins")


def chosen(m0, m1, c):
    if isinstance(c, W):
        return ideal.mux(c.b[0], m1, m0)
    return m1 if c else m0


def extension(tier):
    from mplang.libs.mpc.ot import extension as ext

    sizes = [(0, 1, 16), (1, 9, 2), (0, 3, 32)] if tier == "quick" else [(s, n, d) for s in (0, 1) for n in (1, 2, 3, 5, 8, 9, 17, 33) for d in (1, 2, 16, 31, 32)]

    def h(E):
        w = ideal.World(E)
        s, n, d = E.pick("case", sizes)
        r = 1 - s
        m0, m1 = w.tensor("m0", (n, d), "uint8"), w.tensor("m1", (n, d), "uint8")
        c = w.tensor("c", (n,), "uint8", "choice", 1)
        ins = {"m0": (s, mp_type("uint8", (n, d)), m0), "m1": (s, mp_type("uint8", (n, d)), m1), "c": (r, mp_type("uint8", (n,)), c)}
        out, _ = proto.run(E, w, lambda m0, m1, c: ext.transfer_extension(m0, m1, c, s, r, n), ins)
        a, b, ch = ideal.elems(m0)[0], ideal.elems(m1)[0], ideal.elems(c)[0]
        want = [chosen(a[i * d + j], b[i * d + j], ch[i]) for i in range(n) for j in range(d)]
        tensor_is(E, w, out[r][0], (n, d), 8, want, "chosen")
        E.check(out[s][0] is None, "sender has no result")
        E.cover("ran")

    explore(h, unit="extension", split=1, expect=("ran", "chosen"), functions=FUNCS, max_seconds=2400, validate=0 if tier == "quick" else 1,
            bounds=f"(sender, transfers, bytes) in {sizes}; all messages, choices and coins")


def iknp(tier):
    from mplang.libs.mpc.ot import extension as ext

    def h(E):
        w = ideal.World(E)
        s, n, two = E.pick("case", [(0, 1, False), (1, 130, False), (0, 3, True)] if tier == "quick" else [(s, n, t) for s in (0, 1) for n in (1, 2, 7, 8, 9, 16) for t in (False, True)] + [(0, 130, False)])
        r = 1 - s
        shape = (n, 128) if two else (n,)
        c = w.tensor("c", shape, "uint8", "choice", 1)
        out, _ = proto.run(E, w, lambda c: ext.iknp_core(c, s, r, n), {"c": (r, mp_type("uint8", shape), c)})
        t, q, sv = out[s][0], out[r][1], out[s][2]
        E.check(out[r][0] is None and out[s][1] is None and out[r][2] is None, "each matrix stays with its party")
        (tx, tsh), (qx, qsh), (sx, ssh) = ideal.elems(t), ideal.elems(q), ideal.elems(sv)
        E.check(tsh == (n, 128) and qsh == (n, 128) and ssh == (128,), "shapes")
        cx = ideal.elems(c)[0]
        for i in range(n):
            for j in range(128):
                ci = cx[i * 128 + j] if two else cx[i]
                prod = ideal.anf.wand(ci, sx[j], 1) if isinstance(ci, W) or isinstance(sx[j], W) else ci & sx[j]
                want = ideal.anf.wxor(qx[i * 128 + j], prod, 1) if not E.concrete else qx[i * 128 + j] ^ prod
                wordeq(E, w, tx[i * 128 + j], want, 8, "t = q + choice * s")
        E.cover("ran")

    explore(h, unit="iknp", split=1, expect=("ran", "t = q + choice * s"), functions=FUNCS, max_seconds=2400, validate=0 if tier == "quick" else 1,
            bounds="1, 3 and 130 rows (thorough: more in between), vector and matrix choices; all choices and coins")
class Symbolic:
    """The unknowns of a symbolic run made for its view (never the engine's own inputs)."""

    concrete = False

    def bv(self, name, w):
        import z3

        return z3.BitVec(name, w)


class Concrete:
    concrete = True


def tensor_of(vals, dt, shape):
    from mplang.backends.tensor_impl import TensorValue

    return TensorValue(np.array(vals, dtype=np.uint64).astype(dt).reshape(shape))


def secret_tensor(w, real, pat, name, shape, dt, kind="input", width=None):
    """Unknown words, or the words a pattern gives each of their bits."""
    wd = width or np.dtype(dt).itemsize * 8
    if not real:
        return w.tensor(name, shape, dt, kind, width)
    vals = []
    for i in np.ndindex(*shape):
        n = f"{name}_{'_'.join(map(str, i))}"
        vals.append(sum(pat((n, b)) << b for b in range(wd)))
    return tensor_of(vals, dt, shape)


def base_views(tier):
    from mplang.libs.mpc.ot import base as ot

    def h(E):
        s, r = pick_parties(E)
        who = E.pick("observer", ["sender", "receiver"])
        n, dt = 2, "uint8"
        fix = [int(E.bool(f"c{i}")) for i in range(n)] if who == "receiver" else [3, 200]

        def run(real, pat):
            obs = s if who == "sender" else r
            w = ideal.World(Concrete if real else Symbolic(), fixed={obs: "obs"})
            if who == "sender":
                m0, m1 = tensor_of(fix, dt, (n,)), tensor_of([17, 99], dt, (n,))
                c = secret_tensor(w, real, pat, "c", (n,), "uint8", "choice", 1)
            else:
                m0, m1 = secret_tensor(w, real, pat, "m0", (n,), dt), secret_tensor(w, real, pat, "m1", (n,), dt)
                c = tensor_of(fix, "uint8", (n,))
            ins = {"m0": (s, mp_type(dt, (n,)), m0), "m1": (s, mp_type(dt, (n,)), m1), "c": (r, mp_type("uint8", (n,)), c)}
            out, _ = proto.run(E, w, lambda m0, m1, c: ot.transfer(m0, m1, c, s, r), ins)
            return w, [out[r][0]] if who == "receiver" else []

        def secret(label):
            if who == "sender":
                return str(label[0]).startswith("c_")
            return any(label[0] == f"m{1 - fix[i]}_{i}" for i in range(n))

        views.judge(E, run, s if who == "sender" else r, secret, who + " learns nothing more")
        E.cover("ran")

    explore(h, unit="base-views", expect=("ran",), functions=FUNCS, max_seconds=2400, validate=0,
            bounds="two transfers; sender's view for all choices, receiver's view for all messages and each choice vector")


def ext_views(tier):
    from mplang.libs.mpc.ot import extension as ext

    def h(E):
        cfg = E.pick("case", [("sender", None), ("receiver", (0, 1)), ("receiver", (1, 0))] if tier == "quick" else [("sender", None)] + [("receiver", (a, b)) for a in (0, 1) for b in (0, 1)])
        who, fix = cfg
        s, r = (0, 1) if who == "sender" else (1, 0)
        n, d = 2, 1

        def run(real, pat):
            obs = s if who == "sender" else r
            w = ideal.World(Concrete if real else Symbolic(), fixed={obs: "obs"})
            if who == "sender":
                m0, m1 = tensor_of([5, 250], "uint8", (n, d)), tensor_of([9, 77], "uint8", (n, d))
                c = secret_tensor(w, real, pat, "c", (n,), "uint8", "choice", 1)
            else:
                m0, m1 = secret_tensor(w, real, pat, "m0", (n, d), "uint8"), secret_tensor(w, real, pat, "m1", (n, d), "uint8")
                c = tensor_of(fix, "uint8", (n,))
            ins = {"m0": (s, mp_type("uint8", (n, d)), m0), "m1": (s, mp_type("uint8", (n, d)), m1), "c": (r, mp_type("uint8", (n,)), c)}
            out, _ = proto.run(E, w, lambda m0, m1, c: ext.transfer_extension(m0, m1, c, s, r, n), ins)
            return w, [out[r][0]] if who == "receiver" else []

        def secret(label):
            if who == "sender":
                return str(label[0]).startswith("c_")
            # the unchosen messages, and the coins that mask them
            return any(label[0] == f"m{1 - fix[i]}_{i}_{j}" for i in range(n) for j in range(d))

        views.judge(E, run, s if who == "sender" else r, secret, who + " learns nothing more")
        E.cover("ran")

    explore(h, unit="extension-views", split=1, expect=("ran",), functions=FUNCS, max_seconds=2400, validate=0,
            bounds="two transfers of one byte; sender's view for all choices, receiver's view for all messages and each listed choice vector")
