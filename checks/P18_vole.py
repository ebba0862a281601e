"""Vector OLE: the real protocols run on both parties' real interpreters; secrets and coins are unknown bits, every output
bit is compared with v + u * delta as a polynomial over the unknowns."""

import functools

from checks.P17_ot import Concrete, Symbolic, mp_type, secret_tensor, tensor_of, wordeq
from vp import anf, ideal, proto, views
from vp.anf import as_bits
from vp.sym import explore

FUNCS = ("vole.gilboa.vole", "silent.silent_vole_random_u", "ot.extension.iknp_core", "ot.base.transfer", "simp workers and their communication", "StableHLO text of every run_jax")
ASSUMPTIONS = ("the curve group is ideal, SHA-256 and the AES expansion are opaque functions whose longer outputs extend shorter ones, AES-GCM decrypts only under the encryption key, field.mul is GF(2^128) multiplication (decided by P15)",
               "secrecy (views units) is decided against linear attacks: xor sums of received bits, of coins, and of expansions of values the party can form")


def units(tier):
    us = [("gilboa", gilboa, 3), ("silent", silent, 3), ("views", vviews, 2)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def pair(x, i):
    return as_bits(ideal.unint(x[2 * i]), 64) + as_bits(ideal.unint(x[2 * i + 1]), 64)


def gf_real(a, b):
    r = 0
    for i in range(128):
        if (b >> i) & 1:
            r ^= a << i
    for i in range(254, 127, -1):
        if (r >> i) & 1:
            r ^= (1 << i) ^ (0x87 << (i - 128))
    return r


def relation(E, w, v, wv, u, delta, n, label):
    shapes = [ideal.elems(t)[1] for t in (v, wv, u, delta)]
    E.check(shapes == [(n, 2), (n, 2), (n, 2), (2,)], label + ": shapes")
    if shapes != [(n, 2), (n, 2), (n, 2), (2,)]:
        return
    vx, wx, ux, dx = (ideal.elems(t)[0] for t in (v, wv, u, delta))
    for i in range(n):
        if E.concrete:
            f = lambda x, k: (int(x[2 * k]) & (2**64 - 1)) | (int(x[2 * k + 1]) & (2**64 - 1)) << 64
            E.check(f(wx, i) == f(vx, i) ^ gf_real(f(ux, i), f(dx, 0)), label)
            continue
        prod = anf.gf_mul(pair(ux, i), pair(dx, 0))
        want = [anf.xor(a, b) for a, b in zip(pair(vx, i), prod)]
        wordeq(E, w, anf.W(pair(wx, i)), anf.W(want), 128, label)


def gilboa(tier):
    from mplang.libs.mpc.vole import gilboa as g

    cases = [(0, 3, False), (1, 2, True)] if tier == "quick" else [(s, n, True) for s in (0, 1) for n in (1, 2, 3, 5, 9)] + [(0, 3, False)]

    def h(E):
        w = ideal.World(E)
        s, n, ret = E.pick("case", cases)
        r = 1 - s
        u, d = w.tensor("u", (n, 2), "uint64"), w.tensor("d", (2,), "uint64", "choice")
        ins = {"u": (s, mp_type("uint64", (n, 2)), u), "d": (r, mp_type("uint64", (2,)), d)}
        out, _ = proto.run(E, w, lambda u, d: g.vole(s, r, n, (lambda: u), (lambda: d), return_secrets=ret), ins)
        E.check(out[r][0] is None and out[s][1] is None, "each vector stays with its party")
        if ret:
            E.check(out[r][2] is None and out[s][3] is None, "each secret stays with its party")
            same(E, w, out[s][2], u)
            same(E, w, out[r][3], d)
        relation(E, w, out[s][0], out[r][1], u, d, n, "w = v + u * delta")
        E.cover("ran")

    explore(h, unit="gilboa", split=1, expect=("ran", "w = v + u * delta"), functions=FUNCS, max_seconds=2400, validate=0 if tier == "quick" else 1,
            bounds=f"(sender, length, secrets returned) in {cases}; all secrets and coins")


def same(E, w, a, b):
    (x, xs), (y, ys) = ideal.elems(a), ideal.elems(b)
    E.check(xs == ys, "secret returned")
    for p, q in zip(x, y):
        wordeq(E, w, p, q, 64, "secret returned")


def silent(tier):
    from mplang.libs.mpc.ot import silent as sl

    cases = [(0, 5, 2), (1, 129, 1)] if tier == "quick" else [(s, n, k) for s in (0, 1) for n, k in ((1, 1), (2, 3), (7, 4), (128, 1), (129, 2), (200, 1))]

    def h(E):
        w = ideal.World(E)
        s, n, k = E.pick("case", cases)
        r = 1 - s
        out, _ = proto.run(E, w, lambda: sl.silent_vole_random_u(s, r, n, k), {})
        v, wv, u, d = out[s][0], out[r][1], out[s][2], out[r][3]
        E.check(out[r][0] is None and out[s][1] is None and out[r][2] is None and out[s][3] is None, "each vector stays with its party")
        relation(E, w, v, wv, u, d, n, "w = v + u * delta")
        E.cover("ran")

    explore(h, unit="silent", split=1, expect=("ran", "w = v + u * delta"), functions=FUNCS, max_seconds=2400, validate=0 if tier == "quick" else 1,
            bounds=f"(sender, length, base length) in {cases}; all coins (output chunks of 100000 and more are outside the bounds)")


def vviews(tier):
    from mplang.libs.mpc.vole import gilboa as g

    def h(E):
        who = E.pick("observer", ["sender", "receiver"])
        s, r = (0, 1) if who == "sender" else (1, 0)
        n = 2

        def run(real, pat):
            w = ideal.World(Concrete if real else Symbolic(), fixed={0: "obs"})
            if who == "sender":
                u, d = tensor_of([7, 2**63 + 5, 1, 9], "uint64", (2, 2)), secret_tensor(w, real, pat, "d", (2,), "uint64", "choice")
            else:
                u, d = secret_tensor(w, real, pat, "u", (2, 2), "uint64"), tensor_of([11, 2**40 + 1], "uint64", (2,))
            ins = {"u": (s, mp_type("uint64", (n, 2)), u), "d": (r, mp_type("uint64", (2,)), d)}
            proto.run(E, w, lambda u, d: g.vole(s, r, n, (lambda: u), (lambda: d)), ins)
            return w, []

        views.judge(E, run, 0, lambda label: str(label[0])[:2] in ("u_", "d_"), who + " learns nothing of the other's secret")
        E.cover("ran")

    explore(h, unit="views", split=1, expect=("ran",), functions=FUNCS, max_seconds=2400, validate=0,
            bounds="two correlations; sender's view for all deltas, receiver's view for all u (the observer's own secret and coins are constants)")
