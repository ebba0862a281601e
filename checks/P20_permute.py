"""Secure permutation and group-by: the real protocols on every party's real interpreter; data and coins unknown, permutations
and group assignments chosen by the solver; results compared with the plain counterparts, views examined for leaks."""

import functools

import numpy as np

from vp import ideal, proto, seal, views
from vp.anf import W
from vp.anf import Unencodable
from vp.sym import explore
from vp.zp import Unknowns, Zp

from .P17_ot import Concrete, Symbolic, attempt, chosen, mp_type, pick_parties, tensor_is, tensor_of

FUNCS = ("analytics.permutation.apply_permutation/secure_switch", "analytics.groupby.oblivious_groupby_sum_bfv/oblivious_groupby_sum_shuffle", "ot.base.transfer", "simp workers and their communication", "StableHLO text of every run_jax")
ASSUMPTIONS = ("the curve group is ideal, SHA-256 opaque (see P17); BFV is ideal (see P22)", "secrecy is decided against linear attacks")


def units(tier):
    us = [("permute", permute, 6), ("permute-8", permute_8, 4), ("switch", switch, 2), ("permute-views", permute_views, 2), ("bfv-sums", bfv_sums, 4), ("shuffle-sums", shuffle_sums, 4)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


def pick_perm(E, n):
    left, out = list(range(n)), []
    for i in range(n):
        out.append(left.pop(E.choose(f"p{i}", len(left)) if len(left) > 1 else 0))
    return out


def permute(tier):
    from mplang.libs.mpc.analytics import permutation as P

    def h(E):
        w = ideal.World(E)
        s, r = pick_parties(E) if tier != "quick" else (0, 1)
        n = int(E.int("n", 1, 4 if tier == "quick" else 5))
        kind = E.pick("kind", ["tensor", "list"])
        if kind != "tensor" and n not in (1, 3):
            return
        if tier == "quick" and n == 3 and kind == "tensor":
            return
        dt = E.pick("dtype", ["int64", "uint8"]) if n == 2 else "int64"
        pdt = E.pick("perm_dtype", ["int64", "int32"]) if n < 3 else "int64"
        perm = pick_perm(E, n)
        shape = (n,)
        d = w.tensor("d", shape, dt)
        p = tensor_of(perm, pdt, (n,))
        xs = ideal.elems(d)[0]
        want = [xs[i] for i in perm]
        bits = np.dtype(dt).itemsize * 8
        if kind == "list":
            ins = {f"d{i}": (s, mp_type(dt, ()), one(E, xs[i], dt)) for i in range(n)}
            ins["p"] = (r, mp_type(pdt, (n,)), p)
            out = attempt(E, lambda: proto.run(E, w, lambda **a: tuple(P.apply_permutation([a[f"d{i}"] for i in range(n)], a["p"], s, r)), ins))
            if out is None:
                return
            got = out[0]
            E.check(len(got[r]) == n, "as many items")
            for g, x in zip(got[r], want):
                tensor_is(E, w, g, (), bits, [x], "permuted")
        else:
            ins = {"d": (s, mp_type(dt, shape), d), "p": (r, mp_type(pdt, (n,)), p)}
            out = attempt(E, lambda: proto.run(E, w, lambda d, p: P.apply_permutation(d, p, s, r), ins))
            if out is None:
                return
            got = out[0]
            tensor_is(E, w, got[r][0], shape, bits, want, "permuted")
        E.check(all(v is None for v in got[s]), "the data owner has no result")
        E.cover("ran")

    explore(h, unit="permute", expect=("ran", "permuted"), functions=FUNCS, max_seconds=2400, validate=2, bounds=f"every permutation of up to {4 if tier == 'quick' else 5} items, as vector and list; all data and coins")


def chain_perms(n):
    """Permutations whose threshold images cover every 0-1 vector (a symmetric chain decomposition): by the 0-1 principle a
    compare-exchange network that routes these routes every permutation."""
    import itertools

    chains = {}
    for bits in itertools.product((0, 1), repeat=n):
        # bracket matching: the matched positions name the chain
        st, matched = [], [None] * n
        for i, b in enumerate(bits):
            if b:
                st.append(i)
            elif st:
                j = st.pop()
                matched[j], matched[i] = 1, 0
        chains.setdefault(tuple(matched), []).append(bits)
    out = []
    for ch in chains.values():
        ch.sort(key=sum)
        base = ch[0]
        order = [i for i in range(n) if base[i]]
        cur = base
        for nxt in ch[1:]:
            order.append(next(i for i in range(n) if nxt[i] != cur[i]))
            cur = nxt
        order += [i for i in range(n) if not cur[i]]
        out.append(order[::-1])  # order[0] gets the largest value
    return out


def permute_8(tier):
    from mplang.libs.mpc.analytics import permutation as P

    perms = {8: chain_perms(8), 6: [[5, 3, 1, 0, 2, 4], [1, 2, 3, 4, 5, 0]], 5: [[4, 2, 0, 3, 1], [3, 4, 0, 1, 2]]}
    if tier == "quick":
        perms[8] = perms[8][::7]

    def h(E):
        w = ideal.World(E)
        n = E.pick("n", [8, 6, 5])
        perm = E.pick("perm", perms[n])
        d = w.tensor("d", (n,), "int64")
        xs = ideal.elems(d)[0]
        ins = {"d": (0, mp_type("int64", (n,)), d), "p": (1, mp_type("int64", (n,)), tensor_of(perm, "int64", (n,)))}
        out = attempt(E, lambda: proto.run(E, w, lambda d, p: P.apply_permutation(d, p, 0, 1), ins))
        if out is None:
            return
        tensor_is(E, w, out[0][1][0], (n,), 64, [xs[i] for i in perm], "permuted")
        E.cover("ran")

    explore(h, unit="permute-8", expect=("ran", "permuted"), functions=FUNCS, max_seconds=2400, validate=1,
            bounds="8 items: permutations covering every threshold image (complete for compare-exchange networks; quick: every seventh), two of 6 and of 5; all data")


def one(E, x, dt):
    from mplang.backends.tensor_impl import TensorValue

    if E.concrete:
        return TensorValue(np.array(x, dtype=dt))
    a = np.empty((), dtype=object)
    a[()] = x
    return TensorValue(a)


def switch(tier):
    from mplang.libs.mpc.analytics import permutation as P

    def h(E):
        w = ideal.World(E)
        s, r = pick_parties(E)
        n = int(E.int("n", 0, 2))
        shape = (n,) if n else ()
        cdt = E.pick("control", ["bool", "int64", "uint8"])
        x0, x1 = w.tensor("x0", shape, "int64"), w.tensor("x1", shape, "int64")
        c = w.tensor("c", shape, cdt, "choice", 1)
        ins = {"x0": (s, mp_type("int64", shape), x0), "x1": (s, mp_type("int64", shape), x1), "c": (r, mp_type(cdt, shape), c)}
        out = attempt(E, lambda: proto.run(E, w, lambda x0, x1, c: P.secure_switch(x0, x1, c, s, r), ins))
        if out is None:
            return
        got = out[0][r]
        a, b, cs = ideal.elems(x0)[0], ideal.elems(x1)[0], ideal.elems(c)[0]
        tensor_is(E, w, got[0], shape, 64, [chosen(x, y, z) for x, y, z in zip(a, b, cs)], "first-output")
        tensor_is(E, w, got[1], shape, 64, [chosen(y, x, z) for x, y, z in zip(a, b, cs)], "second-output")
        E.check(out[0][s][0] is None and out[0][s][1] is None, "the data owner has no result")
        E.cover("ran")

    explore(h, unit="switch", expect=("ran", "first-output", "second-output"), functions=FUNCS, max_seconds=2400, validate=2, bounds="scalar and vectors up to 2, three control types; all values")


def permute_views(tier):
    """The data owner's view for two permutations told apart by a secret bit."""
    from mplang.libs.mpc.analytics import permutation as P

    cases = [((0, 1), (1, 0)), ((0, 1, 2), (2, 1, 0)), ((1, 0, 2), (0, 2, 1))]
    if tier != "quick":
        cases += [((0, 1, 2, 3), (3, 2, 1, 0)), ((1, 0, 3, 2), (1, 2, 3, 0))]

    def h(E):
        pa, pb = E.pick("pair", cases)
        n = len(pa)
        s, r = 0, 1

        def run(real, pat):
            w = ideal.World(Concrete if real else Symbolic(), fixed={s: "obs"})
            data = tensor_of([11, 22, 33, 44][:n], "int64", (n,))
            if real:
                p = tensor_of(pb if pat(("c_0", 0)) else pa, "int64", (n,))
            else:
                bit = ideal.elems(w.tensor("c", (1,), "uint8", "choice", 1))[0][0]
                words = np.empty(n, dtype=object)
                for i in range(n):
                    words[i] = ideal.anf.wxor(pa[i], spread(bit, pa[i] ^ pb[i]), 64)
                from mplang.backends.tensor_impl import TensorValue

                p = TensorValue(words)
            ins = {"d": (s, mp_type("int64", (n,)), data), "p": (r, mp_type("int64", (n,)), p)}
            proto.run(E, w, lambda d, p: P.apply_permutation(d, p, s, r), ins)
            return w, []

        views.judge(E, run, s, lambda label: str(label[0]).startswith("c_"), "the data owner learns nothing of the permutation")
        E.cover("ran")

    explore(h, unit="permute-views", expect=("ran",), functions=FUNCS, max_seconds=2400, validate=0, bounds=f"pairs of permutations {cases}")


def spread(bit, mask):
    """bit ? mask : 0 as a 64-bit word."""
    b = bit.b[0]
    from vp.anf import ZERO

    return W([b if mask >> i & 1 else ZERO for i in range(64)])


# ------------------------------------------------------------------ group-by


def numbers(E, u, n, name="d", lo=-1000, hi=1000):
    """A tensor of unknown integers."""
    from mplang.backends.tensor_impl import TensorValue

    xs = [u.var(f"{name}{i}", lo, hi) for i in range(n)]
    if E.concrete:
        return xs, TensorValue(np.array(xs, dtype=np.int64))
    return xs, TensorValue(ideal.obj(xs))


def pick_bins(E, n, K):
    return [E.choose(f"bin{i}", K) if K > 1 else 0 for i in range(n)]


def sums_are(E, u, got, xs, bins, K, label, modulus=0):
    a = got.unwrap()
    E.check(tuple(a.shape) == (K,), label + ": one sum per group")
    for k in range(K):
        u.same(a[k], sum([x for x, b in zip(xs, bins) if b == k], Zp({}) if not E.concrete else 0), label, modulus)


def bfv_sums(tier):
    """Sums computed under encryption; the observer is the data owner, who decrypts them."""
    from mplang.libs.mpc.analytics import groupby as G

    cases = [(8, 2, 3), (8, 4, 2), (8, 5, 2), (4096, 2, 2)] + ([(8, 1, 1), (16, 9, 2), (8, 9, 1), (8, 4, 3), (8, 6, 2), (4096, 3, 3)] if tier != "quick" else [(16, 9, 1)])

    def h(E):
        degree, n, K = E.pick("case", cases)
        bins = pick_bins(E, n, K)
        u = Unknowns.of(E)
        w = ideal.World(E)
        s, r = (1, 0) if n % 2 else (0, 1)
        xs, d = numbers(E, u, n)
        ins = {"d": (s, mp_type("int64", (n,)), d), "b": (r, mp_type("int64", (n,)), tensor_of(bins, "int64", (n,)))}
        with seal.patched(not (E.concrete and degree >= 4096)):
            seal.WANTED = [0] if degree >= 4096 else None
            try:
                out, _ = proto.run(E, w, lambda d, b: G.oblivious_groupby_sum_bfv(d, b, K, sender=s, receiver=r, poly_modulus_degree=degree), ins)
            finally:
                seal.WANTED = None
            sums_are(E, u, out[r][0], xs, bins, K, "group-sum")
            E.check(out[s][0] is None, "the data owner has no result")
            if degree < 4096:
                if E.concrete:  # data whose sums show their terms: the base-4 digits
                    seal.OPENED.clear()
                    w = ideal.World(E)
                    ins["d"] = (s, ins["d"][1], tensor_of([4**i for i in range(n)], "int64", (n,)))
                    proto.run(E, w, lambda d, b: G.oblivious_groupby_sum_bfv(d, b, K, sender=s, receiver=r, poly_modulus_degree=degree), ins)
                for v in seal.OPENED:
                    for i in range(degree):
                        x = v.get(i)
                        co = [int(x) // 4**j % 4 for j in range(n)] if E.concrete else [Zp.of(x).d.get((f"d{j}",), 0) for j in range(n)]
                        for j in range(n):
                            for k in range(j):
                                if bins[j] == bins[k]:
                                    E.check(co[j] == co[k], "the data owner decrypts sums of whole groups only")
                                    E.cover("owner-view")
        E.cover("ran")

    explore(h, unit="bfv-sums", expect=("ran", "group-sum", "owner-view"), functions=FUNCS, max_seconds=2400, validate=2,
            bounds=f"(slots, items, groups) in {cases}: every assignment of items to groups, all data")


class CoinByte:
    """Byte i of an unknown eight-byte coin."""

    def __init__(self, name, i):
        self.name, self.i = name, i

    def join(self, parts, t):
        if [getattr(p, "name", None) for p in parts] != [self.name] * 8 or [p.i for p in parts] != list(range(8)):
            raise Unencodable("a word of bytes of different coins")
        return Zp({(self.name,): 1})


class CoinWorld(ideal.World):
    """Random bytes are read as whole 64-bit words (elements of the additive group modulo 2^64); decryptions are recorded."""

    def random_bytes(self, interp, op):
        from mplang.backends.tensor_impl import TensorValue

        n = op.attrs["length"]
        if n % 8 or self.E.concrete:
            return super().random_bytes(interp, op)
        self.n += 1
        return TensorValue(ideal.obj([CoinByte(f"coin{self.n}_{i // 8}", i % 8) for i in range(n)]))

    opened: tuple = ()

    def sym_decrypt(self, interp, op, key, ct, **kw):
        v = self.real(interp, op, key, ct) if self.E.concrete else super().sym_decrypt(interp, op, key, ct, **kw)
        self.opened += ((self.rank(interp), v),)
        return v

    def handlers(self):
        return {**super().handlers(), "crypto.sym_decrypt": self.sym_decrypt}

    def seen(self, p):
        """{place: element} of what party p can read (ciphertexts are opened by decryption only: see base-views in P17)."""
        out = {}
        for kind, vs in (("msg", [v for _, b, v in self.log if b == p]), ("dec", [v for b, v in self.opened if b == p])):
            for i, v in enumerate(vs):
                a = v.unwrap() if hasattr(v, "unwrap") else v
                if isinstance(a, np.ndarray):
                    out.update({(kind, i, j): x for j, x in enumerate(a.ravel())})
        return out


def is_points(v):
    a = v.unwrap() if hasattr(v, "unwrap") else v
    pt = ideal.classes()["Pt"]
    return isinstance(v, pt) or isinstance(a, np.ndarray) and a.dtype == object and all(isinstance(x, pt) for x in a.ravel())


def shuffle_sums(tier):
    from mplang.libs.mpc.analytics import groupby as G

    cases = [(2, 2), (3, 2)] + ([(1, 1), (4, 2), (3, 3), (5, 2)] if tier != "quick" else [])

    def h(E):
        import z3

        n, K = E.pick("case", cases)
        s, r, hp = E.pick("roles", [(0, 1, 2), (2, 0, 1), (1, 2, 0)] if n < 3 else [(0, 1, 2)])
        bins = pick_bins(E, n, K)

        def go(E, d):
            w = CoinWorld(E)
            ins = {"d": (s, mp_type("int64", (n,)), d), "b": (r, mp_type("int64", (n,)), tensor_of(bins, "int64", (n,)))}
            out = proto.run(E, w, lambda d, b: G.oblivious_groupby_sum_shuffle(d, b, K, sender=s, receiver=r, helper=hp), ins, parties=3)
            return w, out[0]

        u = Unknowns.of(E)
        xs, d = numbers(E, u, n, lo=-(2**63), hi=2**63 - 1)
        got = attempt(E, lambda: go(E, d))
        if got is None:
            return
        w, out = got
        sums_are(E, u, out[r][0], xs, bins, K, "group-sum", 1 << 64)
        E.check(out[s][0] is None and out[hp][0] is None, "only the receiver has the sums")
        if E.concrete:
            sym = Symbolic()
            w, _ = go(sym, numbers(sym, Unknowns(sym), n)[1])
        E.check(not any(dst == s and not is_points(v) for _, dst, v in w.log), "the data owner is sent nothing but transfer requests")
        for p, label in ((hp, "the helper learns nothing of the data"), (r, "the receiver learns of the data only the group sums")):
            forms = {k: x for k, x in w.seen(p).items() if isinstance(x, Zp)}
            # an integer combination free of coins that tells apart two items of a group (helper: that depends on an item)
            coins = sorted({m for f in forms.values() for m in f.d if m and not m[0].startswith("d")})
            lam = {k: z3.Int("lam_" + "_".join(map(str, k))) for k in forms}
            co = [z3.Sum([z3.IntVal(0)] + [lam[k] * f.d.get((f"d{j}",), 0) for k, f in forms.items()]) for j in range(n)]
            diff = [co[j] != co[k] for j in range(n) for k in range(j) if bins[j] == bins[k]] if p == r else [c != 0 for c in co]
            if not diff:
                continue
            E.cover("view")
            q = z3.Solver()
            q.add(*[z3.Sum([z3.IntVal(0)] + [lam[k] * f.d.get(m, 0) for k, f in forms.items()]) == 0 for m in coins], z3.Or(*diff))
            leak = q.check() != z3.unsat
            if leak and E.concrete:
                m = q.model()
                val = lambda t: m.eval(t, model_completion=True).as_long()
                for data in ([5 + 3**i for i in range(n)], [-(7**i) for i in range(n)]):
                    rw, _ = go(Concrete, tensor_of([x % (1 << 64) for x in data], "int64", (n,)))
                    seen = rw.seen(p)
                    lhs = sum(val(lam[k]) * int(seen[k]) for k in forms)
                    rhs = sum(val(c) * x for c, x in zip(co, data)) + sum(val(lam[k]) * f.const() for k, f in forms.items())
                    leak = leak and (lhs - rhs) % (1 << 64) == 0
            E.check(not leak, label)
        E.cover("ran")

    explore(h, unit="shuffle-sums", expect=("ran", "group-sum", "view"), functions=FUNCS, max_seconds=2400, validate=2,
            bounds=f"(items, groups) in {cases}: every assignment of items to groups, all 64-bit data and masks")
