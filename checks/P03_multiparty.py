"""Multi-party kernels: real tracing, real per-party interpreters, kernels, communication contexts and mailboxes; the
routing, party sets, predicates, trip counts, async completion order and thread interleaving are solver-chosen, payloads
are free terms."""

from vp import boot, mesh, mpprog as mp
from vp.sym import explore

FUNCS = ("simp worker kernels (pcall, shuffle, converge, uniform_cond, while_loop)", "CommContext", "ThreadCommunicator", "collective algorithms",
         "Interpreter.evaluate_graph", "create_request_interpreter", "simp tracing")
ASSUMPTIONS = ["party-local computation is an uninterpreted function of its operands", "in-memory transport (the HTTP transport is covered by P04/P29)"]


def units(tier):
    deep = tier == "thorough"
    return [
        ("pcall", pcall, 2),
        ("shuffle-3", lambda: shuffle(3, 1 if deep else 0), 3),
        ("shuffle-2-preempted", lambda: shuffle(2, 3), 2),
        ("shuffle-4", lambda: shuffle_total(4), 4),
        ("two-shuffles", lambda: two(3, None, deep), 4),
        ("two-shuffles-async", lambda: two(2, {"simp.shuffle"}, deep), 4),
        ("three-shuffles-async", lambda: async3(deep), 4),
        ("two-chains-async", lambda: chains(deep), 4),
        ("converge", converge, 2),
        ("cond", lambda: cond(None), 3),
        ("cond-async", lambda: cond({"simp.shuffle"}), 3),
        ("while", lambda: loop(None), 2),
        ("while-async", lambda: loop({"simp.shuffle"}), 4),
        ("loop-chains-async", lambda: loop_chains(deep), 6),
        ("failed-job", failed, 1),
        ("dynamic", dynamic, 1),
        ("dead-shuffles", dead, 2),
    ]


def go(E, prog, world, **k):
    outs = []

    def body():
        outs.extend(prog())
        return [v.obj for v in outs]

    g, types = mesh.trace(body)
    return outs, types, mesh.run_parties(E, g, world, **k)


def pcall():
    def h(E):
        W = 3
        s0, s1, P = (E.pick(n, mp.subsets(W)) for n in ("s0", "s1", "P"))
        E.assume(set(P) <= set(s0) & set(s1))
        swap = E.choose("swap", 2)

        def prog():
            a, b = mp.source(E, W, "a", s0), mp.source(E, W, "b", s1)
            return [a, mp.pcall(E, [b, a] if swap else [a, b], P, "f"), b]

        outs, types, res = go(E, prog, W)
        mp.compare(E, res, outs, W, what=f"{s0} {s1} {P}")

    explore(h, unit="pcall", expect=("value", "hole"), functions=FUNCS, bounds="3 parties, every pair of source sets and call mask, 2 operands in either order")


def shuffle(W, preempt):
    unit = f"shuffle-{W}" + ("-preempted" if W == 2 else "")

    def h(E):
        R = E.pick("routing", mp.routings(W))
        extra = E.choose("bystanders", 2)
        s0 = tuple(sorted(set(R.values()) | (set(range(W)) if extra else set())))

        def prog():
            a = mp.source(E, W, "a", s0)
            b = mp.shuffle(E, a, R)
            return [a, b, mp.pcall(E, [b], tuple(R), "f")]

        outs, types, res = go(E, prog, W, preempt=preempt)
        mp.compare(E, res, outs, W, what=f"routing {R}")

    explore(h, unit=unit, expect=("value", "terminates"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds=f"{W} parties, every partial routing, every start order, {preempt} preemption(s) at sends/receives")


def shuffle_total(W):
    def h(E):
        R = {t: E.choose(f"src{t}", W) for t in range(W)}
        order = E.choose("order", 2)
        if order:
            R = dict(reversed(list(R.items())))

        def prog():
            a = mp.source(E, W, "a", tuple(range(W)))
            return [mp.shuffle(E, a, R)]

        # one canonical start order here; orders are covered with three parties
        outs, types, res = go(Fixed(E), prog, W)
        mp.compare(E, res, outs, W, what=f"routing {R}")

    explore(h, unit="shuffle-4", expect=("value", "terminates"), functions=FUNCS, max_seconds=2400, bounds="4 parties, every total routing, both edge orders, one start order")


class Fixed:
    """Engine view whose scheduling choices always take the first alternative."""

    def __init__(self, E):
        self._E = E

    def __getattr__(self, n):
        return getattr(self._E, n)

    def choose(self, name, n):
        return 0 if name.startswith("s_") else self._E.choose(name, n)


def two(W, asy, deep):
    unit = "two-shuffles" + ("-async" if asy else "")

    def h(E):
        if W == 2:
            rs = mp.routings(2)
        else:
            rs = [r for r in mp.routings(W, total=True) if deep or len(set(r.values())) == W or len(set(r.values())) == 1] + [{0: 1}, {1: 0}, {2: 0, 0: 2}]
        R1, R2 = E.pick("R1", rs), E.pick("R2", rs)
        chain = E.choose("chain", 2)
        if chain:
            E.assume(set(R2.values()) <= set(R1))
        full = tuple(range(W))

        def prog():
            a, b = mp.source(E, W, "a", full), mp.source(E, W, "b", full)
            x = mp.shuffle(E, a, R1)
            y = mp.shuffle(E, x if chain else b, R2)
            return [x, y, mp.pcall(E, [y, b], tuple(R2), "f")]

        outs, types, res = go(E if asy else Fixed(E), prog, W, async_ops=asy, delays=(4 if deep else 2) if asy else None)
        mp.compare(E, res, outs, W, what=f"{R1} then {R2} chain={chain}")

    explore(h, unit=unit, expect=("value", "terminates"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds=f"{W} parties, every pair of routings, chained or independent" + (", shuffles asynchronous with completion orders with up to 2 delays" if asy else ""))


def async3(deep):
    """Same-direction messages of independent asynchronous shuffles, reordered differently by each party."""

    def h(E):
        pair = [{1: 0}, {0: 1}, {0: 1, 1: 0}]
        R = [E.pick(f"R{i}", pair) for i in range(3 if deep else 2)] + ([] if deep else [{1: 0}])

        def prog():
            srcs = [mp.source(E, 2, f"a{i}", (0, 1)) for i in range(3)]
            mids = [mp.pcall(E, [s], (0, 1), f"m{i}") for i, s in enumerate(srcs)]
            sh = [mp.shuffle(E, m, r) for m, r in zip(mids, R, strict=True)]
            last = mp.shuffle(E, sh[0], {1 - t: t for t in list(R[0])[:1]})
            return [*sh, last]

        outs, types, res = go(E, prog, 2, async_ops={"simp.shuffle"}, delays=3 if deep else 2)
        mp.compare(E, res, outs, 2, what=f"{R}")

    explore(h, unit="three-shuffles-async", expect=("value", "terminates"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, 4 asynchronous shuffles in both directions, completion orders with up to 2 delays (thorough 3)")


def chains(deep):
    """Independent chains of asynchronous shuffles that the parties complete in different orders."""

    def h(E):
        rs = [{1: 0}, {0: 1, 1: 0}]
        R = [E.pick(f"R{i}", rs) for i in range(2)]

        def prog():
            srcs = [mp.source(E, 2, f"a{i}", (0, 1)) for i in range(2)]
            one = [mp.shuffle(E, s, {0: 1, 1: 0}) for s in srcs]
            mid = [mp.pcall(E, [s], (0, 1), f"m{i}") for i, s in enumerate(one)]
            return [mp.shuffle(E, m, r) for m, r in zip(mid, R, strict=True)]

        outs, types, res = go(E, prog, 2, async_ops={"simp.shuffle"}, delays=4 if deep else 3)
        mp.compare(E, res, outs, 2, what=f"{R}")

    explore(h, unit="two-chains-async", expect=("value", "terminates"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, two independent chains of 2 asynchronous shuffles, up to 3 scheduling delays (thorough 4)")


def converge():
    def h(E):
        W = 3
        ss = [E.pick(f"s{i}", mp.subsets(W)) for i in range(2)]
        three = E.choose("three", 2)
        if three:
            ss.append(E.pick("s2", mp.subsets(W)))
        used = set()
        for s in ss:
            E.assume(not (used & set(s)))
            used |= set(s)

        def prog():
            vs = [mp.source(E, W, f"a{i}", s) for i, s in enumerate(ss)]
            c = mp.converge(E, vs)
            return [c, mp.pcall(E, [c], tuple(used), "f"), *vs]

        outs, types, res = go(E, prog, W)
        mp.compare(E, res, outs, W, what=f"{ss}")

    explore(h, unit="converge", expect=("value", "hole"), functions=FUNCS, bounds="3 parties, 2 or 3 operands, every disjoint choice of owners")


def cond(asy):
    from mplang.dialects import simp

    unit = "cond-async" if asy else "cond"

    def h(E):
        W = 2
        full = tuple(range(W))
        preds = [E.bool(f"p{r}") for r in range(W)]
        R = E.pick("R", [{0: 1, 1: 0}, {1: 0}, {0: 0, 1: 0}])
        nested = E.choose("nested", 2)
        preds2 = [E.bool(f"q{r}") for r in range(W)] if nested else None
        conc = {"p": lambda r: preds[r], "q": lambda r: preds2[r]}

        def prog():
            p = simp.pcall_static(full, lambda: mesh.src("p", boolean=True))
            x, y = mp.source(E, W, "x", full), mp.source(E, W, "y", full)

            def then_fn(a, b):
                s = simp.shuffle_static(a, dict(R))
                c = simp.pcall_static(tuple(R), lambda u, v: mesh.fn("t", u, v), s, b)
                d = simp.pcall_static(tuple(sorted(R)), lambda u: mesh.fn("cap", u), y.obj)
                if nested:
                    q = simp.pcall_static(full, lambda: mesh.src("q", boolean=True))
                    c = simp.uniform_cond(q, lambda u, v: simp.pcall_static(tuple(sorted(R)), lambda m, n: mesh.fn("nt", m, n), u, v),
                                          lambda u, v: u, c, d)
                return c, d

            def else_fn(a, b):
                return (simp.pcall_static(tuple(sorted(R)), lambda u, v: mesh.fn("e", u, v), b, a),
                        simp.shuffle_static(x.obj, {t: t for t in R}))

            r = simp.uniform_cond(p, then_fn, else_fn, x.obj, y.obj)
            z = simp.shuffle_static(r[0], {1 - t: t for t in list(R)[:1]})
            # reference
            X, Y = x.vals, y.vals
            vals, other = {}, {}
            for t, s in R.items():
                if not E.concrete or preds[0]:
                    pass
            return x, y, r, z

        holder = {}

        def body():
            x, y, r, z = prog()
            holder.update(x=x, y=y)
            return [r[0], r[1], z]

        g, types = mesh.trace(body)
        res = mesh.run_parties(E, g, W, concrete=conc, async_ops=asy, delays=2 if asy else None)
        E.check(not isinstance(res, tuple), "terminates", f"{res}")
        kinds = [res[("job", r)][0] for r in range(W)]
        uniform = bool(deep_all_eq(preds))
        X, Y = holder["x"].vals, holder["y"].vals
        if not uniform:
            E.check(all(k == "error" for k in kinds), "non-uniform-rejected", f"{kinds}")
            return
        took = bool(preds[0])
        if took and nested and not bool(deep_all_eq(preds2)):
            E.check(all(k == "error" for k in kinds), "nested-non-uniform-rejected", f"{kinds}")
            return
        for r in range(W):
            kind, got = res[("job", r)]
            E.check(kind == "ok", "no-error", f"{got!r}")
            if r not in R:
                E.check(got[0] is None and got[1] is None, "hole", f"{got}")
                continue
            if took:
                c = E.uf("fn_t_2", X[R[r]], Y[r])
                d = E.uf("fn_cap_1", Y[r])
                if nested and bool(preds2[0]):
                    c = E.uf("fn_nt_2", c, d)
                want = (c, d)
            else:
                want = (E.uf("fn_e_2", Y[r], X[r]), X[r])
            E.eq("then" if took else "else", [got[0], got[1]], list(want))
        # the value shuffled after the conditional
        t0 = list(R)[0]
        src_got = res[("job", t0)][1][0]
        E.eq("after", res[("job", 1 - t0)][1][2], src_got)

    explore(h, unit=unit, expect=("then", "else", "non-uniform-rejected", "nested-non-uniform-rejected", "after"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, symbolic per-party predicates, nested conditional, 3 routings inside the branch, captures")


def deep_all_eq(bs):
    import z3

    from vp.sym import mkbool, zbool

    if all(isinstance(b, bool) for b in bs):
        return all(b == bs[0] for b in bs)
    return mkbool(z3.And(*[zbool(b) == zbool(bs[0]) for b in bs[1:]]))


def loop(asy):
    from mplang.dialects import simp

    unit = "while-async" if asy else "while"

    def h(E):
        W = 2
        full = tuple(range(W))
        n = E.int("trips", 0, 2 if asy else 3)
        both = E.choose("both", 2)
        conc = {"zero": lambda r: 0, "lt": lambda r, c: c < n, "inc": lambda r, c: c + 1}

        holder = {}

        def body():
            i = simp.pcall_static(full, lambda: mesh.src("zero"))
            x, y = mp.source(E, W, "x", full), mp.source(E, W, "y", full)
            cap = mp.source(E, W, "cap", full)
            holder.update(x=x, y=y, cap=cap)

            def cond_fn(st):
                return simp.pcall_static(full, lambda c: mesh.fn("lt", c, boolean=True), st[0])

            def body_fn(st):
                c, u, v = st
                u2 = simp.shuffle_static(u, {0: 1, 1: 0})
                if both:
                    v = simp.shuffle_static(v, {0: 1, 1: 0})
                v2 = simp.pcall_static(full, lambda a, b: mesh.fn("mix", a, b), v, cap.obj)
                c2 = simp.pcall_static(full, lambda a: mesh.fn("inc", a), c)
                return c2, u2, v2

            r = simp.while_loop(cond_fn, body_fn, (i, x.obj, y.obj))
            z = simp.shuffle_static(r[1], {0: 1, 1: 0})
            return [r[0], r[1], r[2], z]

        g, types = mesh.trace(body)
        res = mesh.run_parties(E, g, W, concrete=conc, async_ops=asy, delays=2 if asy else None)
        E.check(not isinstance(res, tuple), "terminates", f"{res}")
        X, Y, C = (dict(holder[k].vals) for k in ("x", "y", "cap"))
        k = E.concretize(n) if not E.concrete else n
        for _ in range(k):
            X = {0: X[1], 1: X[0]}
            V = {0: Y[1], 1: Y[0]} if both else Y
            Y = {r: E.uf("fn_mix_2", V[r], C[r]) for r in full}
        for r in full:
            kind, got = res[("job", r)]
            E.check(kind == "ok", "no-error", f"{got!r}")
            E.check(got[0] == k, "trip-count", f"{got[0]}")
            E.eq("state", [got[1], got[2], got[3]], [X[r], Y[r], X[1 - r]], f"after {k} trips")

    explore(h, unit=unit, expect=("state", "trip-count"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, 0..3 (async 0..2) iterations, swap inside the body, captured value" + (", asynchronous shuffles, up to 2 scheduling delays" if asy else ""))


def loop_chains(deep):
    """A loop whose body completes two asynchronous chains in a party-dependent order; the next round must still pair up."""
    from mplang.dialects import simp

    def h(E):
        full = (0, 1)
        n = 2
        conc = {"zero": lambda r: 0, "lt": lambda r, c: c < n, "inc": lambda r, c: c + 1}
        holder = {}
        after = E.choose("after", 2)

        def body():
            i = simp.pcall_static(full, lambda: mesh.src("zero"))
            x, y = mp.source(E, 2, "x", full), mp.source(E, 2, "y", full)
            holder.update(x=x, y=y)

            def cond_fn(st):
                return simp.pcall_static(full, lambda c: mesh.fn("lt", c, boolean=True), st[0])

            def body_fn(st):
                c, u, v = st
                u2 = simp.shuffle_static(u, {0: 1, 1: 0})
                v2 = simp.shuffle_static(v, {0: 1, 1: 0})
                u3 = simp.pcall_static(full, lambda a: mesh.fn("mu", a), u2)
                v3 = simp.pcall_static(full, lambda a: mesh.fn("mv", a), v2)
                return simp.pcall_static(full, lambda a: mesh.fn("inc", a), c), u3, v3

            r = simp.while_loop(cond_fn, body_fn, (i, x.obj, y.obj))
            return [r[1], r[2]] + ([simp.shuffle_static(r[2], {0: 1, 1: 0})] if after else [])

        g, types = mesh.trace(body)
        res = mesh.run_parties(E, g, 2, concrete=conc, async_ops={"simp.shuffle"}, delays=4 if deep else 3)
        E.check(not isinstance(res, tuple), "terminates", f"{res}")
        X, Y = dict(holder["x"].vals), dict(holder["y"].vals)
        for _ in range(n):
            X = {r: E.uf("fn_mu_1", X[1 - r]) for r in full}
            Y = {r: E.uf("fn_mv_1", Y[1 - r]) for r in full}
        for r in full:
            kind, got = res[("job", r)]
            E.check(kind == "ok", "no-error", f"{got!r}")
            E.eq("state", list(got), [X[r], Y[r]] + ([Y[1 - r]] if after else []))

    explore(h, unit="loop-chains-async", expect=("state",), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, 2 iterations of a body with two asynchronous exchanges, up to 3 scheduling delays (thorough 4)")


def failed():
    """The same interpreter evaluates again after a failed graph: scopes are as for a fresh one."""
    from mplang.backends.simp_worker import WORKER_HANDLERS
    from mplang.backends.simp_worker.infra import WorkerInfra
    from mplang.backends.simp_worker.mem import ThreadCommunicator
    from mplang.backends.simp_worker.request import create_request_interpreter
    from mplang.dialects import simp
    from mplang.runtime.object_store import ObjectStore
    import pathlib

    def h(E):
        nested = E.choose("nested", 2)
        conc_fail = {}

        def bad():
            a = mp.source(E, 1, "a", (0,))
            f = lambda u: mesh.fn("boom", u)  # noqa: E731
            o = simp.pcall_static((0,), f, a.obj) if not nested else simp.uniform_cond(
                simp.pcall_static((0,), lambda: mesh.src("t", boolean=True)), lambda u: simp.pcall_static((0,), f, u), lambda u: u, a.obj)
            return [o]

        g, _ = mesh.trace(bad)

        def boom(r, *a):
            raise KeyError("boom")

        hs = {**WORKER_HANDLERS, **mesh.handlers(E, {"boom": boom, "t": lambda r: True})}
        seen = []

        def probe(interp, op, *a):
            seen.append(interp.current_comm_ctx().context_id)
            return 1

        hs["vp.src"], keep = hs["vp.src"], hs["vp.src"]
        c = ThreadCommunicator(0, 1)
        c.set_peers([c])

        def mk():
            infra = WorkerInfra(rank=0, world_size=1, communicator=c, store=ObjectStore(), handlers={**hs, "vp.probe": probe},
                                root_dir=pathlib.Path(boot.SCRATCH) / "root", executor=None, async_ops=frozenset())
            return create_request_interpreter(infra, "job")

        it = mk()
        ok = mesh.trace(lambda: [mp.source(E, 1, "z", (0,)).obj])[0]
        try:
            it.evaluate_graph(g, [])
            E.fail("error-lost", "the failing call returned")
        except KeyError:
            pass
        try:
            it.current_comm_ctx()
            E.fail("scope-restored", "a communication context is still installed after the failed evaluation")
        except RuntimeError:
            E.cover("scope-restored")
        E.eq("again", it.evaluate_graph(ok, []), [E.uf("src_z_0")])

    explore(h, unit="failed-job", expect=("again", "scope-restored"), functions=FUNCS, bounds="one party, failing call at top level or inside a branch")


def dynamic():
    """A party-local call without a mask runs exactly where all its operands are present."""

    def h(E):
        W = 2
        s0, s1 = E.pick("s0", mp.subsets(W)), E.pick("s1", mp.subsets(W))
        from mplang.dialects import simp

        outs = []

        def body():
            a, b = mp.source(E, W, "a", s0), mp.source(E, W, "b", s1)
            o = simp.pcall_dynamic(lambda u, v: mesh.fn("f", u, v), a.obj, b.obj)
            both = set(s0) & set(s1)
            d = mp.Var(o, None, {r: E.uf("fn_f_2", a.vals[r], b.vals[r]) for r in both})
            outs.append(d)
            # moving a value whose owners are only known at run time: holes travel as holes
            outs.append(mp.shuffle(E, d, E.pick("routing", mp.routings(W))))
            if E.choose("again", 2):
                outs.append(mp.shuffle(E, a, {0: s0[0], 1: s0[0]}))
            return [v.obj for v in outs]

        g, types = mesh.trace(body)
        res = mesh.run_parties(E, g, W)
        mp.compare(E, res, outs, W, what=f"{s0} {s1}")

    explore(h, unit="dynamic", expect=("value", "hole"), functions=FUNCS, bounds="2 parties, every pair of operand owners, every routing of the result, followed by another exchange")


def dead():
    """Messages of a shuffle whose result is unused never satisfy another shuffle's receive; several rounds."""

    def h(E):
        W = 2
        rs = [{1: 0}, {0: 1}, {0: 1, 1: 0}, {0: 0, 1: 0}]
        R = [E.pick(f"R{i}", rs) for i in range(3)]

        def prog():
            vs = [mp.source(E, W, f"a{i}", (0, 1)) for i in range(3)]
            sh = [mp.shuffle(E, v, r) for v, r in zip(vs, R, strict=True)]
            return [sh[2], sh[1]] if E.choose("drop", 2) else [sh[2]]

        outs, types, res = go(E, prog, W)
        mp.compare(E, res, outs, W, what=f"{R}")

    explore(h, unit="dead-shuffles", expect=("value",), functions=FUNCS, bounds="2 parties, 3 shuffles over 4 routings, results partly unused")
