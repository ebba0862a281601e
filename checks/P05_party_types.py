"""Static party types of traced multi-party programs: party sets, routings, masks and the shape of the program are
solver-chosen; acceptance and the resulting types are compared with the reference rules, accepted programs are executed
by real workers and each value's holders are compared with its type."""

from vp import mesh, mpprog as mp
from vp.sym import explore

from checks.P03_multiparty import Fixed

FUNCS = ("simp dialect trace rules (pcall_static/dynamic, shuffle, converge, uniform_cond, while_loop, constant)", "MPType", "Tracer.lift/finalize", "simp worker kernels")
ASSUMPTIONS = ["a party named by a call on a dynamically placed value does hold that value"]


def units(tier):
    deep = tier == "thorough"
    return [
        ("one-step", lambda: steps(3, 1, "one-step", deep), 4),
        ("two-steps", lambda: steps(2, 2, "two-steps", True), 6),
        ("two-steps-3", lambda: steps(3, 2, "two-steps-3", deep), 8),
        ("three-operands", three, 2),
        ("cond", cond, 3),
        ("while", loop, 2),
        ("ill-typed", illtyped, 1),
        ("constants", constants, 1),
    ]


def run_check(E, W, prog, what):
    """prog() -> list of Var; checks acceptance, types, run-time holders."""
    outs = []

    def body():
        outs.extend(prog())
        return [v.obj for v in outs]

    try:
        g, types = mesh.trace(body)
    except mp.Rejected as r:
        if r.expected is True:
            E.cover("rejected")
            return
        if r.expected is None:
            E.fail("ill-placed-rejected", f"accepted although operands cannot be placed: {r.what}")
        E.fail("well-placed-accepted", f"refused: {r.what}: {r.exc}")
    # graph outputs keep their static types
    mp.static_types(E, types, outs, what=str(what))
    for v in outs:
        if v.parties is not None:
            for r in v.parties:
                E.assume(v.vals.get(r) is not None)
    res = mesh.run_parties(Fixed(E), g, W)
    mp.compare(E, res, outs, W, what=str(what))
    E.cover("accepted")


def capture_pcall(E, vs, parties, tag):
    from mplang.dialects import simp

    known = [v.parties for v in vs]
    ok = any(p is None for p in known) or all(set(parties) <= p for p in known)
    obj = mp.attempt(ok, f"pcall{parties} capturing {known}", lambda: simp.pcall_static(parties, lambda a: mesh.fn(tag, a, *[v.obj for v in vs[1:]]), vs[0].obj))
    return mp.Var(obj, set(parties), {r: (None if any(v.vals.get(r) is None for v in vs) else E.uf(f"fn_{tag}_{len(vs)}", *[v.vals[r] for v in vs])) for r in parties})


def step(E, W, i, pool, full):
    kind = E.pick(f"op{i}", ["pcall", "capture", "shuffle", "converge", "dyn"])
    x = pool[0 if W == 3 and i else E.choose(f"x{i}", len(pool))]
    if kind in ("pcall", "capture", "converge"):
        y = pool[E.choose(f"y{i}", len(pool))]
    if kind in ("pcall", "capture"):
        P = E.pick(f"P{i}", mp.subsets(W))
        dup = E.choose(f"dup{i}", 2) if i == 0 and W == 2 else W == 3 and len(P) == 2
        if dup:
            P = tuple(reversed(P)) + P[:1]
        return (mp.pcall if kind == "pcall" else capture_pcall)(E, [x, y], P, f"f{i}")
    if kind == "shuffle":
        R = E.pick(f"R{i}", mp.routings(W) if full else [r for r in mp.routings(W) if len(r) < 3 or len(set(r.values())) == 3])
        return mp.shuffle(E, x, R)
    if kind == "converge":
        return mp.converge(E, [x, y])
    return mp.dyn(E, x, f"d{i}")


def steps(W, n, unit, full):
    def h(E):
        s0 = E.pick("s0", mp.subsets(W) if W == 2 or full else [(1, 2)] if n == 2 else [(0,), (1, 2), (0, 1, 2)])
        s1 = E.pick("s1", mp.subsets(W) if W == 2 or full else [(0, 2)])

        def prog():
            pool = [mp.source(E, W, "a", s0), mp.source(E, W, "b", s1)]
            for i in range(n):
                v = step(E, W, i, pool, full)
                pool = [v, *pool][: 3 if W == 2 else 2]
            return pool

        run_check(E, W, prog, f"{s0} {s1}")

    explore(h, unit=unit, expect=("accepted", "rejected", "static-parties", "value", "hole"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds=f"{W} parties, {n} operation(s) over two sources of every placement; every mask; routings {'all' if full else 'with 1-2 targets or a permutation'}")


def three():
    def h(E):
        W = 3
        ss = [E.pick(f"s{i}", mp.subsets(W)) for i in range(3)]
        P = E.pick("P", [(0,), (1, 2), (0, 1, 2)])
        op = E.pick("op", ["pcall", "capture", "converge"])

        def prog():
            vs = [mp.source(E, W, f"a{i}", s) for i, s in enumerate(ss)]
            if op == "converge":
                return [mp.converge(E, vs)]
            return [(mp.pcall if op == "pcall" else capture_pcall)(E, vs, P, "f")]

        run_check(E, W, prog, f"{ss} {P}")

    explore(h, unit="three-operands", expect=("accepted", "rejected"), functions=FUNCS, max_paths=10**6, bounds="3 parties, three operands of every placement")


def cond():
    from mplang.dialects import simp

    def h(E):
        W = 2
        s0, s1 = E.pick("s0", mp.subsets(W)), E.pick("s1", mp.subsets(W))
        kt, ke = (E.pick(n, ["x", "y", "call", "swap", "call-x", "two", "capture"]) for n in ("then", "else"))
        p = E.bool("p")
        conc = {"p": lambda r: p}
        full = (0, 1)
        hold = {}

        def branch(tag, kind, x, y):
            def f(a, b):
                va, vb = mp.Var(a, x.parties, x.vals), mp.Var(b, y.parties, y.vals)
                if kind == "x":
                    r = [va]
                elif kind == "y":
                    r = [vb]
                elif kind == "call":
                    r = [mp.pcall(E, [vb, va], (0,), tag)]
                elif kind == "call-x":
                    r = [mp.pcall(E, [va], tuple(sorted(x.parties)), tag)]
                elif kind == "swap":
                    s = min(x.parties)
                    r = [mp.shuffle(E, va, {1 - s: s})]
                elif kind == "two":
                    r = [va, vb]
                else:
                    r = [mp.pcall(E, [mp.Var(y.obj, y.parties, y.vals)], tuple(sorted(y.parties)), tag)]
                hold[tag] = r
                return tuple(v.obj for v in r) if len(r) > 1 else r[0].obj
            return f

        outs = []

        def body():
            pr = simp.pcall_static(full, lambda: mesh.src("p", boolean=True))
            x, y = mp.source(E, W, "x", s0), mp.source(E, W, "y", s1)
            try:
                r = simp.uniform_cond(pr, branch("t", kt, x, y), branch("e", ke, x, y), x.obj, y.obj)
            except (TypeError, ValueError) as e:
                t, el = hold.get("t"), hold.get("e")
                ok = t is not None and el is not None and [v.parties for v in t] == [v.parties for v in el]
                raise mp.Rejected(not ok, f"cond {kt}/{ke} over {s0} {s1}", e) from None
            same = [v.parties for v in hold["t"]] == [v.parties for v in hold["e"]]
            if not same:
                raise mp.Rejected(None, f"cond {kt}/{ke} over {s0} {s1} with different placements")
            rs = list(r) if isinstance(r, tuple) else [r]
            outs.extend(mp.Var(o, v.parties, None) for o, v in zip(rs, hold["t"], strict=True))
            return rs

        try:
            g, types = mesh.trace(body)
        except mp.Rejected as r:
            if r.expected is True:
                E.cover("rejected")
                return
            E.fail("ill-placed-rejected" if r.expected is None else "well-placed-accepted", f"{r.what}: {r.exc}")
        mp.static_types(E, types, outs)
        res = mesh.run_parties(Fixed(E), g, W, concrete=conc)
        src = hold["t"] if bool(p) else hold["e"]
        for v, s in zip(outs, src, strict=True):
            v.vals = s.vals
        mp.compare(E, res, outs, W, what=f"{kt}/{ke} {s0} {s1}")
        E.cover("accepted")

    explore(h, unit="cond", expect=("accepted", "rejected"), functions=FUNCS, max_paths=10**6, bounds="2 parties, 7 branch forms each side, every placement of two operands, symbolic predicate")


def loop():
    from mplang.dialects import simp

    def h(E):
        W = 2
        s0 = E.pick("s0", mp.subsets(W))
        kind = E.pick("body", ["same", "call", "swap", "narrow", "one", "three", "exchange"])
        n = E.int("trips", 0, 2)
        conc = {"zero": lambda r: 0, "lt": lambda r, c: c < n, "inc": lambda r, c: c + 1}
        full = (0, 1)
        hold = {}
        outs = []

        def body():
            i = simp.pcall_static(full, lambda: mesh.src("zero"))
            x = mp.source(E, W, "x", s0)

            def body_fn(st):
                c, u = st
                c2 = simp.pcall_static(full, lambda a: mesh.fn("inc", a), c)
                v = mp.Var(u, x.parties, x.vals)
                if kind == "same":
                    r = v
                elif kind == "call":
                    r = mp.pcall(E, [v], tuple(sorted(x.parties)), "g")
                elif kind == "swap":
                    s = min(x.parties)
                    r = mp.shuffle(E, v, {1 - s: s})
                elif kind == "narrow":
                    r = mp.pcall(E, [v], (0,), "g")
                elif kind == "exchange":
                    r = mp.shuffle(E, v, {0: 1, 1: 0})
                elif kind == "one":
                    hold["p"] = "arity"
                    return c2
                else:
                    hold["p"] = "arity"
                    return c2, u, u
                hold["p"] = r.parties
                return c2, r.obj

            try:
                r = simp.while_loop(lambda st: simp.pcall_static(full, lambda c: mesh.fn("lt", c, boolean=True), st[0]), body_fn, (i, x.obj))
            except (TypeError, ValueError) as e:
                raise mp.Rejected(hold.get("p") != x.parties, f"while {kind} over {s0}", e) from None
            if hold["p"] != x.parties:
                raise mp.Rejected(None, f"while {kind} over {s0}")
            outs.append(mp.Var(r[1], x.parties, dict(x.vals)))
            return [r[1]]

        try:
            g, types = mesh.trace(body)
        except mp.Rejected as r:
            if r.expected is True:
                E.cover("rejected")
                return
            E.fail("ill-placed-rejected" if r.expected is None else "well-placed-accepted", f"{r.what}: {r.exc}")
        mp.static_types(E, types, outs)
        res = mesh.run_parties(Fixed(E), g, W, concrete=conc)
        k = E.concretize(n)
        V = outs[0].vals
        for _ in range(k):
            if kind in ("call", "narrow"):
                V = {r: E.uf("fn_g_1", v) for r, v in V.items()}
            elif kind == "exchange":
                V = {r: V[1 - r] for r in V}
        outs[0].vals = V
        mp.compare(E, res, outs, W, what=f"{kind} {s0}")
        E.cover("accepted")

    explore(h, unit="while", expect=("accepted", "rejected"), functions=FUNCS, max_paths=10**6, bounds="2 parties, 7 body forms, every placement, 0..2 iterations")


def illtyped():
    """Uses that have no placement at all."""
    import mplang.edsl.typing as T
    from mplang.dialects import simp

    def h(E):
        forms = ["empty-routing", "no-routing", "converge-types", "cond-vector", "while-vector", "converge-one", "pcall-none", "shuffle-local", "converge-local", "empty-init", "ok"]
        k = E.pick("form", forms)

        def vec():
            import numpy as np

            return simp.constant((0, 1), np.zeros(2, dtype=np.int64))

        def body():
            x = mp.source(E, 2, "x", (0, 1)).obj
            y = mp.source(E, 2, "y", (0,)).obj
            if k == "empty-routing":
                return [simp.shuffle_static(x, {})]
            if k == "no-routing":
                return [simp.shuffle_static(x, None)]
            if k == "converge-types":
                b = simp.pcall_static((1,), lambda: mesh.src("b", boolean=True))
                return [simp.converge(y, b)]
            if k == "cond-vector":
                return [simp.uniform_cond(vec(), lambda a: a, lambda a: a, x)]
            if k == "while-vector":
                return [simp.while_loop(lambda s: vec(), lambda s: s, x)]
            if k == "converge-one":
                return [simp.converge(x)]
            if k == "pcall-none":
                return [simp.pcall_static(None, lambda a: mesh.fn("f", a), x)]
            if k == "shuffle-local":
                return [simp.pcall_static((0,), lambda a: simp.shuffle_static(a, {0: 0}), x)]
            if k == "converge-local":
                return [simp.pcall_static((0,), lambda a, b: simp.converge(a, b), x, y)]
            if k == "empty-init":
                return [simp.while_loop(lambda s: x, lambda s: s, ())]
            return [x]

        try:
            mesh.trace(body)
            got = True
        except (TypeError, ValueError):
            got = False
        want = k in ("converge-one", "ok")
        E.check(got == want, "ill-typed-rejected" if not want else "well-typed-accepted", k)

    explore(h, unit="ill-typed", expect=("ill-typed-rejected", "well-typed-accepted"), functions=FUNCS, bounds="11 program forms without a placement")


def constants():
    import numpy as np

    from mplang.dialects import simp

    def h(E):
        W = 3
        s0, P = E.pick("s0", mp.subsets(W)), E.pick("P", mp.subsets(W))
        val = E.pick("val", [3, 2.5, True, np.arange(3)])

        def body():
            c = simp.constant(s0, val)
            v = mp.Var(c, set(s0), {r: 0 for r in s0})
            o = mp.pcall(E, [v], P, "f")
            return [c, o.obj]

        try:
            g, types = mesh.trace(body)
        except mp.Rejected as r:
            if r.expected is True:
                E.cover("rejected")
                return
            E.fail("ill-placed-rejected" if r.expected is None else "well-placed-accepted", f"{r.what}: {r.exc}")
        E.check(set(types[0].parties) == set(s0) and set(types[1].parties) == set(P), "static-parties", f"{types}")
        E.check(tuple(types[0].value_type.shape) == np.shape(val), "shape", f"{types[0]}")
        import mplang.backends.tensor_impl  # noqa: F401

        res = mesh.run_parties(Fixed(E), g, W, concrete={"f": lambda r, c: c})
        for r in range(W):
            kind, got = res[("job", r)]
            E.check(kind == "ok", "no-error", f"{got!r}")
            for i, ps in enumerate((s0, P)):
                if r in ps:
                    a = np.asarray(got[i].unwrap() if hasattr(got[i], "unwrap") else got[i])
                    E.check(a.shape == np.shape(val) and (a == val).all(), "constant-value", f"{a}")
                else:
                    E.check(got[i] is None, "hole", f"{got[i]}")

    explore(h, unit="constants", expect=("rejected", "constant-value", "hole"), functions=FUNCS, bounds="3 parties, 4 constants, every placement")
