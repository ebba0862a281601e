"""Collectives over real communication contexts and mailboxes: participant sets (any order, with repeats), roots,
schedules and sequences of collectives are solver-chosen, contributed bits are symbolic, other payloads are free terms;
results are compared with the definition of each collective at every party."""

import z3

from vp import coop, mesh, mpprog as mp
from vp.sym import SymBool, deep_eq, explore, mkbool, zbool

from checks.P03_multiparty import Fixed

FUNCS = ("collective_algorithms.broadcast/allgather/allreduce_bool_*/barrier/normalize_participants", "collectives.* wrappers", "verify_uniform_predicate",
         "libs.collective transfer/replicate/distribute/collect/allreplicate/permute", "CommContext", "ThreadCommunicator")
ASSUMPTIONS = ["every participant makes the same sequence of collective calls", "in-memory transport"]


def units(tier):
    deep = tier == "thorough"
    W = 4 if deep else 3
    return [
        ("single", lambda: single(W, deep), 4),
        ("sequence", lambda: sequence(deep), 4),
        ("disjoint-groups", lambda: groups(deep), 2),
        ("invalid", invalid, 1),
        ("resolve", resolve, 1),
        ("barrier", lambda: barrier(deep), 1),
        ("library", lambda: library(3), 3),
        ("library-ill", library_ill, 1),
    ]


OPS = ["broadcast", "allgather", "and", "or", "xor", "allgather_bool", "uniform"]


class Worker:
    def __init__(self, rank, n, comm, cur=None):
        self.rank, self.world_size, self.communicator, self.current_parties = rank, n, comm, cur


def call(op, ctx, worker, val, bit, ps, root, wrapped):
    """One collective at one party, through the algorithm or the worker-level wrapper."""
    from mplang.backends.simp_worker import collective_algorithms as algo, collectives as col

    if op == "uniform":
        return col.verify_uniform_predicate(ctx, worker, bit, participants=ps)
    if op == "allgather_bool":
        return col.allgather_bool(ctx, worker, bit, participants=ps)
    if wrapped:
        if op == "broadcast":
            return col.broadcast(ctx, worker, val, root=root, participants=ps)
        if op == "allgather":
            return col.allgather_obj(ctx, worker, val, participants=ps)
        return getattr(col, f"allreduce_bool_{op}")(ctx, worker, bit, participants=ps)
    if op == "broadcast":
        return algo.broadcast(ctx, val, root=root, participants=ps)
    if op == "allgather":
        return algo.allgather(ctx, val, participants=ps)
    return getattr(algo, f"allreduce_bool_{op}")(ctx, bit, participants=ps)


def want(op, ps, vals, bits, root):
    srt = sorted(set(ps))
    if op == "broadcast":
        return vals[root]
    if op == "allgather":
        return [vals[r] for r in srt]
    if op == "allgather_bool":
        return [bits[r] for r in srt]
    b = [zbool(bits[r]) for r in srt]
    if op == "and":
        return mkbool(z3.And(*b))
    if op == "or":
        return mkbool(z3.Or(*b))
    if op == "xor":
        acc = z3.BoolVal(False)
        for x in b:
            acc = z3.Xor(acc, x)
        return mkbool(acc)
    return mkbool(z3.And(*[x == b[0] for x in b]))  # uniform: accepted iff all equal


def beq(a, b):
    """Equality where either side may be a (symbolic) bool."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return mkbool(z3.And(*[zbool(beq(x, y)) for x, y in zip(a, b, strict=True)])) if a else True
    if isinstance(b, (bool, SymBool)) and isinstance(a, (bool, SymBool)):
        return mkbool(zbool(a) == zbool(b))
    return deep_eq(a, b)


def orders(ps):
    r = [ps]
    if len(ps) > 1:
        r.append(tuple(reversed(ps)))
        r.append(ps + ps[:1])
    return r


def mkctx(W):
    from mplang.backends.simp_worker.comm_context import CommContext
    from mplang.backends.simp_worker.mem import ThreadCommunicator

    cs = [ThreadCommunicator(r, W) for r in range(W)]
    for c in cs:
        c.set_peers(cs)
    return cs, [CommContext(c, "job", r) for r, c in enumerate(cs)]


def single(W, deep):
    def h(E):
        op = E.pick("op", OPS)
        base = E.pick("ps", mp.subsets(W))
        ps = E.pick("order", orders(base))
        wrapped = E.choose("wrapped", 2) if op not in ("uniform", "allgather_bool") else 1
        root = E.pick("root", base) if op == "broadcast" else None
        vals = {r: E.uf(f"v{r}") for r in range(W)}
        bits = {r: E.bool(f"b{r}") for r in range(W)} if op not in ("broadcast", "allgather") else {r: True for r in range(W)}
        s = coop.Sched(E, delays=2 if deep else 1)
        got = {}
        with coop.pool_patch():
            cs, cx = mkctx(W)

            def party(r):
                try:
                    got[r] = call(op, cx[r], Worker(r, W, cs[r]), vals[r], bits[r], ps, root, wrapped)
                except RuntimeError:
                    if op != "uniform":
                        raise
                    got[r] = "non-uniform"

            ts = [s.spawn(f"p{r}", lambda r=r: party(r)) for r in base]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{op} over {ps}: {d}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{op} over {ps}: {t.exc!r}")
        w = want(op, ps, vals, bits, root)
        for r in base:
            if op == "uniform":
                E.check((got[r] == "non-uniform") if not bool(w) else beq(got[r], bits[r]), "uniform", f"{got}")
            else:
                E.check(beq(got[r], w), op, f"{op} over {ps} root {root}: party {r} got {got[r]} want {w}")

    explore(h, unit="single", expect=tuple(OPS), functions=FUNCS, max_paths=10**6, bounds=f"{W} parties, every non-empty participant set in three spellings, every root, symbolic bits, 1 (thorough 2) delays")


def sequence(deep):
    """Two collectives one after the other over different participant sets in one scope do not mix."""

    def h(E):
        W = 3
        seqs = []
        for i in range(2):
            op = E.pick(f"op{i}", ["broadcast", "allgather", "and"])
            ps = E.pick(f"ps{i}", [(0, 1), (1, 2), (0, 2), (0, 1, 2), (2, 1, 0)])
            root = E.pick(f"root{i}", sorted(set(ps))) if op == "broadcast" else None
            seqs.append((op, ps, root))
        vals = {(i, r): E.uf(f"v{i}_{r}") for i in range(2) for r in range(W)}
        bits = {(i, r): E.bool(f"b{i}_{r}") if seqs[i][0] == "and" else True for i in range(2) for r in range(W)}
        s = coop.Sched(E, delays=2 if deep else 1)
        got = {}
        with coop.pool_patch():
            cs, cx = mkctx(W)

            def party(r):
                for i, (op, ps, root) in enumerate(seqs):
                    if r in ps:
                        got[(i, r)] = call(op, cx[r], Worker(r, W, cs[r]), vals[(i, r)], bits[(i, r)], ps, root, 0)

            ts = [s.spawn(f"p{r}", lambda r=r: party(r)) for r in range(W)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{seqs}: {d}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{seqs}: {t.exc!r}")
        for i, (op, ps, root) in enumerate(seqs):
            w = want(op, ps, {r: vals[(i, r)] for r in range(W)}, {r: bits[(i, r)] for r in range(W)}, root)
            for r in set(ps):
                E.check(beq(got[(i, r)], w), op, f"{seqs}: party {r} got {got[(i, r)]} want {w}")

    explore(h, unit="sequence", expect=("broadcast", "allgather", "and"), functions=FUNCS, max_paths=10**6, bounds="3 parties, every pair of 3 collectives over 5 participant sets, 1 (thorough 2) delays")


def groups(deep):
    """Disjoint groups run their own collectives at the same time in one scope."""

    def h(E):
        W = 4
        split = E.pick("split", [((0, 1), (2, 3)), ((0, 3), (1, 2)), ((0,), (1, 2, 3)), ((0, 2, 3), (1,))])
        op = [E.pick(f"op{g}", ["allgather", "xor", "broadcast"]) for g in range(2)]
        vals = {r: E.uf(f"v{r}") for r in range(W)}
        bits = {r: E.bool(f"b{r}") for r in range(W)} if "xor" in op else {r: True for r in range(W)}
        s = coop.Sched(E, delays=2 if deep else 1)
        got = {}
        with coop.pool_patch():
            cs, cx = mkctx(W)

            def party(r):
                g = 0 if r in split[0] else 1
                got[r] = call(op[g], cx[r], Worker(r, W, cs[r]), vals[r], bits[r], split[g], split[g][-1], 1)

            ts = [s.spawn(f"p{r}", lambda r=r: party(r)) for r in range(W)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", str(d))
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        for g in range(2):
            w = want(op[g], split[g], vals, bits, split[g][-1])
            for r in split[g]:
                E.check(beq(got[r], w), op[g], f"{split} {op}: party {r} got {got[r]} want {w}")

    explore(h, unit="disjoint-groups", expect=("allgather", "xor", "broadcast"), functions=FUNCS, bounds="4 parties, 4 splits into two groups, 3 collectives each")


def invalid():
    def h(E):
        op = E.pick("op", [o for o in OPS if o != "uniform"])
        k = E.pick("bad", ["empty", "negative", "too-big", "outsider", "root", "ok"])
        if k == "root" and op != "broadcast":
            E.assume(False)
        ps = {"empty": (), "negative": (0, -1), "too-big": (0, 2), "outsider": (1,), "root": (0,), "ok": (0,)}[k]
        cs, cx = mkctx(2)
        try:
            call(op, cx[0], Worker(0, 2, cs[0]), 1, True, ps, 1 if k in ("root",) else 0, 0)
            got = "ok"
        except ValueError:
            got = "rejected"
        E.check(got == ("ok" if k == "ok" else "rejected"), "rejected" if k != "ok" else "accepted", f"{op} {k}: {got}")

    explore(h, unit="invalid", expect=("rejected", "accepted"), functions=FUNCS, bounds="5 kinds of invalid participant sets")


def resolve():
    """Which parties take part: explicit argument, then the operation, then the enclosing call, then everyone."""
    from mplang.backends.simp_worker import collectives as col

    class Op:
        def __init__(self, p):
            self.attrs = {} if p is None else {"parties": p}

    def h(E):
        opts = [None, (0,), (0, 1), (0, 2)]
        a, b, c = (E.pick(n, opts) for n in ("arg", "op", "scope"))
        hasop = E.choose("hasop", 2)
        cs, cx = mkctx(3)
        w = Worker(0, 3, cs[0], c)
        got = col.resolve_participants(w, op=Op(list(b) if b else None) if hasop else None, participants=a)
        want = a if a is not None else b if hasop and b is not None else c if c is not None else (0, 1, 2)
        E.check(tuple(got) == tuple(want), "resolved", f"{a} {b} {c}: {got} want {want}")

    explore(h, unit="resolve", expect=("resolved",), functions=("resolve_participants",), bounds="every combination of four sources")


def barrier(deep):
    def h(E):
        W = 3
        base = E.pick("ps", mp.subsets(W))
        ps = E.pick("order", orders(base))
        twice = E.choose("twice", 2)
        s = coop.Sched(E, delays=3 if deep else 2, preempt=1)
        log = []
        with coop.pool_patch():
            from mplang.backends.simp_worker import collective_algorithms as algo

            cs, cx = mkctx(W)

            def party(r):
                for k in range(1 + twice):
                    coop.point("x")
                    log.append(("in", r, k))
                    algo.barrier(cx[r], participants=ps)
                    log.append(("out", r, k))

            ts = [s.spawn(f"p{r}", lambda r=r: party(r)) for r in base]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{ps}: {d}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        for k in range(1 + twice):
            last_in = max(i for i, e in enumerate(log) if e[0] == "in" and e[2] == k)
            first_out = min(i for i, e in enumerate(log) if e[0] == "out" and e[2] == k)
            E.check(last_in < first_out, "barrier", f"{ps}: {log}")

    explore(h, unit="barrier", expect=("barrier",), functions=FUNCS, bounds="3 parties, every participant set, one or two barriers, 1 preemption, 2 (thorough 3) delays")


def library(W):
    """Trace-level collectives executed by real workers."""
    from mplang.libs import collective as C

    def h(E):
        op = E.pick("op", ["transfer", "replicate", "distribute", "collect", "allreplicate", "permute"])
        outs = []

        def body():
            if op == "transfer":
                f, t = E.choose("from", W), E.choose("to", W)
                a = mp.source(E, W, "a", (f,))
                outs.append(mp.Var(C.transfer(a.obj, to=t), {t}, {t: a.vals[f]}))
            elif op == "replicate":
                f = E.choose("from", W)
                to = E.pick("to", [q for p in mp.subsets(W) for q in ((p, tuple(reversed(p))) if len(p) > 1 else (p,))])
                a = mp.source(E, W, "a", (f,))
                outs.append(mp.Var(C.replicate(a.obj, to=to), set(to), {t: a.vals[f] for t in to}))
            elif op == "distribute":
                f, n = E.choose("from", W), 1 + E.choose("n", W)
                vs = [mp.source(E, W, f"a{i}", (f,)) for i in range(n)]
                outs.append(mp.Var(C.distribute([v.obj for v in vs], frm=f), set(range(n)), {i: v.vals[f] for i, v in enumerate(vs)}))
            elif op == "collect":
                s, t = E.pick("s", mp.subsets(W)), E.choose("to", W)
                a = mp.source(E, W, "a", s)
                r = C.collect(a.obj, to=t)
                E.check(len(r) == len(s), "count", f"{len(r)}")
                outs.extend(mp.Var(o, {t}, {t: a.vals[q]}) for o, q in zip(r, s, strict=True))
            elif op == "allreplicate":
                s = E.pick("s", mp.subsets(W))
                a = mp.source(E, W, "a", s)
                r = C.allreplicate(a.obj)
                E.check(len(r) == len(s), "count", f"{len(r)}")
                outs.extend(mp.Var(o, set(s), {t: a.vals[q] for t in s}) for o, q in zip(r, s, strict=True))
            else:
                R = E.pick("R", mp.routings(W))
                s = tuple(sorted(set(R.values()))) if E.choose("tight", 2) else tuple(range(W))
                a = mp.source(E, W, "a", s)
                outs.append(mp.Var(C.permute(a.obj, mapping=dict(R)), set(R), {t: a.vals[q] for t, q in R.items()}))
            E.cover(op)
            return [v.obj for v in outs]

        g, types = mesh.trace(body)
        mp.static_types(E, types, outs)
        mode = E.pick("exec", [None, {"simp.shuffle"}]) if op in ("collect", "distribute") else None
        res = mesh.run_parties(E if mode else Fixed(E), g, W, async_ops=mode, delays=1 if mode else None)
        mp.compare(E, res, outs, W, what=op)

    explore(h, unit="library", expect=("transfer", "replicate", "distribute", "collect", "allreplicate", "permute", "value", "hole"), functions=FUNCS, max_paths=10**6,
            bounds=f"{W} parties, every source, target set and mapping; collect/distribute also with asynchronous shuffles, 1 delay")


def library_ill():
    from mplang.libs import collective as C

    def h(E):
        k = E.pick("form", ["transfer-two", "transfer-dyn", "replicate-two", "distribute-none", "distribute-other", "distribute-dyn", "collect-dyn", "allreplicate-dyn", "permute-missing", "permute-empty"])

        def body():
            two = mp.source(E, 3, "two", (0, 1))
            one = mp.source(E, 3, "one", (1,))
            d = mp.dyn(E, one, "d")
            if k == "transfer-two":
                C.transfer(two.obj, to=0)
            if k == "transfer-dyn":
                C.transfer(d.obj, to=0)
            if k == "replicate-two":
                C.replicate(two.obj, to=(0, 2))
            if k == "distribute-none":
                C.distribute([], frm=0)
            if k == "distribute-other":
                C.distribute([one.obj, one.obj], frm=0)
            if k == "distribute-dyn":
                C.distribute([d.obj], frm=1)
            if k == "collect-dyn":
                C.collect(d.obj, to=0)
            if k == "allreplicate-dyn":
                C.allreplicate(d.obj)
            if k == "permute-missing":
                C.permute(two.obj, mapping={0: 2})
            if k == "permute-empty":
                C.permute(two.obj, mapping={})
            return [one.obj]

        try:
            mesh.trace(body)
            E.fail("ill-placed-rejected", f"{k} accepted")
        except (ValueError, TypeError):
            E.cover("ill-placed-rejected")

    explore(h, unit="library-ill", expect=("ill-placed-rejected",), functions=FUNCS, bounds="10 collective uses without a meaning")
