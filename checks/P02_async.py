"""Async graph execution: real `Interpreter.evaluate_graph` with an executor whose start/finish order, and (bounded)
preemptions, are solver-chosen; operations are uninterpreted functions; compared with the dataflow denotation."""

from vp import boot, coop, graphs
from vp.sym import explore

FUNCS = ("Interpreter.evaluate_graph (async path)", "Graph.add_op/add_input/add_output")




def units(tier):
    deep = tier == "thorough"
    return [
        ("schedules-3", lambda: graph_schedules(3, 2, {0, 1} if deep else {0}), 8),
        ("schedules-4", lambda: graph_schedules(4, 2 if deep else 1, ()), 8),
        ("failing-op", lambda: failing(2 if deep else 1), 2),
        ("void-op", lambda: void(deep), 3),
        ("preempted", lambda: preempted(deep), 6),
    ]


def run_async(E, g, inputs, handlers, async_ops, *, preempt=0, trace=(), timeout_ok=False):
    from mplang.runtime.interpreter import Interpreter

    out = {}

    s = coop.Sched(E, preempt=preempt, trace_lines=trace)
    with coop.pool_patch():
        interp = Interpreter(executor=coop.CoopExecutor(sched=s), handlers=handlers, root_dir=boot.SCRATCH + "/root")
        interp.async_ops = async_ops

        def main():
            out["r"] = interp.evaluate_graph(g, inputs)

        t = s.spawn("main", main)
        try:
            s.run()
        except coop.Deadlock as d:
            return "deadlock", str(d)
    if t.exc is not None:
        return "error", t.exc
    return "ok", out["r"]


def graph_schedules(n_ops, max_ar, multi):
    def h(E):
        spec = graphs.symbolic_graph(E, n_ops=n_ops, n_in=1, max_arity=max_ar, max_outs=2, multi=multi, ordered=False)
        asy = {f"op{i}" for i in range(n_ops) if E.choose(f"async{i}", 2)}
        E.assume(bool(asy))
        g, ins = graphs.to_graph(spec)
        vals = [E.uf(f"in{i}") for i in range(len(ins))]
        kind, r = run_async(E, g, vals, graphs.uf_handlers(E, spec), asy)
        E.check(kind == "ok", "terminates", f"{kind}: {r}; {spec}")
        E.eq("same-result", list(r), graphs.denote(E, spec, vals), f"{r} for {spec}")

    explore(h, unit=f"schedules-{n_ops}", expect=("same-result",), functions=FUNCS, max_seconds=2400, max_paths=200000,
            bounds=f"{n_ops} ops, arity<={max_ar}, every async subset, every start/finish order of pool tasks")


def failing(max_ar):
    def h(E):
        spec = graphs.symbolic_graph(E, n_ops=3, n_in=1, max_arity=max_ar, max_outs=1, ordered=False)
        bad = E.choose("bad", 3)
        asy = {f"op{i}" for i in range(3) if E.choose(f"async{i}", 2)}
        g, ins = graphs.to_graph(spec)
        vals = [E.uf("in0")]

        class Boom(Exception):
            pass

        hs = graphs.uf_handlers(E, spec)

        def boom(interp, op, *a):
            raise Boom("boom")

        hs[f"op{bad}"] = boom
        kind, r = run_async(E, g, vals, hs, asy)
        E.check(kind == "error" and isinstance(r, Boom), "own-error", f"{kind} {r!r}; failing op {bad}; async {asy}; {spec}")

    explore(h, unit="failing-op", expect=("own-error",), functions=FUNCS, max_seconds=2400, max_paths=100000,
            bounds="3 ops, one op raising, every async subset, every completion order")


def preempted(deep):
    """Line-level preemptions inside the scheduler's own callbacks."""

    def h(E):
        # diamond with a shared input and an independent op: 4 ops, all async
        spec = {"n_in": 1, "ops": [([0], 1), ([0], 1), ([1, 2], 1), ([2], 1)], "outs": [4, 3, 1]}
        k = E.choose("shape", 3)
        if k == 1:
            spec = {"n_in": 1, "ops": [([0], 2), ([1, 2], 1), ([2], 1)], "outs": [3, 4]}
        if k == 2:
            spec = {"n_in": 2, "ops": [([0], 1), ([1], 1), ([2, 3], 1)], "outs": [4]}
        g, ins = graphs.to_graph(spec)
        vals = [E.uf(f"in{i}") for i in range(spec["n_in"])]
        asy = {f"op{i}" for i in range(len(spec["ops"]))}
        kind, r = run_async(E, g, vals, graphs.uf_handlers(E, spec), asy, preempt=2 if deep else 1, trace=("mplang/runtime/interpreter",))
        E.check(kind == "ok", "terminates-preempted", f"{kind}: {r}")
        E.eq("same-result-preempted", list(r), graphs.denote(E, spec, vals))

    explore(h, unit="preempted", expect=("same-result-preempted",), functions=FUNCS, max_seconds=2400, max_paths=400000,
            bounds=f"3 graph shapes, all ops async, every completion order, {2 if deep else 1} preemption(s) at any source line of the scheduler")


def void(deep):
    """Operations without results are waited for, and their failures reported."""

    def h(E):
        import mplang.edsl.typing as T
        from mplang.edsl.graph import Graph

        ty = T.TensorType(T.i64, ())
        g = Graph()
        (x,) = [g.add_input("x", ty)]
        where = E.pick("where", [(0,), (1,), (2,), (0, 2)])
        names = []
        cur = x
        for i in range(2):
            if i in where:
                g.add_op(f"v{i}", [cur] if E.choose(f"arg{i}", 2) else [], output_types=[])
                names.append(f"v{i}")
            (cur,) = g.add_op(f"op{i}", [cur], output_types=[ty])
            names.append(f"op{i}")
        if 2 in where:
            g.add_op("v2", [cur] if E.choose("arg2", 2) else [], output_types=[])
            names.append("v2")
        g.add_output(cur)
        bad = E.pick("bad", [None, *names])
        asy = {n for n in names if E.choose(f"async_{n}", 2)}
        done = []

        class Boom(Exception):
            pass

        def mk(n):
            def handler(interp, op, *a):
                coop.point("op")
                if n == bad:
                    raise Boom(n)
                done.append(n)
                return E.uf(f"f_{n}", *a) if n.startswith("op") else (E.pick("ret", [None, []]) if n == "v2" else None)

            return handler

        kind, r = run_async(E, g, [E.uf("in")], {n: mk(n) for n in names}, asy, preempt=1 if deep else 0)
        if bad is not None:
            E.check(kind == "error" and isinstance(r, Boom), "own-error", f"{kind} {r!r}; failing {bad}; async {asy}")
            return
        E.check(kind == "ok", "terminates", f"{kind} {r!r}")
        E.eq("same-result", list(r), [E.uf("f_op1", E.uf("f_op0", E.uf("in")))])
        E.check(sorted(done) == sorted(names), "all-ran", f"evaluation returned after {done} of {names}; async {asy}")

    explore(h, unit="void-op", expect=("own-error", "same-result", "all-ran"), functions=FUNCS, max_seconds=2400, max_paths=400000,
            bounds="2 value operations and up to 2 result-less ones in any position, every async subset, at most one failing, every completion order (thorough: one preemption)")
