"""Graph evaluation: the real `Interpreter.evaluate_graph` (synchronous path) on solver-chosen graphs whose operations
are uninterpreted functions of their operands; the returned terms must equal the dataflow denotation for every
interpretation of the operations and every input."""

from vp import boot, graphs
from vp.sym import explore

FUNCS = ("Interpreter.evaluate_graph (sync path)", "Graph.add_op/add_input/add_output", "registry.def_impl/get_impl")
ASSUMPTIONS = ["operations are deterministic functions of their operands (modelled as uninterpreted functions)"]


def interp(**k):
    from mplang.runtime.interpreter import Interpreter

    return Interpreter(root_dir=boot.SCRATCH + "/root", **k)


def units(tier):
    deep = tier == "thorough"
    return [
        ("wiring", lambda: wiring(4 if deep else 3, 2, False), 8),
        ("operand-order", lambda: wiring(2, 3, True), 4),
        ("void-and-errors", errors, 2),
        ("registered-impl", registered, 1),
        ("nested-regions", nested, 2),
        ("arity-mismatch", mismatch, 1),
    ]


def wiring(n_ops, ar, ordered):
    name = "operand-order" if ordered else "wiring"

    def h(E):
        spec = graphs.symbolic_graph(E, n_ops=n_ops, n_in=2, max_arity=ar, max_outs=2, multi={0, 1} if n_ops == 3 else {0}, ordered=ordered)
        g, ins = graphs.to_graph(spec)
        it = interp(handlers=graphs.uf_handlers(E, spec))
        a = [E.uf("a0"), E.uf("a1")]
        b = [E.uf("b0"), E.uf("b1")]
        E.eq("first-run", list(it.evaluate_graph(g, a)), graphs.denote(E, spec, a), f"{spec}")
        # same interpreter, same graph, other inputs; then the first inputs again
        E.eq("second-run", list(it.evaluate_graph(g, b)), graphs.denote(E, spec, b), f"{spec}")
        E.eq("third-run", list(it.evaluate_graph(g, a)), graphs.denote(E, spec, a), f"{spec}")

    explore(h, unit=name, expect=("first-run", "second-run"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds=f"{n_ops} ops, up to {ar} operands ({'ordered, repeated' if ordered else 'sets'}), up to 2 results, 2 inputs, 1-2 outputs incl. repeats and inputs")


def errors():
    """An op without results runs exactly once, in program order; a failing op's own error surfaces and does not
    disturb later runs."""

    def h(E):
        spec = graphs.symbolic_graph(E, n_ops=3, n_in=1, max_arity=1, max_outs=1, ordered=False)
        from mplang.edsl.graph import Graph
        import mplang.edsl.typing as T

        ty = T.TensorType(T.i64, ())
        g = Graph()
        vals = [g.add_input("x", ty)]
        pos = E.choose("void_pos", 4)
        calls = []
        seen = []

        def void(interp_, op, *a):
            calls.append("void")
            seen.append(a)
            return []

        varg = None
        for i, (refs, no) in enumerate(spec["ops"]):
            if pos == i:
                varg = len(vals) - 1
                g.add_op("vop", [vals[varg]], output_types=[])
            vals += g.add_op(f"op{i}", [vals[r] for r in refs], output_types=[ty] * no)
        if pos == 3:
            varg = len(vals) - 1
            g.add_op("vop", [vals[varg]], output_types=[])
        for o in spec["outs"]:
            g.add_output(vals[o])
        hs = graphs.uf_handlers(E, spec, calls)
        hs["vop"] = void
        bad = E.choose("bad", 4)

        class Boom(Exception):
            pass

        armed = [False]
        if bad < 3:
            good = hs[f"op{bad}"]

            def boom(interp_, op, *a):
                if armed[0]:
                    raise Boom("x")
                return good(interp_, op, *a)

            hs[f"op{bad}"] = boom
        it = interp(handlers=hs)
        a = [E.uf("a0")]
        want = graphs.denote(E, spec, a)
        E.eq("result", list(it.evaluate_graph(g, a)), want)
        E.check(calls.count("void") == 1, "void-once", f"{calls}")
        E.check(all(calls.count(i) == 1 for i in range(3)), "each-op-once", f"{calls}")
        full = list(a)
        for i, (refs, no) in enumerate(spec["ops"]):
            full += [E.uf(f"f{i}_{j}_{len(refs)}", *[full[r] for r in refs]) for j in range(no)]
        E.eq("void-operand", list(seen[0]), [full[varg]])
        if bad < 3:
            armed[0] = True
            try:
                it.evaluate_graph(g, [E.uf("b0")])
                E.fail("error-surfaces", "no error")
            except Boom:
                E.cover("error-surfaces")
            armed[0] = False
            E.eq("after-error", list(it.evaluate_graph(g, a)), want)

    explore(h, unit="void-and-errors", expect=("result", "void-once", "error-surfaces", "after-error"), functions=FUNCS, max_seconds=2400,
            max_paths=10**6, bounds="3 ops, <=1 operand each, a result-less op at any position, any one op failing")


def registered():
    """Instance handlers take precedence over globally registered ones; an unknown op is an error."""

    def h(E):
        from mplang.edsl.graph import Graph
        from mplang.edsl.registry import register_impl
        import mplang.edsl.typing as T

        ty = T.TensorType(T.i64, ())
        tag = {}
        for i in range(2):
            def f(interp_, op, *a, i=i):
                return E.uf(f"glob{i}", *a)
            register_impl(f"vp.reg{i}", f)
        inst = {}
        for i in range(2):
            if E.choose(f"inst{i}", 2):
                inst[f"vp.reg{i}"] = lambda it, op, *a, i=i: E.uf(f"inst{i}", *a)
                tag[i] = f"inst{i}"
            else:
                tag[i] = f"glob{i}"
        unknown = E.choose("unknown", 2)
        g = Graph()
        x = g.add_input("x", ty)
        (y,) = g.add_op("vp.reg0", [x], output_types=[ty])
        (z,) = g.add_op("vp.reg1", [y], output_types=[ty])
        if unknown:
            (z,) = g.add_op("vp.nobody", [z], output_types=[ty])
        g.add_output(z)
        it = interp(handlers=inst)
        a = E.uf("a")
        if unknown:
            try:
                it.evaluate_graph(g, [a])
                E.fail("unknown-op", "executed an op without implementation")
            except NotImplementedError:
                E.cover("unknown-op")
        else:
            E.eq("dispatch", list(it.evaluate_graph(g, [a])), [E.uf(tag[1], E.uf(tag[0], a))])

    explore(h, unit="registered-impl", expect=("unknown-op", "dispatch"), functions=FUNCS, bounds="2 ops, instance/global handler each")


def nested():
    """An operation with regions evaluates them with the same interpreter without disturbing the outer run."""

    def h(E):
        inner = graphs.symbolic_graph(E, n_ops=2, n_in=2, max_arity=1, ordered=False, prefix="i")
        outer = graphs.symbolic_graph(E, n_ops=2, n_in=1, max_arity=1, ordered=False, prefix="o")
        from mplang.edsl.graph import Graph
        import mplang.edsl.typing as T

        ty = T.TensorType(T.i64, ())
        gi, _ = graphs.to_graph(inner, "in{}")
        g = Graph()
        vals = [g.add_input("x", ty)]
        vals += g.add_op("op0", [vals[r] for r in outer["ops"][0][0]], output_types=[ty])
        l = E.choose("left", 2)
        r = E.choose("right", 2)
        vals += g.add_op("call", [vals[l], vals[r]], output_types=[ty] * len(gi.outputs), regions=[gi])
        vals += g.add_op("op1", [vals[E.choose("last", len(vals))]], output_types=[ty])
        for v in vals:
            g.add_output(v)
        hs = graphs.uf_handlers(E, outer)
        for i, (refs, no) in enumerate(inner["ops"]):
            hs[f"in{i}"] = lambda it, op, *a, i=i: E.uf(f"f{i}_0_{len(a)}", *a)
        hs["op0"] = lambda it, op, *a: E.uf(f"o0_{len(a)}", *a)
        hs["op1"] = lambda it, op, *a: E.uf(f"o1_{len(a)}", *a)

        def call(it, op, *a):
            res = it.evaluate_graph(op.regions[0], list(a))
            return res[0] if len(res) == 1 else res

        hs["call"] = call
        it = interp(handlers=hs)
        a = E.uf("a")
        got = list(it.evaluate_graph(g, [a]))
        want = [a, E.uf(f"o0_{len(outer['ops'][0][0])}", *[a for _ in outer["ops"][0][0]])]
        want += graphs.denote(E, inner, [want[l], want[r]])
        lastv = g.operations[-1].inputs[0]
        idx = vals.index(lastv)
        want += [E.uf("o1_1", want[idx])]
        E.eq("nested", got, want, f"inner {inner} outer {outer}")

    explore(h, unit="nested-regions", expect=("nested",), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2-op region called from a 3-op graph, every wiring")


def mismatch():
    """A kernel returning the wrong number of results, or a caller passing the wrong number of inputs, is an error."""

    def h(E):
        from mplang.edsl.graph import Graph
        import mplang.edsl.typing as T

        ty = T.TensorType(T.i64, ())
        n_decl = 2 + E.choose("decl", 2)
        n_ret = E.choose("ret", 5)
        n_in = E.choose("nin", 4)
        g = Graph()
        xs = [g.add_input(f"x{i}", ty) for i in range(2)]
        ys = g.add_op("op", xs, output_types=[ty] * n_decl)
        for y in ys:
            g.add_output(y)
        it = interp(handlers={"op": lambda it, op, *a: [E.uf(f"r{j}", *a) for j in range(n_ret)]})
        args = [E.uf(f"a{i}") for i in range(n_in)]
        ok = n_ret == n_decl and n_in == 2
        try:
            r = list(it.evaluate_graph(g, args))
        except Exception:  # noqa: BLE001
            E.check(not ok, "well-formed-runs", f"raised on a well-formed call {n_decl} {n_ret} {n_in}")
        else:
            E.check(ok, "rejects", f"declared {n_decl}, returned {n_ret}, inputs {n_in}: got {len(r)} results")
            E.eq("results", r, [E.uf(f"r{j}", *args) for j in range(n_decl)])

    explore(h, unit="arity-mismatch", expect=("well-formed-runs", "results"), functions=FUNCS, bounds="2-3 declared results, 0-4 returned, 0-3 inputs")
