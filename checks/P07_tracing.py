"""Tracing against direct execution: the same Python body - argument layout, captured values, containers and nested
regions are solver-chosen - is run three ways: on plain reference terms, eagerly on the real interpreter, and traced by
the real tracer and then evaluated.  Results must agree in structure and in every value for every interpretation of the
operations and every immediate."""

import pathlib

import z3

from vp import boot, mesh
from vp.sym import Atom, explore

FUNCS = ("mplang.compile/evaluate", "Tracer.run/lift/finalize", "TracedFunction.prepare_inputs/reconstruct_outputs/align_region_inputs", "var_morph/var_demorph",
         "Interpreter.bind_primitive/lift/evaluate_graph", "simp trace rules", "func.func/func.call", "mplang.function", "mplang.fetch under tracing")
ASSUMPTIONS = ["operations are deterministic functions of their operands (modelled as uninterpreted functions)"]


def units(tier):
    deep = tier == "thorough"
    return [
        ("layouts", lambda: layouts(deep), 4),
        ("leaf-kinds", lambda: leaf_kinds(deep), 4),
        ("captures", lambda: captures(deep), 3),
        ("regions", lambda: regions(deep), 4),
        ("branches", branches, 2),
        ("loops", loops, 2),
        ("control-nesting", lambda: nesting(deep), 6),
        ("functions", functions, 1),
        ("lifting", lifting, 1),
        ("mp-function", mpfunction, 1),
    ]


# ---------------------------------------------------------------- machinery


def canon(t):
    """Engine-independent name of a term."""
    if isinstance(t, z3.ExprRef):
        return f"{t.decl().name()}({','.join(canon(c) for c in t.children())})" if t.num_args() else t.decl().name()
    if isinstance(t, tuple):
        return f"{t[0]}({','.join(canon(c) for c in t[1:])})" if len(t) > 1 else t[0]
    return str(t)


def handlers(E, depth=2):
    def fn(interp, op, *a):
        if op.attrs.get("boolean"):
            return pred(E, op.attrs["tag"], a, depth)
        return E.uf(f"fn_{op.attrs['tag']}_{len(a)}", *a)

    return {"vp.fn": fn}


def pred(E, tag, a, depth):
    name = f"p_{tag}[{','.join(canon(x) for x in a)}]"
    if name.count("fn_step") >= depth:
        return False
    memo = E.__dict__.setdefault("_p07", {})
    if name not in memo:
        memo[name] = bool(E.bool(name))
    return memo[name]  # decided once per term


class Ref:
    """Reference meaning of the operations: plain terms, plain control flow."""

    def __init__(self, E, depth=2):
        self.E, self.depth = E, depth

    def fn(self, tag, *a):
        return self.E.uf(f"fn_{tag}_{len(a)}", *a)

    def local(self, tag, *a):
        return self.fn(tag, *a)

    def pred(self, tag, *a):
        return pred(self.E, tag, a, self.depth)

    def pcall(self, f, *a, **k):
        return f(*a, **k)

    dcall = pcall

    def cond(self, p, t, e, *a, **k):
        return t(*a, **k) if p else e(*a, **k)

    def loop(self, c, b, s):
        while c(s):
            s = b(s)
        return s

    def func(self, f, *a, **k):
        return f

    def call(self, f, *a):
        return f(*a)


class Real:
    """The same operations through mplang."""

    def __init__(self, mp_typed=False):
        self.mp = mp_typed

    def local(self, tag, *a):
        return mesh.fn(tag, *a)

    def fn(self, tag, *a):
        if not self.mp:
            return mesh.fn(tag, *a)
        from mplang.dialects import simp

        return simp.pcall_static((0,), lambda *x: mesh.fn(tag, *x), *a)

    def pred(self, tag, *a):
        from mplang.dialects import simp

        return simp.pcall_static((0,), lambda *x: mesh.fn(tag, *x, boolean=True), *a)

    def pcall(self, f, *a, **k):
        from mplang.dialects import simp

        return simp.pcall_static((0,), f, *a, **k)

    def dcall(self, f, *a, **k):
        from mplang.dialects import simp

        return simp.pcall_dynamic(f, *a, **k)

    def cond(self, *a, **k):
        from mplang.dialects import simp

        return simp.uniform_cond(*a, **k)

    def loop(self, *a):
        from mplang.dialects import simp

        return simp.while_loop(*a)

    def func(self, f, *a, **k):
        from mplang.dialects import func

        return func.func(f, *a, **k)

    def call(self, *a):
        from mplang.dialects import func

        return func.call(*a)


def interp(E, worker=False, depth=2):
    hs = handlers(E, depth)
    if not worker:
        from mplang.runtime.interpreter import Interpreter

        return Interpreter(root_dir=boot.SCRATCH + "/root", handlers=hs)
    from mplang.backends.simp_worker import WORKER_HANDLERS
    from mplang.backends.simp_worker.infra import WorkerInfra
    from mplang.backends.simp_worker.mem import ThreadCommunicator
    from mplang.backends.simp_worker.request import create_request_interpreter
    from mplang.runtime.object_store import ObjectStore

    c = ThreadCommunicator(0, 1)
    c.set_peers([c])
    infra = WorkerInfra(rank=0, world_size=1, communicator=c, store=ObjectStore(), handlers={**WORKER_HANDLERS, **hs}, root_dir=pathlib.Path(boot.SCRATCH) / "root",
                        executor=None, async_ops=frozenset())
    return create_request_interpreter(infra, "job")


def obj(it, term, mp_typed=False):
    import mplang.edsl.typing as T
    from mplang.runtime.interpreter import InterpObject

    ty = T.TensorType(T.i64, ())
    return InterpObject(term, T.MPType(ty, (0,)) if mp_typed else ty, it)


def strip(x):
    """Nested result with every object replaced by its run-time value; container types kept."""
    from mplang.edsl.object import Object

    if isinstance(x, Object):
        return x.runtime_obj
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and not isinstance(x, Atom):
        return type(x)(*map(strip, x)) if hasattr(x, "_fields") else type(x)(map(strip, x))
    return x


def shape(x):
    if isinstance(x, dict):
        return ("dict", {k: shape(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)) and not isinstance(x, Atom):
        return (type(x).__name__, [shape(v) for v in x])
    return "none" if x is None else "*"


def three_ways(E, make, *, worker=False, eager=True, depth=2, what=""):
    """make(ops, wrap) -> (fn, args, kwargs, capturable) built over wrap(term) values."""
    import mplang as mp

    from vp.sym import short

    f, a, k = make(Ref(E, depth), lambda t: t)
    want = f(*a, **k)
    it = interp(E, worker, depth)
    real = Real(mp_typed=worker)
    f, a, k = make(real, lambda t: obj(it, t, worker))
    n_ctx = len(_stack())
    if eager:
        got = strip(mp.evaluate(f, *a, context=it, **k))
        E.check(shape(got) == shape(want), "eager-structure", f"{shape(got)} instead of {shape(want)}; {what}")
        E.eq("eager", got, want, f"eager {short(got)} want {short(want)}; {what}")
    traced = mp.compile(f, *a, context=it, **k)
    for round_ in (1, 2):
        got = strip(mp.evaluate(traced, *a, context=it, **k))
        E.check(shape(got) == shape(want), "traced-structure", f"{shape(got)} instead of {shape(want)}; {what}")
        E.eq("traced", got, want, f"trace+evaluate (run {round_}) {short(got)} want {short(want)}; {what}")
    E.check(len(_stack()) == n_ctx, "contexts-restored", what)
    return traced, want


def _stack():
    from mplang.edsl import context

    return list(getattr(context, "_context_stack", []))


# ---------------------------------------------------------------- units

# argument layouts over three slots (each slot is filled with any leaf)
LAYOUTS = {
    "flat": lambda x, y, z: ((x, y, z), {}),
    "list": lambda x, y, z: (([x, y], z), {}),
    "tuple": lambda x, y, z: (((x, (y,)), z), {}),
    "dict": lambda x, y, z: (({"b": x, "a": y}, z), {}),
    "kwargs": lambda x, y, z: ((x,), {"k2": y, "k1": z}),
    "kwargs-only": lambda x, y, z: ((), {"c": x, "a": [y], "b": {"z": z}}),
    "none": lambda x, y, z: ((x, None, [y, None]), {"k": (z, None)}),
    "empty": lambda x, y, z: (([], x, {}, (y,), ()), {"k": [z, []]}),
    "deep": lambda x, y, z: (([{"q": (x, [y])}],), {"w": {"v": [z]}}),
}


def leaves(v):
    if v is None:
        return []
    if isinstance(v, dict):
        return [l for k in sorted(v) for l in leaves(v[k])]
    if isinstance(v, (list, tuple)) and not isinstance(v, Atom):
        return [l for e in v for l in leaves(e)]
    return [v]


def is_imm(x):
    from vp.sym import SymInt

    return isinstance(x, (int, SymInt)) and not isinstance(x, bool) or isinstance(x, str)


RESULTS = ("applied", "reordered", "echo", "mixed", "twice", "single", "nothing", "dict-out", "constant-only")


def body(ops, how, extra=()):
    def f(*a, **k):
        ls = leaves([a, dict(sorted(k.items()))])
        vs = [l for l in ls if not is_imm(l)] + list(extra)
        ims = [l for l in ls if is_imm(l)]
        if how == "nothing":
            return None
        if how == "constant-only" or not vs:
            return {"n": ims, "s": (7, [])}
        if how == "single":
            return ops.fn("f", *vs)
        if how == "applied":
            return [ops.fn(f"f{i}", v) for i, v in enumerate(vs)]
        if how == "reordered":
            return tuple(ops.fn("g", *(vs[i:] + vs[:i])) for i in range(len(vs)))[::-1]
        if how == "echo":  # the arguments themselves, containers included
            return (a, k)
        if how == "twice":
            r = ops.fn("f", vs[-1], vs[0])
            return [r, vs[0], r, [vs[-1], vs[0]]]
        if how == "mixed":
            return {"z": (5, vs[0]), "a": [ops.fn("f", *vs), None, *ims], "m": ims[:1]}
        return {"b": ops.fn("f", vs[0]), "a": vs[-1], "c": {"y": ops.fn("g", *reversed(vs)), "x": 1}}

    return f


def layouts(deep):
    """Every argument layout x every result form, all slots objects, two slots possibly the same object."""

    def h(E):
        lay = E.pick("layout", sorted(LAYOUTS))
        how = E.pick("result", RESULTS)
        same = E.choose("same", 4 if deep else 3)  # all distinct / x is y / y is z / all one
        terms = [E.uf("x"), E.uf("y"), E.uf("z")]

        def make(ops, wrap):
            o = [wrap(t) for t in terms]
            if same in (1, 3):
                o[1] = o[0]
            if same in (2, 3):
                o[2] = o[1]
            a, k = LAYOUTS[lay](*o)
            return body(ops, how), a, k

        three_ways(E, make, what=f"{lay}/{how}/same={same}")

    explore(h, unit="layouts", expect=("traced", "eager"), functions=FUNCS, bounds="9 argument layouts (positional, keyword, nested, empty and None containers) x 9 result forms x aliasing of 3 slots",
            max_seconds=2400, max_paths=10**6)


def leaf_kinds(deep):
    """Each slot is an object or an immediate of any value."""

    def h(E):
        lay = E.pick("layout", sorted(LAYOUTS) if deep else ["flat", "kwargs", "dict", "none"])
        how = E.pick("result", RESULTS)
        kinds = [E.choose(f"kind{i}", 3) for i in range(3)]
        terms = [E.uf("x"), E.uf("y"), E.uf("z")]
        ims = [E.int(f"i{i}", -100, 100) if k == 1 else None for i, k in enumerate(kinds)]

        def make(ops, wrap):
            o = [wrap(t) if k == 0 else (im if k == 1 else f"text{i}") for i, (t, k, im) in enumerate(zip(terms, kinds, ims))]
            a, k = LAYOUTS[lay](*o)
            return body(ops, how), a, k

        three_ways(E, make, what=f"{lay}/{how}/kinds={kinds}")

    explore(h, unit="leaf-kinds", expect=("traced", "eager"), functions=FUNCS, bounds="3 slots, each object / any integer immediate in -100..100 / text; " + ("9" if deep else "4") + " layouts x 9 result forms",
            max_seconds=2400, max_paths=10**6)


def captures(deep):
    """Outer objects used inside the traced function, in any order, also as arguments and as results."""

    def h(E):
        n = 3
        order = [E.choose(f"use{i}", 4) for i in range(3)]  # 3 = the parameter
        inner = E.choose("inner", 3)  # plain, helper closure, traced-in-trace through evaluate of a python function
        arg_is = E.choose("arg", 4 if deep else 2)  # 0 fresh, i captured object i-1
        ret = E.pick("ret", ["value", "captured-too", "captured-only"])

        def make(ops, wrap):
            cap = [wrap(E.uf(f"c{i}")) for i in range(n)]
            arg = wrap(E.uf("x")) if arg_is == 0 else cap[arg_is - 1]
            state = {"cap": list(cap)}

            def f(p):
                pool = [*state["cap"], p]
                used = [pool[i] for i in order]
                if inner == 1:
                    def helper(q):
                        return ops.fn("h", q, *used)
                    r = ops.fn("g", helper(p), used[0])
                elif inner == 2:
                    r = (lambda *z: [ops.fn("s", v) for v in z])(*used, p)
                else:
                    r = ops.fn("f", *used)
                if ret == "value":
                    return r
                if ret == "captured-only":
                    return [used[1], used[0], 3, used[1]]
                return (used[2], r, pool[order[1]])

            return f, (arg,), {}

        three_ways(E, make, what=f"order={order} inner={inner} arg={arg_is} ret={ret}")

    explore(h, unit="captures", expect=("traced", "eager"), functions=FUNCS, bounds="3 captured objects and 1 parameter used in any order (4^3), captured = argument, 3 result forms",
            max_seconds=2400, max_paths=10**6)


# one region-introducing step; each takes (ops, env list) and returns a nested result
def region(E, ops, kind, env, i, use):
    x, y, z = use
    if kind == "pcall":
        return ops.pcall(lambda p, *, k, n: {"u": ops.local(f"a{i}", p, k), "n": n, "t": (k, z_local(ops, z))}, x, k=y, n=4)
    if kind == "pcall-args":
        return ops.pcall(lambda p, q, r: [r, p["w"], ops.local(f"b{i}", q, p["w"])], {"w": x, "v": 9}, y, z)
    if kind == "dcall":
        return ops.dcall(lambda ps: (ops.local(f"c{i}", *ps), ps[0], None), [x, y, z])
    if kind == "nested":
        return ops.pcall(lambda p: inner_two(ops, i, p, y, z), x)
    raise AssertionError(kind)


def z_local(ops, z):
    return z  # a captured object returned untouched from inside the region


def inner_two(ops, i, p, y, z):
    u = ops.local(f"d{i}", p, y)
    return [ops.local(f"e{i}", z, u, y), y, u]


def regions(deep):
    """Party-local regions (static and dynamic) inside a traced function; results feed a following region."""
    KINDS = ["pcall", "pcall-args", "dcall", "nested"]

    def h(E):
        k1, k2 = E.pick("k1", KINDS), E.pick("k2", KINDS)
        use1 = [E.choose(f"u{j}", 3) for j in range(3)]
        use2 = [E.choose(f"w{j}", 3) for j in range(2)] if deep else [E.choose("w", 3), 0]

        def make(ops, wrap):
            c = wrap(E.uf("c"))

            def f(a, b):
                env = [a, b, c]
                r1 = region(E, ops, k1, env, 1, [env[j] for j in use1])
                l1 = [v for v in leaves(r1) if not is_imm(v)]
                r2 = region(E, ops, k2, env, 2, [l1[use2[0] % len(l1)], env[use2[1]], l1[-1]])
                return {"one": r1, "two": r2, "k": 3}

            return f, (wrap(E.uf("x")), wrap(E.uf("y"))), {}

        three_ways(E, make, worker=True, what=f"{k1}{use1} then {k2}{use2}")

    explore(h, unit="regions", expect=("traced", "eager"), functions=FUNCS, bounds="2 chained regions of 4 kinds (keyword, nested-argument, dynamic, nested captures), operands = parameters or captured object in any order",
            max_seconds=2400, max_paths=10**6)


BR = ["leaf", "pair", "swapped", "dict", "imm1", "imm2", "none", "list-pair", "captured", "unused-arg"]


def branches():
    """uniform_cond whose two branches return solver-chosen nested forms: either the front end refuses, or the result is
    the one of the branch taken."""

    def form(ops, how, b, cap):
        def f(p, q, *, k=0):
            v = ops.fn(f"v{b}", p, q)
            if how == "leaf":
                return v
            if how == "pair":
                return (v, p)
            if how == "swapped":
                return (q, v)
            if how == "dict":
                return {"x": v, "y": q}
            if how == "imm1":
                return (v, 1)
            if how == "imm2":
                return (v, 2)
            if how == "none":
                return (v, None)
            if how == "list-pair":
                return [v, q]
            if how == "captured":
                return (ops.fn(f"w{b}", cap[b], q), cap[1 - b])
            return (p, k)

        return f

    def h(E):
        import mplang as mp

        ht, he = E.pick("then", BR), E.pick("else", BR)
        order = E.choose("order", 3)

        def make(ops, wrap):
            caps = [wrap(E.uf("c0")), wrap(E.uf("c1"))]

            def f(a, b):
                args = [(a, b), (b, a), (a, a)][order]
                return [ops.cond(ops.pred("p", a), form(ops, ht, 0, caps), form(ops, he, 1, caps), *args, k=6), b]

            return f, (wrap(E.uf("x")), wrap(E.uf("y"))), {}

        same = shape_of(ht) == shape_of(he)
        it = interp(E, True)
        f, a, k = make(Real(True), lambda t: obj(it, t, True))
        try:
            mp.compile(f, *a, context=it, **k)
        except (TypeError, ValueError):
            E.check(not same, "same-form-accepted", f"branches {ht}/{he} refused")
            E.cover("refused")
            return
        three_ways(E, make, worker=True, what=f"then={ht} else={he} order={order}")

    explore(h, unit="branches", expect=("traced", "refused"), functions=FUNCS, bounds="10 x 10 branch result forms, 3 argument orders, both decisions", max_seconds=2400, max_paths=10**6)


def shape_of(h):
    # forms with the same nesting, constants in the same places with the same values
    return {"leaf": "*", "pair": "(*,*)", "swapped": "(*,*)", "dict": "{x,y}", "imm1": "(*,1)", "imm2": "(*,2)", "none": "(*,None)", "list-pair": "[*,*]", "captured": "(*,*)",
            "unused-arg": "(*,6)"}[h]


ST = ["leaf", "pair", "dict", "nested"]
NEXT = ["same", "rotated", "other-container", "captured-in"]


def loops():
    """while_loop over nested state; the body permutes, captures, and may return another container form (refused)."""

    def h(E):
        import mplang as mp

        st, nx = E.pick("state", ST), E.pick("next", NEXT)
        dup = E.choose("dup", 2)
        capc = E.choose("cond_captures", 2)

        def make(ops, wrap):
            c0, c1 = wrap(E.uf("c0")), wrap(E.uf("c1"))

            def build(l):
                return {"leaf": lambda: l[0], "pair": lambda: (l[0], l[1]), "dict": lambda: {"b": l[0], "a": l[1]}, "nested": lambda: [l[0], {"k": (l[1],)}]}[st]()

            def other(l):
                return {"leaf": lambda: [l[0]], "pair": lambda: [l[0], l[1]], "dict": lambda: (l[0], l[1]), "nested": lambda: [l[0], l[1]]}[st]()

            def flat(s):
                return leaves(s) if st != "dict" else [s["b"], s["a"]]

            def c(s):
                return ops.pred("q", flat(s)[0], *([c1] if capc else []))

            def b(s):
                l = flat(s)
                new = [ops.fn("step", l[0], c0 if nx == "captured-in" else l[-1])]
                if st != "leaf":
                    new.append(ops.fn("other", l[1], c1) if nx == "captured-in" else l[1])
                    if nx == "rotated":
                        new = [ops.fn("step", l[1]), l[0]]
                return other(new) if nx == "other-container" else build(new)

            def f(a, bb):
                s = build([a, a if dup else bb])
                return {"r": ops.loop(c, b, s), "keep": a}

            return f, (wrap(E.uf("x")), wrap(E.uf("y"))), {}

        it = interp(E, True)
        f, a, k = make(Real(True), lambda t: obj(it, t, True))
        try:
            mp.compile(f, *a, context=it, **k)
        except (TypeError, ValueError):
            E.check(nx == "other-container", "same-form-accepted", f"state {st} next {nx} refused")
            E.cover("refused")
            return
        three_ways(E, make, worker=True, what=f"state={st} next={nx} dup={dup} capc={capc}")

    explore(h, unit="loops", expect=("traced", "refused"), functions=FUNCS, bounds="4 state forms x 4 body forms, 0-2 iterations", max_seconds=2400, max_paths=10**6)


def nesting(deep):
    """Regions inside regions: values of every enclosing level are captured, by either branch or either loop part."""
    KINDS = ["cond", "loop", "pcall", "cond-else-only", "loop-cond-only"]

    def h(E):
        ks = [E.pick(f"k{i}", KINDS) for i in range(3 if deep else 2)]
        use = [E.choose(f"u{i}", 4) for i in range(3 if deep else 2)]
        if not deep:
            use.append((use[0] + 1 + use[1]) % 4)
        ret = E.choose("ret", 2)

        def make(ops, wrap):
            c = wrap(E.uf("c"))

            def level(i, env):
                """computes one value from env (outermost values first)"""
                pick = [env[u % len(env)] for u in use]
                if i == len(ks):
                    return ops.fn("leaf", *pick)
                k = ks[i]
                if k == "pcall":
                    m = ops.pcall(lambda p: ops.local(f"m{i}", p, pick[1], pick[0]), pick[2])
                    return ops.fn(f"z{i}", level(i + 1, [*env, m]), m)
                if k == "cond":
                    def t(p):
                        return level(i + 1, [*env, ops.fn(f"t{i}", p, env[-1])])

                    return ops.cond(ops.pred(f"p{i}", pick[0]), t, lambda p: ops.fn(f"e{i}", pick[1], p), pick[2])
                if k == "cond-else-only":
                    return ops.cond(ops.pred(f"p{i}", pick[0]), lambda p: p, lambda p: level(i + 1, [*env, p]), pick[1])
                if k == "loop":
                    def b(s):
                        inner = level(i + 1, [*env, s[1]])
                        return (ops.fn("step", s[0], pick[0]), ops.fn(f"b{i}", inner, s[1]) if ret else inner)

                    return ops.loop(lambda s: ops.pred(f"q{i}", s[0]), b, (pick[1], pick[2]))[1]

                def cnd(s):
                    return ops.pred(f"r{i}", ops.fn("cc", s[0], pick[2], pick[0]))

                return ops.fn("after", *ops.loop(cnd, lambda s: (ops.fn("step", s[0]), s[0]), (pick[0], pick[1])), level(i + 1, env))

            def f(a, b):
                return {"v": level(0, [c, a, b]), "a": a}

            return f, (wrap(E.uf("x")), wrap(E.uf("y"))), {}

        three_ways(E, make, worker=True, depth=2, what=f"{ks} use={use} ret={ret}")

    explore(h, unit="control-nesting", expect=("traced", "eager"), functions=FUNCS, bounds=("3" if deep else "2") + " nested regions of 5 kinds, operands from any enclosing level (4^3 choices), loops 0-1 iterations per level",
            max_seconds=2400, max_paths=10**6)


def functions():
    """func.func / func.call: function handles called once or twice, with nested results and captured outer values."""

    def h(E):
        n = E.choose("params", 2) + 1
        cap = E.choose("captures", 3)  # none, outer capture, capture of a value computed in the same function
        res = E.pick("res", ["leaf", "pair", "dict-imm", "param"])
        calls = E.choose("calls", 2) + 1
        two = E.choose("two_functions", 2)

        def make(ops, wrap):
            outer = wrap(E.uf("c"))

            def f(a, b):
                mid = ops.fn("mid", b, a)
                capd = [None, outer, mid][cap]

                def g(*p):
                    v = ops.fn("g", *p, *([capd] if capd is not None else []))
                    return {"leaf": lambda: v, "pair": lambda: (v, p[0]), "dict-imm": lambda: {"k": 4, "a": [v]}, "param": lambda: p[-1]}[res]()

                hd = ops.func(g, *[a, b][:n])
                out = []
                if two:
                    h2 = ops.func(lambda p: ops.fn("k", p, mid) if cap else ops.fn("k", p), b)
                    out.append(ops.call(h2, a))
                for i in range(calls):
                    out.append(ops.call(hd, *([a, b] if i == 0 else [b, mid])[:n]))
                return out

            return f, (wrap(E.uf("x")), wrap(E.uf("y"))), {}

        import mplang as mp

        if cap:
            it = interp(E)
            f, a, k = make(Real(), lambda t: obj(it, t))
            try:
                mp.compile(f, *a, context=it, **k)
            except (TypeError, ValueError, NotImplementedError):
                E.cover("capture-refused")
                return
        three_ways(E, make, eager=False, what=f"n={n} cap={cap} res={res} calls={calls} two={two}")

    explore(h, unit="functions", expect=("traced",), functions=FUNCS, bounds="1-2 functions, 1-2 parameters, 1-2 calls, 4 result forms, captured outer or computed value", max_seconds=2400, max_paths=10**6)


def lifting():
    """A traced value used later in eager code is computed from what its tracer recorded."""

    def h(E):
        from mplang.edsl.tracer import Tracer
        import mplang as mp

        order = E.choose("order", 3)
        depth = E.choose("depth", 3)
        it = interp(E)
        xs = [obj(it, E.uf(n)) for n in "xyz"]
        terms = [E.uf(n) for n in "xyz"]
        sel = [[0, 1], [1, 0], [2, 2]][order]
        with Tracer():
            v = mesh.fn("f", *[xs[i] for i in sel])
            want = E.uf("fn_f_2", *[terms[i] for i in sel])
            w, want_w = v, want
            for d in range(depth):
                w = mesh.fn("g", w, xs[d])
                want_w = E.uf("fn_g_2", want_w, terms[d])
        with it:
            r = mesh.fn("h", w, xs[2])
            r2 = mesh.fn("h", v, w)
        E.eq("lifted", strip(r), E.uf("fn_h_2", want_w, terms[2]))
        E.eq("lifted", strip(r2), E.uf("fn_h_2", want, want_w))

    explore(h, unit="lifting", expect=("lifted",), functions=FUNCS, bounds="chains of up to 3 operations over 3 objects")


def mpfunction():
    """mplang.function: the decorated function runs on all parties with its own arguments; fetch is identity under tracing."""

    def h(E):
        import mplang as mp

        lay = E.pick("layout", sorted(LAYOUTS))
        how = E.pick("result", [r for r in RESULTS if r != "nothing"])
        fetched = E.choose("fetch", 2)
        terms = [E.uf("x"), E.uf("y"), E.uf("z")]

        def make(ops, wrap):
            a, k = LAYOUTS[lay](*[wrap(t) for t in terms])

            class Loc:
                fn = staticmethod(ops.local)

            g = body(Loc, how)

            def f(*a, **k):
                r = g(*a, **k) if isinstance(ops, Ref) else mp.function(g)(*a, **k)
                return mp.fetch(r) if fetched and not isinstance(ops, Ref) and mp.is_tracing() else r

            return f, a, k

        three_ways(E, make, worker=True, what=f"{lay}/{how}")

    explore(h, unit="mp-function", expect=("traced", "eager"), functions=FUNCS, bounds="9 layouts x 8 result forms")
