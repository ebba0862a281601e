"""Laws of the type system: pairs and triples of solver-chosen types with symbolic sizes.  The reference is the list of
public attributes of each type, read without using the types' own equality."""

from vp import types as ty
from vp.sym import explore

FUNCS = ("__eq__/__hash__ of every mplang type class", "TracedFunction.is_output_signature_match/is_input_signature_match", "simp uniform_cond/while_loop signature checks")


def units(tier):
    deep = tier == "thorough"
    return [
        ("pairs", lambda: pairs(deep), 6),
        ("nested-pairs", lambda: nested(deep), 6),
        ("unrelated", unrelated, 1),
        ("triples", lambda: triples(deep), 2),
        ("signatures", signatures, 2),
    ]


def laws(E, a, b, what=""):
    w = f"{a} / {b}; {what}"
    eq, back = (a == b), (b == a)
    eq, back = bool(eq), bool(back)
    E.check(bool(a == a), "reflexive", w)
    E.check(eq == back, "symmetric", w)
    E.check(bool(a != b) == (not eq), "not-equal-consistent", w)
    r = ty.same(ty.canonical(a), ty.canonical(b))
    if eq:
        E.check(r, "equal-means-same-layout", f"equal although they differ: {w}")
        E.check(hash(a) == hash(b), "equal-hash", f"equal types hash differently: {w}")
    else:
        E.check(r is False or (r is not True and ~r), "same-layout-is-equal", f"unequal although identical: {w}")


def pairs(deep):
    kinds = (*ty.PLAIN, *ty.NESTED)

    def h(E):
        k = E.pick("kind", kinds)
        leaves = ("int", "custom", "vector")
        a = ty.gen(E, "a", 1, leaves, kind=k, small=not deep and "outer")
        b = ty.gen(E, "b", 1, leaves if deep else ("int",), kind=k, small=not deep and "outer")
        laws(E, a, b)

    explore(h, unit="pairs", expect=("reflexive", "equal-hash", "same-layout-is-equal"), functions=FUNCS, bounds="every type constructor against itself; all attributes symbolic or chosen; ranks 0-2, dims -1..3, 0-2 columns, party tuples",
            max_seconds=2400, max_paths=10**6)


def nested(deep):
    """Same outer constructor, inner types of different constructors."""

    def h(E):
        k = E.pick("kind", ty.NESTED)
        inner = E.pick("inner", [("int", "float"), ("int", "phe-pt"), ("phe-ct", "custom"), ("bfv-pt", "bfv-ct"), ("point", "ecscalar"), ("privkey", "pubkey"), ("pubkey", "attested"), ("quote", "measurement"),
                                 ("tensor", "vector"), ("ss", "mp"), ("table", "table")])
        a = wrap(E, "a", k, sub(E, "ai", inner[E.choose("ia", 2)]))
        b = wrap(E, "b", k, sub(E, "bi", inner[E.choose("ib", 2)]))
        laws(E, a, b)

    explore(h, unit="nested-pairs", expect=("reflexive", "equal-hash", "same-layout-is-equal"), functions=FUNCS, bounds="tensor/table/ss/mp of every pair of easily confused inner types", max_seconds=2400, max_paths=10**6)


def sub(E, n, kind):
    import mplang.edsl.typing as T

    if kind == "tensor":
        return T.TensorType(T.i64, (E.int(n + "d", 1, 2),))
    if kind == "ss":
        return T.SSType(T.i64)
    if kind == "mp":
        return T.MPType(T.i64, (E.int(n + "p", 0, 1),))
    if kind == "table":
        names = E.pick(n + "cols", [("x", "y"), ("y", "x"), ("x",)])
        return T.TableType({c: T.i64 for c in names})
    return ty.leaf(E, n, kind, small=True)


def wrap(E, n, k, inner):
    import mplang.edsl.typing as T

    if k == "tensor":
        return T.TensorType(inner, (2,))
    if k == "ss":
        return T.SSType(inner)
    if k == "mp":
        return T.MPType(inner, (0,))
    return T.TableType({"c": inner})


def unrelated():
    """Types of different constructors are never equal, whatever their attributes."""

    def h(E):
        ks = [*ty.PLAIN, *ty.NESTED]
        i = E.choose("i", len(ks))
        j = E.choose("j", len(ks))
        if i == j:
            return
        a, b = ty.gen(E, "a", 1, ("int",), kind=ks[i]), ty.gen(E, "b", 1, ("int",), kind=ks[j])
        E.check(not bool(a == b) and not bool(b == a), "different-constructors-differ", f"{a} / {b}")
        # and neither equals its element / inner type
        for t in (a, b):
            for attr in ("element_type", "value_type", "pt_type", "vector_type", "inner_type"):
                v = getattr(t, attr, None)
                if v is not None:
                    E.check(not bool(t == v) and not bool(v == t), "wrapper-differs-from-content", f"{t} / {v}")
        for o in (None, 0, "i64", str(a), (a,)):
            E.check(not bool(a == o), "not-equal-to-other-values", f"{a} == {o!r}")

    def first(E):
        # one representative of each constructor: attributes are irrelevant to this law, decided on the class pair
        h(Fixed0(E))

    explore(first, unit="unrelated", expect=("different-constructors-differ",), functions=FUNCS, bounds="every ordered pair of different constructors", max_seconds=2400, max_paths=10**6)


class Fixed0:
    """Only the constructor pair is branched on; other attributes take their first value."""

    def __init__(self, E):
        self._E = E

    def __getattr__(self, n):
        return getattr(self._E, n)

    def choose(self, name, n):
        return self._E.choose(name, n) if name in ("i", "j") else 0

    def pick(self, name, seq):
        return list(seq)[self.choose(name, len(list(seq)))]


def triples(deep):
    """Transitivity (through hashing and equality) on triples of one constructor."""

    def h(E):
        k = E.pick("kind", ["tensor", "vector", "bfv-key", "mp", "table-rows"])
        import mplang.edsl.typing as T
        from mplang.dialects import bfv

        def mk(n):
            if k == "tensor":
                return T.TensorType(T.i64, ty.dims(E, n, 2 if deep else 1))
            if k == "vector":
                return T.VectorType(T.i64, E.int(n + "z", 1, 3))
            if k == "bfv-key":
                return bfv.KeyType(E.pick(n + "k", ["Public", "Private"]), E.int(n + "d", 1, 2))
            if k == "mp":
                return T.MPType(T.i64, (E.int(n + "p", 0, 1), E.int(n + "q", 0, 1)))
            v = E.int(n + "n", -1, 2)
            E.assume(v != 0)
            return T.TableType({c: T.i64 for c in E.pick(n + "o", [("x", "y"), ("y", "x")])}, nrows=v)

        a, b, c = mk("a"), mk("b"), mk("c")
        if bool(a == b) and bool(b == c):
            E.check(bool(a == c), "transitive", f"{a} / {b} / {c}")
            E.check(hash(a) == hash(c), "equal-hash", f"{a} / {c}")

    explore(h, unit="triples", expect=("transitive",), functions=FUNCS, bounds="triples of 5 constructors with symbolic sizes", max_seconds=2400, max_paths=10**6)


def signatures():
    """A conditional's branches and a loop's body are accepted exactly when their types are the declared ones."""

    def h(E):
        import mplang.edsl.typing as T
        from mplang.dialects import simp
        from mplang.edsl.tracer import Tracer
        import mplang.edsl as el

        k = E.pick("kind", ["tensor", "table", "ss", "vector"])

        def mk(n):
            if k == "tensor":
                return T.TensorType(E.pick(n + "e", [T.i64, T.u64, T.f64]), ty.dims(E, n, E.choose(n + "r", 3), hi=2))
            if k == "table":
                return T.TableType({c: T.i64 for c in E.pick(n + "o", [("x", "y"), ("y", "x"), ("x",)])}, nrows=E.pick(n + "n", [-1, 1, 2]))
            if k == "ss":
                return T.SSType(T.TensorType(T.i64, ty.dims(E, n, 1, hi=2)))
            return T.VectorType(E.pick(n + "e", [T.i64, T.i32]), E.int(n + "z", 1, 3))

        ta, tb = mk("a"), mk("b")
        src = el.Primitive("vp.typed")

        @src.def_abstract_eval
        def _ae(*in_types, out):
            return out

        where = E.pick("where", ["cond", "loop"])
        ok = True
        try:
            with Tracer() as t:
                p = simp.pcall_static((0,), lambda: src.bind(out=T.TensorType(T.bool_, ())))
                mk_ = lambda tt: simp.pcall_static((0,), lambda: src.bind(out=tt))  # noqa: E731
                if where == "cond":
                    simp.uniform_cond(p, lambda: mk_(ta), lambda: mk_(tb))
                else:
                    simp.while_loop(lambda s: p, lambda s: mk_(tb), mk_(ta))
        except TypeError:
            ok = False
        r = ty.same(ty.canonical(ta), ty.canonical(tb))
        if ok:
            E.check(r, "accepted-only-equal", f"{where} accepts {ta} for {tb}")
        else:
            E.check(r is False or (r is not True and ~r), "equal-accepted", f"{where} refuses {ta} for {tb}")

    explore(h, unit="signatures", expect=("accepted-only-equal", "equal-accepted"), functions=FUNCS, bounds="pairs of tensor/table/ss/vector types with symbolic sizes as branch results and loop state", max_seconds=2400, max_paths=10**6)
