"""Serialization round trips: solver-chosen values, types, graphs and tables with symbolic leaves go through every wire
format of the real serializer; the decoded value must be the original one."""

import base64
import contextlib
import math

import numpy as np

from vp import graphs, jsonsym, types as ty
from vp.sym import SymInt, deep_eq, explore

FUNCS = ("edsl.serde.to_json/from_json/dumps/loads/dumps_b64/loads_b64/dumps_binary/loads_binary", "to_json/from_json(+binary) of every registered class", "Graph.to_json/from_json")
ASSUMPTIONS = "json text, gzip, base64, struct, Arrow IPC and numpy tobytes/frombuffer are trusted; numpy scalars are decoded as Python numbers and DataFrames as Arrow tables (documented conversions)"


def units(tier):
    deep = tier == "thorough"
    return [
        ("values", lambda: values(deep), 6),
        ("keys", lambda: keys(deep), 2),
        ("arrays", lambda: arrays(deep), 2),
        ("runtime-values", runtime_values, 2),
        ("types", lambda: types(deep), 6),
        ("graphs", lambda: graph_unit(deep), 4),
        ("tables", lambda: tables(deep), 4),
        ("spu-config", spu_config, 2),
    ]


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __call__(cls, *a):
        return a[0] if len(a) == 1 and isinstance(a[0], SymInt) else int(*a)


class _Int(metaclass=_IntMeta):
    """int() that leaves a symbolic integer symbolic."""


@contextlib.contextmanager
def keep_ints():
    from mplang.edsl import serde

    had = "int" in vars(serde)
    old = vars(serde).get("int")
    serde.int = _Int
    try:
        with jsonsym.layer():
            yield serde
    finally:
        if had:
            serde.int = old
        else:
            del serde.int


WIRES = ("dumps", "dumps-raw", "b64", "binary")


def through(serde, wire, v):
    if wire == "dumps":
        return serde.loads(serde.dumps(v))
    if wire == "dumps-raw":
        return serde.loads(serde.dumps(v, compress=False), compressed=False)
    if wire == "b64":
        return serde.loads_b64(serde.dumps_b64(v))
    return serde.loads_binary(serde.dumps_binary(v))


# ---------------------------------------------------------------- equality


def eqv(E, a, b, label, w):
    """The decoded value b is the original a: same types, same structure, same content, same order."""
    import pyarrow as pa

    if isinstance(a, int) and not isinstance(a, bool):
        E.check(isinstance(b, int) and not isinstance(b, bool), label, f"{w}: {a!r} became {type(b).__name__}")
        return E.check(deep_eq(a, b), label, f"{w}: {a!r} became {b!r}")
    if not (isinstance(a, pa.Table) or hasattr(a, "_serde_kind")):
        E.check(type(a) is type(b), label, f"{w}: {type(a).__name__} became {type(b).__name__}")
    if isinstance(a, (list, tuple)):
        E.check(len(a) == len(b), label, f"{w}: length {len(a)} became {len(b)}")
        for x, y in zip(a, b):
            eqv(E, x, y, label, w)
    elif isinstance(a, dict):
        E.check(len(a) == len(b), label, f"{w}: {len(a)} entries became {len(b)}")
        for (k, x), (k2, y) in zip(a.items(), b.items()):
            eqv(E, k, k2, label, w)
            eqv(E, x, y, label, w)
    elif isinstance(a, np.ndarray):
        E.check(a.dtype == b.dtype and a.shape == b.shape, label, f"{w}: {a.dtype}{a.shape} became {b.dtype}{b.shape}")
        if a.dtype == object:
            for x, y in zip(a.flat, b.flat):
                eqv(E, x, y, label, w)
        else:
            E.check(a.tobytes() == b.tobytes(), label, f"{w}: array content changed: {a!r} / {b!r}")
            E.check(b.flags.writeable, label, f"{w}: decoded array is read-only")
    elif isinstance(a, float):
        E.check((math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b)), label, f"{w}: {a!r} became {b!r}")
    elif isinstance(a, pa.Table):
        same_table(E, a, b, label, w)
    elif hasattr(a, "_serde_kind"):
        same_value(E, a, b, label, w)
    else:
        E.check(a == b, label, f"{w}: {a!r} became {b!r}")


def same_table(E, a, b, label, w):
    import pyarrow as pa

    E.check(isinstance(b, pa.Table), label, f"{w}: table became {type(b).__name__}")
    E.check(a.schema.equals(b.schema, check_metadata=True), label, f"{w}: schema {a.schema} became {b.schema}")
    ra, rb = ([repr(c.to_pylist()) for c in t.columns] for t in (a, b))
    E.check(a.num_rows == b.num_rows and ra == rb, label, f"{w}: rows {ra} became {rb}")


def same_value(E, a, b, label, w):
    import mplang.edsl.typing as T

    E.check(type(a) is type(b), label, f"{w}: {type(a).__name__} became {type(b).__name__}")
    if isinstance(a, T.BaseType):
        return E.check(ty.same(ty.canonical(a), ty.canonical(b)), label, f"{w}: {a} became {b}")
    name = type(a).__name__
    if name == "Graph":
        return same_graph(E, a, b, label, w)
    if name == "FunctionValue":
        E.check(a.name == b.name, label, f"{w}: name {a.name} became {b.name}")
        return same_graph(E, a.graph, b.graph, label, w)
    if name == "SPUConfig":
        return E.check(a == b, label, f"{w}: {a} became {b}")
    if hasattr(a, "unwrap"):
        return eqv(E, a.unwrap(), b.unwrap(), label, w)
    if name == "DriverVar":
        return eqv(E, a.values, b.values, label, w)
    eqv(E, dict(vars(a)), dict(vars(b)), label, w)


def canon_graph(g):
    """(input types, operations, outputs) with values numbered in order of definition."""
    num, ins, ops = {}, [], []
    for v in g.inputs:
        num[id(v)] = len(num)
        ins.append(v.type)
    for op in g.operations:
        args = [num.get(id(v), "undefined") for v in op.inputs]
        for v in op.outputs:
            num[id(v)] = len(num)
        ops.append((op.opcode, args, [v.type for v in op.outputs], dict(op.attrs), [canon_graph(r) for r in op.regions]))
    return ins, ops, [num.get(id(v), "undefined") for v in g.outputs]


def same_graph(E, a, b, label, w):
    eqv(E, canon_graph(a), canon_graph(b), label, w)
    # the def-use chains the interpreter and passes rely on
    for g in (b,):
        for op in g.operations:
            for v in op.outputs:
                E.check(v.defining_op is op, label, f"{w}: output of {op.opcode} not linked to it")


# ---------------------------------------------------------------- generators


FLOATS = (0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e308, 0.1)
STRS = ("", "a", "_kind", "é\u0000\n\"\\", "\ud800", "@x", "x" * 300)
BYTES = (b"", b"\x00", bytes(range(256)), b"\xff" * 17)
BIGS = (2**63 - 1, -(2**63), 2**64, -(2**200), 10**30)


def leaf(E, n, few=False):
    k = E.pick(n + "k", ["int", "bytes", "float"] if few else ["int", "big", "float", "str", "bytes", "none", "bool"])
    if k == "int":
        return E.int(n + "v", -(2**70), 2**70)
    if k == "bool":
        return bool(E.choose(n + "v", 2))
    if k == "none":
        return None
    opts = {"big": BIGS, "float": FLOATS, "str": STRS, "bytes": BYTES}[k]
    return E.pick(n + "v", opts[:2] if few else opts)


def value(E, n, depth, few=False):
    k = E.pick(n + "K", ["leaf", "list", "tuple", "dict", "object-array"]) if depth else "leaf"
    if k == "leaf":
        return leaf(E, n, few)
    if k == "object-array":
        shape = E.pick(n + "shape", [(), (0,), (2,), (1, 2)])
        arr = np.empty(shape, dtype=object)
        for i, ix in enumerate(np.ndindex(*shape)):
            # a second container in one object array is not needed to separate positions
            arr[ix] = value(E, f"{n}{i}", depth - 1, True) if i == 0 else E.int(f"{n}{i}v", -5, 5)
        return arr
    m = E.choose(n + "len", 3)
    items = [value(E, f"{n}{i}", depth - 1, few) if i == 0 else E.int(f"{n}{i}v", -5, 5) for i in range(m)]
    if k == "list":
        return items
    if k == "tuple":
        return tuple(items)
    ks = E.pick(n + "ks", [("b", "a"), ("_kind", "v"), ("", "items"), (1, "1"), ((1, "x"), None), (b"k", 2.5), (True, "True")])
    return dict(zip(ks, items))


def values(deep):
    def h(E):
        two = E.choose("deep", 2)
        v = value(E, "r", 1 + two + (deep and two), few=bool(two) and not deep)
        w = E.pick("wire", WIRES)
        with keep_ints() as serde:
            r = through(serde, w, v)
            eqv(E, v, r, "round-trip", w)

    explore(h, unit="values", expect=("round-trip",), functions=FUNCS,
            bounds="lists, tuples, dicts and object arrays nested 2 deep with 0-2 entries; integers -2^70..2^70 symbolic; edge floats, strings and bytes", max_seconds=2400, max_paths=10**6)


def keys(deep):
    """Dictionaries whose keys differ in kind keep their entries, order and key types."""

    def h(E):
        ks = []
        for i in range(2 + bool(deep)):
            k = E.pick(f"k{i}", ["int", "str", "tuple", "none", "bytes"])
            ks.append({"int": lambda: E.concretize(E.int(f"ki{i}", 0, 2)), "str": lambda: E.pick(f"ks{i}", ["0", "1", "", "None"]), "tuple": lambda: (E.concretize(E.int(f"kt{i}", 0, 1)), "1"), "none": lambda: None, "bytes": lambda: b"1"}[k]())
        E.assume(len(set(ks)) == len(ks))
        d = {k: E.int(f"v{i}", 0, 9) for i, k in enumerate(ks)}
        outer = E.pick("outer", ["bare", "list", "attr"])
        v = {"bare": d, "list": [d, d], "attr": {"x": d}}[outer]
        w = E.pick("wire", WIRES)
        with keep_ints() as serde:
            eqv(E, v, through(serde, w, v), "keys-round-trip", w)

    explore(h, unit="keys", expect=("keys-round-trip",), functions=FUNCS, bounds="2 (thorough 3) keys of 5 kinds in any order, symbolic values", max_seconds=2400, max_paths=10**6)


DTYPES = ("?", "i1", "u1", "i2", "<u2", "i4", "i8", "u8", "f2", "f4", "f8", "c8", "c16", ">i4", ">f8", "S3", "U2", "M8[s]", "m8[ns]", "bfloat16")


def array(E, n):
    import ml_dtypes

    d = E.pick(n + "d", DTYPES)
    dt = np.dtype(ml_dtypes.bfloat16) if d == "bfloat16" else np.dtype(d)
    shape = E.pick(n + "s", [(), (0,), (3,), (2, 3), (2, 0, 1), (1, 2, 2)])
    size = math.prod(shape)
    raw = (np.arange(size * dt.itemsize + dt.itemsize) * 37 % 251).astype("u1")
    if dt.kind in "?b":
        raw = raw % 2
    if dt.kind == "U":
        a = np.array(["é" * (i % 3) for i in range(size)], dtype=dt).reshape(shape)
    else:
        a = np.frombuffer(raw.tobytes()[: size * dt.itemsize], dtype=dt).reshape(shape)
    lay = E.pick(n + "l", ["c", "fortran", "strided", "reversed", "readonly"])
    if lay == "fortran":
        a = np.asfortranarray(a)
    elif lay == "strided" and a.ndim:
        a = np.repeat(a, 2, axis=-1)[..., ::2]
    elif lay == "reversed" and a.ndim:
        a = a[::-1].T if E.choose(n + "t", 2) else a[::-1]
    elif lay == "readonly":
        a = a.copy(order="K")
        a.flags.writeable = False
    return a


def arrays(deep):
    def h(E):
        from mplang.backends.tensor_impl import TensorValue

        a = array(E, "a")
        box = E.pick("box", ["array", "TensorValue", "list", "tensor-list", "object"])
        if box == "array":
            v = a
        elif box == "TensorValue":
            v = TensorValue(a)
        elif box == "list":
            v = [a, E.int("x", 0, 9), a[..., :0] if a.ndim else a]
        elif box == "tensor-list":
            v = {"p": TensorValue(a), "q": (TensorValue(np.arange(3)), b"zz", a)}
        else:
            o = np.empty((2,), dtype=object)
            o[0], o[1] = a, E.int("x", 0, 9)
            v = TensorValue(o) if E.choose("wrapped", 2) else o
        w = E.pick("wire", ["dumps", "binary"])
        with keep_ints() as serde:
            r = through(serde, w, v)
            if box == "object" and a.ndim == 0 and a.dtype.kind in "biuf":
                pass
            eqv(E, v, r, "array-round-trip", f"{w} {box}")

    explore(h, unit="arrays", expect=("array-round-trip",), functions=FUNCS, bounds="20 dtypes x 6 shapes x 6 memory layouts, alone, wrapped and nested among segments", max_seconds=2400, max_paths=10**6)


def runtime_values():
    def h(E):
        from mplang.backends import crypto_impl as c, func_impl, tee_impl
        from mplang.backends.simp_driver.values import DriverVar

        k = E.pick("kind", ["bytes", "point", "sk", "pk", "sym", "quote", "func", "drivervar", "mixed"])
        raw = E.pick("raw", BYTES)
        suite = E.pick("suite", ["x25519", "", "é"])

        def mk(k):
            if k == "bytes":
                return c.BytesValue(raw)
            if k == "point":
                return c.ECPointValue(raw)
            if k in ("sk", "pk", "sym"):
                return {"sk": c.PrivateKeyValue, "pk": c.PublicKeyValue, "sym": c.SymmetricKeyValue}[k](suite, raw)
            if k == "quote":
                return tee_impl.MockQuoteValue("mock", raw, suite)
            if k == "func":
                spec = graphs.symbolic_graph(E, n_ops=1, n_in=2, max_arity=2)
                return func_impl.FunctionValue(graphs.to_graph(spec)[0], suite)
            if k == "drivervar":
                return DriverVar([E.pick("dv", ["mem://0:x", None]), "mem://1:y"][: 1 + E.choose("dn", 2)])
            return [mk("sk"), {"a": mk("bytes")}, (mk("quote"), None, E.int("i", 0, 3))]

        v = mk(k)
        w = E.pick("wire", WIRES)
        with keep_ints() as serde:
            r = through(serde, w, v)
            eqv(E, v, r, "value-round-trip", f"{w} {k}")

    explore(h, unit="runtime-values", expect=("value-round-trip",), functions=FUNCS, bounds="every registered pure runtime value class, edge payloads, nested containers", max_seconds=2400, max_paths=10**6)


def types(deep):
    def h(E):
        t = ty.gen(E, "t", 2 if deep else 1, small=False if deep else "outer")
        w = E.pick("wire", ["dumps", "binary"] if deep else ["dumps"])
        how = E.pick("in", ["bare", "list"]) if deep else "bare"
        with keep_ints() as serde:
            r = through(serde, w, t if how == "bare" else [t, 1])
            r = r if how == "bare" else r[0]
            E.check(type(r) is type(t), "type-round-trip", f"{t} became {r}")
            E.check(ty.same(ty.canonical(t), ty.canonical(r)), "type-round-trip", f"{t} became {r}")
            E.check(t == r, "type-equal-after", f"{t} != {r}")

    explore(h, unit="types", expect=("type-round-trip", "type-equal-after"), functions=FUNCS, bounds="every type constructor nested 1 (thorough 2) deep, symbolic sizes", max_seconds=2400, max_paths=10**6)


def graph_unit(deep):
    def h(E):
        import mplang.edsl.typing as T

        if E.choose("wiring", 2):
            what = "none"
            spec = graphs.symbolic_graph(E, n_ops=2, n_in=E.choose("nin", 3), max_arity=2, max_outs=2, multi=(0,))
        else:
            spec = {"n_in": 2, "ops": [([1, 0], 2), ([3, 3, 0], 1)], "outs": [4, 2]}
            what = E.pick("extra", ["attrs", "region", "nested", "types", "string-attr"])
        g, _ = graphs.to_graph(spec)
        op = g.operations[E.choose("which", 2)] if deep else g.operations[0]
        if what == "attrs":
            op.attrs = {"b": E.int("ab", -3, 3), "a": E.pick("aa", [None, (1, (2,)), [b"\x00", 0.5], {1: "x"}, True]), "t": T.TensorType(T.i64, (E.int("d", 1, 9),))}
        elif what == "string-attr":
            op.attrs = {"name": E.pick("s", STRS), "_kind": E.pick("s2", ["_int", "mplang.Graph"]), "arr": np.arange(3)[::-1]}
        elif what in ("region", "nested"):
            sub = graphs.symbolic_graph(E, n_ops=1, n_in=E.choose("rin", 2), max_arity=1, prefix="r")
            r, _ = graphs.to_graph(sub, "in{}")
            if what == "nested":
                r.operations[0].regions = [graphs.to_graph({"n_in": 0, "ops": [([], 1)], "outs": [0]}, "leaf{}")[0]]
                r.operations[0].attrs = {"k": E.int("rk", 0, 5)}
            op.regions = [r, graphs.to_graph({"n_in": 1, "ops": [([0], 1)], "outs": [1, 0]}, "z{}")[0]][: 1 + E.choose("nreg", 2)]
        elif what == "types":
            for i, v in enumerate([*g.inputs[:1], *g.operations[0].outputs[:1]]):
                v.type = ty.gen(E, f"t{i}", 0, ("int", "vector", "point"), small=True)
        if E.choose("drop-outs", 2):
            g.outputs = g.outputs[:0]
        w = E.pick("wire", ["dumps", "b64"])
        with keep_ints() as serde:
            text1 = serde.to_json(g)
            r = through(serde, w, g)
            same_graph(E, g, r, "graph-round-trip", w)
            r2 = through(serde, w, r)
            same_graph(E, g, r2, "graph-second-trip", w)
            # every operation of the copy can be extended: names stay unique
            n = len(r.values)
            r.add_op("more", list(r.inputs), output_types=[T.i64])
            E.check(len(r.values) == n + 1, "graph-extensible", "a new value replaced an old one")
            del text1

    explore(h, unit="graphs", expect=("graph-round-trip", "graph-second-trip", "graph-extensible"), functions=FUNCS,
            bounds="graphs of 2 operations (0-2 results) over 0-2 inputs, any wiring; attributes, regions nested 2 deep, typed values", max_seconds=2400, max_paths=10**6)


def tables(deep):
    def h(E):
        import pyarrow as pa
        from mplang.backends.table_impl import TableValue

        cols = E.pick("cols", [(), ("a",), ("b", "a"), ("_kind", ""), ("a", "a")])
        n = E.choose("n", 4)
        mk = {
            "int64": lambda: pa.array([E.pick(f"i{i}", [0, -(2**63), None]) if i == 0 else i for i in range(n)], pa.int64()),
            "str": lambda: pa.array([["", "é", None][i % 3] for i in range(n)], pa.string()),
            "f64": lambda: pa.array([[0.0, float("nan"), None][i % 3] for i in range(n)], pa.float64()),
            "bin": lambda: pa.array([[b"", b"\x00\xff", None][i % 3] for i in range(n)], pa.binary()),
            "fixed": lambda: pa.array([b"ab"] * n, pa.binary(2)),
            "list": lambda: pa.array([[1, None], [], None][:n] + [[2]] * max(0, n - 3), pa.list_(pa.int32())),
            "dict": lambda: pa.array(["x", "y", "x"][:n] + ["y"] * max(0, n - 3)).dictionary_encode(),
            "date": lambda: pa.array([1] * n, pa.date32()),
            "ts": lambda: pa.array([1, None, 2][:n] + [3] * max(0, n - 3), pa.timestamp("us", tz="UTC")),
            "null": lambda: pa.nulls(n),
            "u8": lambda: pa.array([255] * n, pa.uint8()),
            "bool": lambda: pa.array([True, None, False][:n] + [True] * max(0, n - 3), pa.bool_()),
            "dec": lambda: pa.array([None] * n, pa.decimal128(10, 2)),
        }
        kinds = [E.pick(f"c{i}", list(mk) if i == 0 else ["str", "int64"][: 1]) for i in range(len(cols))]
        arrs = [mk[k]() for k in kinds]
        fields = [pa.field(c, a.type, nullable=True, metadata={"m": "1"} if i == 0 and n == 1 and E.choose("fm", 2) else None) for i, (c, a) in enumerate(zip(cols, arrs))]
        t = pa.Table.from_arrays(arrs, schema=pa.schema(fields, metadata={"k": "v"} if n == 1 and E.choose("meta", 2) else None))
        chunk = E.pick("chunk", ["one", "split", "sliced", "empty-chunk"] if n in (0, 2) else ["one"])
        if chunk == "split" and n > 1:
            t = pa.concat_tables([t.slice(0, 1), t.slice(1)])
        elif chunk == "sliced" and n > 1:
            t = t.slice(1)
        elif chunk == "empty-chunk":
            t = pa.concat_tables([t, t.slice(0, 0)])
        box = E.pick("box", ["TableValue", "nested"])
        v = {"TableValue": TableValue(t), "nested": {"d": [t, np.arange(2), TableValue(t)], "x": E.int("x", 0, 5)}}[box]
        w = E.pick("wire", ["dumps", "binary"])
        with keep_ints() as serde:
            eqv(E, v, through(serde, w, v), "table-round-trip", f"{w} {box}")

    explore(h, unit="tables", expect=("table-round-trip",), functions=FUNCS, bounds="0-2 columns of 13 Arrow types, 0-3 rows, nulls, metadata, chunking and slicing", max_seconds=2400, max_paths=10**6)


def spu_config():
    def h(E):
        from mplang.dialects import spu

        which = E.choose("which", 8)
        link = None
        if E.choose("link", 2):
            fs = ("recv_timeout_ms", "http_timeout_ms", "http_max_payload_size", "connect_retry_times", "connect_retry_interval_ms")
            kw = {f: E.int(f, 0, 2**40) for i, f in enumerate(fs) if (which >> (i % 3)) & 1}
            if which & 1:
                kw["brpc_channel_protocol"] = E.pick("proto", ["baidu_std", "http"])
            if which & 2:
                kw["brpc_channel_connection_type"] = E.pick("ct", ["single", "pooled"])
            link = spu.SPULinkDesc(**kw)
        v = spu.SPUConfig(
            protocol=E.pick("p", ["SEMI2K", "ABY3", "CHEETAH"]), field=E.pick("f", ["FM64", "FM128"]), fxp_fraction_bits=E.int("bits", 0, 64),
            enable_pphlo_profile=bool(E.choose("b0", 2)), enable_hal_profile=bool(E.choose("b1", 2)), enable_pphlo_trace=bool(E.choose("b2", 2)), enable_action_trace=bool(E.choose("b3", 2)), link_desc=link,
        )
        with keep_ints() as serde:
            r = through(serde, "dumps", v)
            for f in ("protocol", "field", "fxp_fraction_bits", "enable_pphlo_profile", "enable_hal_profile", "enable_pphlo_trace", "enable_action_trace"):
                E.check(deep_eq(getattr(v, f), getattr(r, f)), "config-round-trip", f"{f}: {getattr(v, f)!r} became {getattr(r, f)!r}")
            E.check((link is None) == (r.link_desc is None), "config-round-trip", f"link_desc {link} became {r.link_desc}")
            if link is not None and r.link_desc is not None:
                for f in vars(link):
                    x, y = getattr(link, f), getattr(r.link_desc, f)
                    E.check((x is None) == (y is None) and (x is None or deep_eq(x, y)), "config-round-trip", f"link_desc.{f}: {x!r} became {y!r}")

    explore(h, unit="spu-config", expect=("config-round-trip",), functions=FUNCS, bounds="every flag combination, symbolic numbers, link descriptions with any subset class of fields", max_seconds=2400, max_paths=10**6)
