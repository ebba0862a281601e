"""Element-type conversions: every element type MPLang can name (symbolic width, sign and kind) and every element type the
array, table and dataframe libraries offer, through the real conversion functions; compared with what the libraries
themselves say about kind, width and sign."""

import numpy as np

from vp.sym import explore

FUNCS = ("dialects.dtypes.to_jax/to_numpy/from_dtype/from_arrow/from_pandas", "tensor.constant trace and kernel", "table.constant/run_jax type inference")
ASSUMPTIONS = ("the libraries' own descriptions of their element types (numpy dtype kind and itemsize, jnp.finfo/iinfo, pyarrow predicates) are trusted",
               "object columns are taken as text, dates and times carry no unit: documented many-to-one mappings")


def units(tier):
    return [("to-library", to_library, 2), ("two-types", two_types, 2), ("from-array-library", from_array, 2), ("from-arrow", from_arrow, 1), ("from-pandas", from_pandas, 1), ("values", values, 2), ("inferred", inferred, 1)]


def scalar(E, n):
    """A solver-chosen scalar type."""
    import mplang.edsl.typing as T

    k = E.pick(n + "kind", ["int", "float", "complex"])
    if k == "int":
        w = 1 << int(E.int(n + "log", 0, 10))
        return T.IntegerType(bitwidth=w, signed=bool(E.bool(n + "signed")))
    w = 1 << int(E.int(n + "log", 4, 7))
    f = T.FloatType(bitwidth=w)
    return f if k == "float" else T.ComplexType(inner_type=f)


def facts_mplang(t):
    """(kind, width) of an MPLang scalar type; a one-bit signed integer is the boolean."""
    import mplang.edsl.typing as T

    if isinstance(t, T.IntegerType):
        if t.bitwidth == 1 and t.signed:
            return ("bool", 1)
        return ("int" if t.signed else "uint", t.bitwidth)
    if isinstance(t, T.FloatType):
        return ("float", t.bitwidth)
    if isinstance(t, T.ComplexType):
        return ("complex", 2 * t.inner_type.bitwidth)
    return ("other", str(t))


def facts_array(d):
    """(kind, width) according to numpy/ml_dtypes; formats other than the IEEE ones are a kind of their own."""
    import jax.numpy as jnp

    d = np.dtype(d)
    std = {"b": "bool", "i": "int", "u": "uint", "f": "float", "c": "complex"}
    if d.kind in std and d.type.__module__ == "numpy":
        if d.kind == "b":
            return ("bool", 1)
        if d.kind in "fc" and np.finfo(d).nmant not in (10, 23, 52):
            return (d.name, d.itemsize * 8)
        return (std[d.kind], d.itemsize * 8)
    try:
        i = jnp.iinfo(d)
        return ("int" if i.min < 0 else "uint", i.bits)
    except (ValueError, TypeError):
        return (d.name, d.itemsize * 8)


def conv(f, *a):
    """Result, or None when refused."""
    try:
        return f(*a)
    except (ValueError, TypeError):
        return None


def to_library():
    def h(E):
        from mplang.dialects import dtypes as D

        t = scalar(E, "t")
        for name, f in (("to_numpy", D.to_numpy), ("to_jax", D.to_jax)):
            d = conv(f, t)
            if d is None:
                E.cover("refused")
                E.check(facts_mplang(t) not in STD, "standard-supported", f"{name}({t}) refused")
                continue
            E.check(facts_array(d) == facts_mplang(t), "kind-width-sign", f"{name}({t}) is {np.dtype(d)}")
            back = conv(D.from_dtype, d)
            if back is None:
                E.check(facts_mplang(t) not in STD, "standard-supported", f"from_dtype({d}) refused")
            else:
                E.check(back == t and facts_mplang(back) == facts_mplang(t), "identity", f"{t} -> {d} -> {back}")
        E.check((conv(D.to_numpy, t) is None) == (conv(D.to_jax, t) is None) and (conv(D.to_jax, t) is None or np.dtype(D.to_jax(t)) == D.to_numpy(t)), "same-in-both", str(t))

    explore(h, unit="to-library", expect=("kind-width-sign", "identity", "refused", "same-in-both"), functions=FUNCS, bounds="integers of 1..1024 bits of both signs, floats and complex numbers of 16..128-bit parts", max_seconds=900)


STD = {("bool", 1), *(("int", w) for w in (8, 16, 32, 64)), *(("uint", w) for w in (8, 16, 32, 64)), *(("float", w) for w in (16, 32, 64)), ("complex", 64), ("complex", 128)}


def two_types():
    def h(E):
        from mplang.dialects import dtypes as D

        a, b = scalar(E, "a"), scalar(E, "b")
        da, db = conv(D.to_numpy, a), conv(D.to_numpy, b)
        if da is None or db is None:
            return
        E.check((da == db) == (facts_mplang(a) == facts_mplang(b)), "injective", f"{a} -> {da}, {b} -> {db}")

    explore(h, unit="two-types", expect=("injective",), functions=FUNCS, bounds="all pairs of the types above", max_seconds=900)


def library_dtypes():
    import ml_dtypes

    out = {np.dtype(t) for t in np.sctypeDict.values()} | {np.dtype(c) for c in "?bBhHiIlLqQefdgFDG"}
    for n in sorted(dir(ml_dtypes)):
        v = getattr(ml_dtypes, n)
        if isinstance(v, type) and n not in ("finfo", "iinfo"):
            try:
                out.add(np.dtype(v))
            except TypeError:
                pass
    out |= {np.dtype("M8[s]"), np.dtype("m8[ns]"), np.dtype("U8"), np.dtype("S16"), np.dtype("V16"), np.dtype([("int8", "f8")])}
    return sorted(out, key=lambda d: (d.kind, d.itemsize, d.str, d.name))


def spellings(d):
    import jax.numpy as jnp

    out = [d, d.type]
    if d.kind in "biufc" and d.names is None:
        out += [d.name, d.newbyteorder("<"), d.newbyteorder(">"), d.newbyteorder("=")]
    if hasattr(jnp, d.name):
        out.append(getattr(jnp, d.name))
    return out


def from_array():
    ds = library_dtypes()

    def h(E):
        from mplang.dialects import dtypes as D

        d = ds[E.choose("dtype", len(ds))]
        for s in spellings(d):
            t = conv(D.from_dtype, s)
            if t is None:
                E.cover("refused")
                E.check(facts_array(d) not in STD or isinstance(s, str), "standard-supported", f"from_dtype({s!r}) refused")
                continue
            E.check(facts_mplang(t) == facts_array(d), "kind-width-sign", f"from_dtype({s!r}) is {t}; the library says {facts_array(d)}")
            back = conv(D.to_numpy, t)
            E.check(back is not None and back == d.newbyteorder("="), "identity", f"{s!r} -> {t} -> {back}")

    explore(h, unit="from-array-library", expect=("kind-width-sign", "identity", "refused"), functions=FUNCS, bounds=f"all {len(ds)} element types of numpy and ml_dtypes, up to 7 spellings each, both byte orders", max_seconds=900)


def arrow_types():
    import pyarrow as pa

    plain = [pa.bool_(), pa.int8(), pa.int16(), pa.int32(), pa.int64(), pa.uint8(), pa.uint16(), pa.uint32(), pa.uint64(), pa.float16(), pa.float32(), pa.float64()]
    text = [pa.string(), pa.large_string()]
    other = [pa.binary(), pa.large_binary(), pa.date32(), pa.date64(), pa.time32("s"), pa.time32("ms"), pa.time64("us"), pa.time64("ns"), *(pa.timestamp(u) for u in ("s", "ms", "us", "ns")), pa.timestamp("us", tz="UTC"),
             pa.duration("s"), pa.decimal128(10, 2), pa.decimal256(40, 3), pa.null(), pa.list_(pa.int64()), pa.list_(pa.float32(), 3), pa.struct([("a", pa.int8())]), pa.dictionary(pa.int8(), pa.string()), pa.dictionary(pa.int32(), pa.int64()),
             pa.map_(pa.string(), pa.int64()), pa.month_day_nano_interval(), pa.binary(4), pa.string_view() if hasattr(pa, "string_view") else pa.null()]
    return plain, text, other


def arrow_kind(t):
    import pyarrow as pa

    p = pa.types
    for kind, ok in (("bool", p.is_boolean(t)), ("int", p.is_signed_integer(t)), ("uint", p.is_unsigned_integer(t)), ("float", p.is_floating(t))):
        if ok:
            return (kind, t.bit_width)
    for kind, ok in (("string", p.is_string(t) or p.is_large_string(t)), ("date", p.is_date(t)), ("time", p.is_time(t)), ("timestamp", p.is_timestamp(t)), ("binary", p.is_binary(t) or p.is_large_binary(t)), ("interval", p.is_duration(t))):
        if ok:
            return ("other", kind)
    return ("unsupported", str(t))


def logical(t):
    import mplang.edsl.typing as T

    for n in ("STRING", "DATE", "TIME", "TIMESTAMP", "BINARY", "INTERVAL", "DECIMAL", "JSON", "UUID"):
        if hasattr(T, n) and t == getattr(T, n):
            return ("other", n.lower())
    return facts_mplang(t)


def from_arrow():
    plain, text, other = arrow_types()
    every = [*plain, *text, *other]

    def h(E):
        from mplang.dialects import dtypes as D

        a = every[E.choose("a", len(every))]
        b = every[E.choose("b", len(every))]
        ta, tb = conv(D.from_arrow, a), conv(D.from_arrow, b)
        for x, t in ((a, ta), (b, tb)):
            if t is None:
                E.cover("refused")
                E.check(x not in plain and x not in text, "standard-supported", f"from_arrow({x}) refused")
            else:
                E.check(logical(t) == arrow_kind(x), "kind-width-sign", f"from_arrow({x}) is {t}")
        if ta is not None and tb is not None:
            E.check((ta == tb) == (arrow_kind(a) == arrow_kind(b)), "injective", f"{a} -> {ta}, {b} -> {tb}")
        if ta is not None and a in plain:
            E.check(D.to_numpy(ta) == np.dtype(a.to_pandas_dtype()), "identity", f"{a} -> {ta} -> {D.to_numpy(ta)}")

    explore(h, unit="from-arrow", expect=("kind-width-sign", "injective", "identity", "refused"), functions=FUNCS, bounds="all pairs of 37 Arrow types", max_seconds=900)


def from_pandas():
    import pandas as pd
    import pyarrow as pa

    plain = [np.dtype(c) for c in ("?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "c8", "c16")]
    ext = [(pd.Int8Dtype(), ("int", 8)), (pd.Int16Dtype(), ("int", 16)), (pd.Int32Dtype(), ("int", 32)), (pd.Int64Dtype(), ("int", 64)), (pd.UInt8Dtype(), ("uint", 8)), (pd.UInt16Dtype(), ("uint", 16)), (pd.UInt32Dtype(), ("uint", 32)),
           (pd.UInt64Dtype(), ("uint", 64)), (pd.Float32Dtype(), ("float", 32)), (pd.Float64Dtype(), ("float", 64)), (pd.BooleanDtype(), ("bool", 1)), (pd.StringDtype(), ("other", "string")), (np.dtype(object), ("other", "string")),
           (np.dtype("M8[ns]"), ("other", "timestamp")), (np.dtype("M8[s]"), ("other", "timestamp")), (pd.DatetimeTZDtype("ns", "UTC"), ("other", "timestamp")), (np.dtype("m8[ns]"), ("other", "interval")), (np.dtype(">i4"), ("int", 32)), (np.dtype(">f8"), ("float", 64)),
           (pd.CategoricalDtype(["a"]), None), (pd.CategoricalDtype([1, 2]), None), (pd.PeriodDtype("D"), None), (pd.IntervalDtype("int64"), None), (pd.SparseDtype("int64"), None), (pd.ArrowDtype(pa.int8()), ("int", 8)), (pd.ArrowDtype(pa.string()), ("other", "string")),
           (pd.ArrowDtype(pa.timestamp("us")), ("other", "timestamp")), (pd.ArrowDtype(pa.bool_()), ("bool", 1)), (np.dtype("g"), None)]
    every = [(d, facts_array(d)) for d in plain] + ext

    def h(E):
        from mplang.dialects import dtypes as D

        d, want = every[E.choose("dtype", len(every))]
        for s in (d, str(d)):
            t = conv(D.from_pandas, s)
            if t is None:
                E.cover("refused")
                E.check(d not in plain or isinstance(s, str), "standard-supported", f"from_pandas({d}) refused")
            else:
                E.check(want is not None and logical(t) == want, "kind-width-sign", f"from_pandas({d}) is {t}")
                if d in plain:
                    E.check(D.to_numpy(t) == d, "identity", f"{d} -> {t} -> {D.to_numpy(t)}")

    explore(h, unit="from-pandas", expect=("kind-width-sign", "identity", "refused"), functions=FUNCS, bounds=f"{len(every)} pandas element types: numpy, nullable, Arrow-backed, datetimes, categorical", max_seconds=900)


def values():
    """Data given with any library element type keeps its element type and values as a tensor constant, eager and traced."""
    ds = [d for d in library_dtypes() if d.names is None and d.kind not in "OSUVMm" or d.type.__module__ != "numpy"]

    def h(E):
        import mplang as mp
        from mplang.backends.simp_worker import SimpWorker  # noqa: F401
        from mplang.dialects import tensor
        from mplang.edsl import trace
        from mplang.runtime.interpreter import Interpreter
        from mplang.runtime.interpreter import InterpObject  # noqa: F401

        d = ds[E.choose("dtype", len(ds))]
        order = E.pick("order", ["=", "<", ">"])
        if d.kind in "biufc" and d.type.__module__ == "numpy":
            d = d.newbyteorder(order)
        shape = E.pick("shape", [(), (3,), (2, 2), (1, 1, 2)])
        n = int(np.prod(shape))
        base = np.array([1, 0, 2, 3][:n] if n else [], dtype=np.int64)
        try:
            a = base.astype(d).reshape(shape)
        except (TypeError, ValueError):
            return
        if n and d.kind in "fc":
            a.flat[0] = a.dtype.type(-1.5)
        elif n and d.kind == "i" and d.type.__module__ == "numpy":
            a.flat[0] = np.iinfo(d).min
        elif n and d.kind == "u" and d.type.__module__ == "numpy":
            a.flat[0] = np.iinfo(d).max - 1
        it = Interpreter()
        try:
            with it:
                if E.pick("how", ["eager", "traced"]) == "eager":
                    o = tensor.constant(a)
                    typ = o.type
                else:
                    tf = trace(lambda: tensor.constant(a))
                    typ = tf.graph.outputs[0].type
                    o = it.evaluate_graph(tf.graph, [])[0]
        except (TypeError, ValueError):
            E.cover("refused")
            E.check(facts_array(d) not in STD, "standard-supported", f"constant of {d} refused")
            return
        v = o
        for _ in range(3):
            if isinstance(v, np.ndarray):
                break
            v = v.runtime_obj if hasattr(v, "runtime_obj") else v.unwrap()
        E.check(facts_array(v.dtype) == facts_array(d), "element-type", f"constant of {d} became {v.dtype}")
        E.check(facts_mplang(typ.element_type) == facts_array(d), "typed", f"constant of {d} typed {typ}")
        E.check(v.shape == a.shape and (np.asarray(v, dtype=d) == a).all(), "values", f"{d} {a.tolist()} became {v.tolist()}")

    explore(h, unit="values", expect=("element-type", "typed", "values", "refused"), functions=FUNCS, bounds=f"{len(ds)} element types x 3 byte orders x 4 shapes, eager and traced; extreme values", max_seconds=900)


def inferred():
    """The element types inferred for columns and computed results are the ones the data has."""

    def h(E):
        import jax.numpy as jnp
        import pyarrow as pa

        from mplang.dialects import table, tensor
        from mplang.edsl import trace
        from mplang.runtime.interpreter import Interpreter

        plain, text, _ = arrow_types()
        with Interpreter():
            if E.pick("what", ["columns", "computed"]) == "columns":
                ts = [*plain, *text]
                a, b = ts[E.choose("a", len(ts))], ts[E.choose("b", len(ts))]
                tf = trace(lambda: table.constant(pa.table({"x": pa.array([], type=a), "y": pa.array([], type=b)})))
                got = tf.graph.outputs[0].type.schema
                E.check([logical(t) for t in got.values()] == [arrow_kind(a), arrow_kind(b)] and list(got) == ["x", "y"], "columns-typed", f"{a}, {b}: {got}")
            else:
                names = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128", "bfloat16", "float8_e4m3fn", "int4"]
                to = names[E.choose("to", len(names))]
                src = names[E.choose("from", 12)]
                try:
                    tf = trace(lambda: tensor.run_jax(lambda x: x.astype(getattr(jnp, to if to != "bool" else "bool_")), tensor.constant(np.ones(2, dtype=src))))
                except (TypeError, ValueError):
                    E.cover("refused")
                    E.check(facts_array(getattr(jnp, to if to != "bool" else "bool_")) not in STD, "standard-supported", f"{src} -> {to} refused")
                    return
                got = tf.graph.outputs[0].type
                E.check(facts_mplang(got.element_type) == facts_array(getattr(jnp, to if to != "bool" else "bool_")), "result-typed", f"result of element type {to} typed {got}")

    explore(h, unit="inferred", expect=("columns-typed", "result-typed", "refused"), functions=FUNCS, bounds="all pairs of 14 column types; conversions between 12 and 17 element types", max_seconds=900)
