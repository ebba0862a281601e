"""Tables: rows of symbolic number flow through the real readers, writers and conversions; the rows that come out are compared with
the rows that went in."""

import functools
import itertools
import os

import numpy as np
import pyarrow as pa

from vp import rows as R
from vp.sym import explore

from .P22_homomorphic import eager

ASSUMPTIONS = (
    "pyarrow, DuckDB and pandas keep the rows they are given (they are replaced by ideal tables when symbolic and are the real libraries in replays and validation)",
    "the values of cells are not interpreted by the code under test",
)


def units(tier):
    us = [("batches", batches, 4), ("rest", rest, 2), ("files", files, 4), ("write", write, 6), ("tensor", tensor, 2), ("sql", sql, 4)]
    return [(n, functools.partial(f, tier), k) for n, f, k in us]


TI = "backends.table_impl."


def attempt(f):
    try:
        return f(), None
    except StopIteration:
        raise
    except Exception as e:
        return None, e


def impl():
    import mplang.backends.table_impl as t

    return t


def real_table(schema, lens, base=0):
    """Real rows: the k-th row of every column holds base + k."""
    out, pos = [], base
    for n in lens:
        out.append(pa.RecordBatch.from_arrays([pa.array(np.arange(pos, pos + n)).cast(f.type) for f in schema], schema=schema))
        pos += n
    return pa.Table.from_batches(out, schema=schema)


def given(E, origin, schema, lens):
    return real_table(schema, lens) if E.concrete else R.table(origin, schema, lens)


def stream(E, origin, schema, lens):
    if E.concrete:
        return pa.RecordBatchReader.from_batches(schema, real_table(schema, [n for n in lens]).to_batches() if all(lens) else [b for n, b in real_batches(schema, lens)])
    return R.Stream(schema, R.batches(origin, schema, lens))


def real_batches(schema, lens):
    pos = 0
    for n in lens:
        yield n, pa.RecordBatch.from_arrays([pa.array(np.arange(pos, pos + n)).cast(f.type) for f in schema], schema=schema)
        pos += n


def rows_are(E, label, pieces, origins, total, start=0):
    """The pieces, one after the other, hold rows start..total-1 of every column (origins[column])."""
    if E.concrete:
        for c, o in origins.items():
            got = [v for p in pieces for v in p.column(p.schema.names.index(c)).to_pylist()]
            E.check(got == list(range(start, total)), f"{label}: rows", f"{c}: {got[:20]}")
        for p in pieces:
            E.check(list(p.schema.names) == list(origins), f"{label}: columns", str(p.schema.names))
        return
    for p in pieces:
        E.check(list(p.schema.names) == list(origins), f"{label}: columns", str(p.schema.names))
    for c, o in origins.items():
        pos = start
        for p in pieces:
            for r in p.column(c).runs:
                E.check(r.origin == o, f"{label}: column", f"{c}: {r.origin}")
                if r.n == 0:
                    continue
                E.check(r.start == pos, f"{label}: rows", f"column {c}")
                pos = pos + r.n
        E.check(pos == total, f"{label}: rows", f"column {c}: last row")
    E.cover(f"{label}: rows")


def lengths(E, k, hi, name="n", lo=0):
    return [E.int(f"{name}{i}", lo, hi) for i in range(k)]


def add(xs):
    t = 0
    for x in xs:
        t = x + t
    return t


AB = pa.schema([("a", pa.int64()), ("b", pa.float64())])


def batches(tier):
    def h(E):
        with R.ideal(not E.concrete):
            k = int(E.int("batches", 0, 3 if tier == "quick" else 5))
            lens = lengths(E, k, 2000)
            size = E.int("size", -1, 2000)
            # at most a few batches of the asked size per stored batch, so that every history is finite
            if size > 0:
                for n in lens:
                    E.assume(n <= size * (3 if tier == "quick" else 4))
            kind = E.pick("kind", ["stream", "table"]) if k < 3 else "stream"
            t = impl()
            data = stream(E, "s", AB, lens) if kind == "stream" else given(E, "s", AB, lens)
            r = t.TableReader(data, batch_size=size)
            total = add(lens)
            out = []
            for b in r:
                out.append(b)
                if len(out) > 40:
                    E.fail("the reader does not end")
            rows_are(E, "batches", out, {"a": ("s", "a"), "b": ("s", "b")}, total)
            if size > 0:
                for b in out[:-1]:
                    E.check(b.num_rows == size, "every batch but the last has the size asked for")
                for b in out[-1:]:
                    E.check(b.num_rows <= size, "no batch is larger than asked for")
            if kind == "table":
                E.check(r.num_rows == total, "row count")
            _, err = attempt_next(r)
            E.check(err, "nothing comes after the end")

    explore(h, unit="batches", expect=("batches: rows", "every batch but the last has the size asked for"), functions=(TI + "TableReader",), validate=3, max_seconds=2400, bounds="up to 3 stored batches (thorough 5) of 0..2000 rows, batch sizes -1..2000, a stored batch at most 3 (4) times the batch size")


def attempt_next(r):
    try:
        return r.read_next_batch(), False
    except StopIteration:
        return None, True


def rest(tier):
    def h(E):
        with R.ideal(not E.concrete):
            k = int(E.int("batches", 0, 3 if tier == "quick" else 5))
            lens = lengths(E, k, 2000)
            size = E.int("size", -1, 2000)
            kind = E.pick("kind", ["stream", "table"])
            first = int(E.int("first", 0, 2 if tier == "quick" else 3))
            t = impl()
            data = stream(E, "s", AB, lens) if kind == "stream" else given(E, "s", AB, lens)
            r = t.TableReader(data, batch_size=size)
            out = []
            for _ in range(first):
                b, end = attempt_next(r)
                if end:
                    break
                out.append(b)
            out.append(r.read_all())
            rows_are(E, "rest", out, {"a": ("s", "a"), "b": ("s", "b")}, add(lens))

    explore(h, unit="rest", expect=("rest: rows",), functions=(TI + "TableReader.read_all",), validate=3, max_seconds=2400, bounds="up to 3 stored batches (thorough 5) of 0..2000 rows, reading everything left after 0..2 (3) batches of any size")


def path_of(name):
    d = os.path.join(os.environ["VP_SCRATCH"], f"p13_{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    if os.path.exists(p):
        os.remove(p)
    return p


def store(E, path, kind, schema, lens):
    """A stored file."""
    if not E.concrete:
        R.FILES[path] = (schema, lens)
        with open(path, "w") as f:
            f.write("model")
        return
    t = real_table(schema, lens)
    R.CUTS[path] = lens
    if kind == "parquet":
        import pyarrow.parquet as pq

        with pq.ParquetWriter(path, schema) as w:
            for b in t.to_batches():
                w.write_batch(b)
    elif kind == "csv":
        import pyarrow.csv as pc

        pc.write_csv(t, path)
    else:
        import json

        with open(path, "w") as f:
            for row in t.to_pylist():
                f.write(json.dumps(row) + "\n")


FILE = pa.schema([("a", pa.int64()), ("b", pa.int64()), ("c", pa.int64())])
SUBSETS = [list(p) for n in (1, 2, 3) for p in itertools.permutations("abc", n)]


def files(tier):
    def h(E):
        with R.ideal(not E.concrete):
            kind = E.pick("format", ["parquet", "csv", "json"])
            lens = lengths(E, int(E.int("batches", 1, 2 if tier == "quick" else 3)), 2000, lo=1)
            cols = E.pick("columns", [None, ["b"], ["b", "a"], ["c", "a", "b"], ["a", "x"]] if tier == "quick" else [None, *SUBSETS, ["a", "x"], ["x"]])
            ty = E.pick("type", ["int64", "double"] if tier == "quick" else ["int64", "int32", "double"]) if cols else "int64"
            schema = None if cols is None else pa.schema([(c, {"int64": pa.int64(), "int32": pa.int32(), "double": pa.float64()}[ty]) for c in cols])
            p = path_of("f." + kind)
            store(E, p, kind, FILE, lens)
            src = impl().FileTableSource(p, kind, schema)
            size = E.int("size", 1, 2000)
            for n in lens:
                E.assume(n <= size * 2)
            how = E.pick("how", ["all", "batches"])
            missing = cols is not None and "x" in cols

            def use():
                with src.open(size) as r:
                    return r.schema, [r.read_all()] if how == "all" else list(r)

            out, err = attempt(use)
            if missing:
                E.check(err is not None, "a file without a declared column is refused")
                return
            E.check(err is None, "a stored file is read", repr(err))
            if err is not None:
                return
            names = cols or ["a", "b", "c"]
            want = schema or FILE
            E.check(list(out[0].names) == names and [f.type for f in out[0]] == [f.type for f in want], "files: declared columns", str(out[0]))
            for b in out[1]:
                E.check([f.type for f in b.schema] == [f.type for f in want], "files: declared types", str(b.schema))
            rows_are(E, "files", out[1], {c: (p, c) for c in names}, add(lens))

    explore(h, unit="files", expect=("files: rows", "files: declared types", "a file without a declared column is refused"), functions=(TI + "FileTableSource.open", TI + "ParquetReader", TI + "TableReader"), validate=3, max_seconds=2400, bounds="three formats, 1..3 stored batches of 1..2000 rows, every choice and order of three columns (or missing ones), three declared types, read at once or in batches of any size of at least half a stored batch")


def table_type(names, el=None):
    import mplang.edsl.typing as T

    return T.TableType({n: el or T.i64 for n in names})


def held(t, typ):
    return eager(impl().TableValue(t), typ)


def failing(E, schema, origin, lens, after):
    """A lazy table whose stream breaks after some batches."""
    t = impl()

    class Broken(t.TableSource):
        def register(self, conn, name, replace=True):
            raise NotImplementedError

        def open(self, batch_size=1_000_000):
            it = stream(E, origin, schema, lens)

            def run():
                for _ in range(after):
                    yield it.read_next_batch()
                raise OSError("the source broke")

            if E.concrete:
                r = pa.RecordBatchReader.from_batches(schema, run())
            else:
                r = R.Stream(schema, run())
            return t.TableReader(r, batch_size=batch_size)

    return Broken()


def write(tier):
    def h(E):
        from mplang.dialects import table

        with R.ideal(not E.concrete):
            fmt = E.pick("format", ["parquet", "csv", "json"])
            hi = (1_500_000 if tier == "quick" else 2_500_000) if fmt == "parquet" else 1500
            k = int(E.int("tables", 1, 2 if tier == "quick" else 3))
            objs, origins, totals, broken = [], {}, [], False
            order = E.pick("order", ["abc", "cba"]) if k > 1 else "a"
            for j in range(k):
                kind = E.pick(f"kind{j}", ["table", "file", "query"] if j or k > 1 else ["table", "file", "query", "broken"])
                name = order[j]
                schema = pa.schema([(name, pa.int64())])
                lens = lengths(E, int(E.int(f"chunks{j}", 1, 3 if tier != "quick" else 2 if (kind == "table" or k == 1) and not (fmt != "parquet" and j) else 1)), hi, f"n{j}_", 1 if kind == "file" else 0)
                if kind == "table":
                    t, origins[name] = given(E, f"t{j}", schema, lens), (f"t{j}", name)
                elif kind == "file":
                    p = path_of(f"in{j}.parquet")
                    store(E, p, "parquet", schema, lens)
                    t, origins[name] = impl().FileTableSource(p, "parquet", schema), (p, name)
                elif kind == "query":
                    src = held(given(E, f"t{j}", schema, lens), table_type([name]))
                    t, origins[name] = queried(E, src, name), (f"t{j}", name)
                else:
                    broken = True
                    t = failing(E, schema, f"t{j}", lens, int(E.int("after", 0, len(lens))))
                totals.append(add(lens))
                objs.append(held(t, table_type([name])))
            out = path_of("out." + fmt)
            _, err = attempt(lambda: table.write(list(objs), out, format=fmt))
            same = True
            for n in totals[1:]:
                same = same and bool(n == totals[0])
            if broken or not same:
                E.check(err is not None, "tables of different lengths, or a source that breaks, are not written")
                E.check(not os.path.exists(out), "a write that fails leaves no file")
                return
            E.check(err is None, "tables of equal length are written", repr(err))
            if err is not None:
                return
            if E.concrete:
                rows_are(E, "write", [stored(out, fmt, origins)], origins, totals[0])
            else:
                kind, pieces = R.SINK[out]
                E.check(kind == fmt, "the format asked for")
                rows_are(E, "write", pieces, origins, totals[0])

    explore(h, unit="write", expect=("write: rows", "a write that fails leaves no file"), functions=(TI + "write_impl", TI + "MultiTableReader", TI + "TableReader", TI + "QueryTableSource.open"), validate=3, max_seconds=2400, bounds="three formats, 1..2 tables (thorough 3) held as tables (up to 2 chunks, thorough 3), files or query results of up to 1.5 million (thorough 2.5) rows a chunk (1500 for text formats), sources that break after any number of batches")


def stored(path, fmt, names):
    if fmt == "parquet":
        import pyarrow.parquet as pq

        return pq.read_table(path)
    if fmt == "csv":
        import pyarrow.csv as pc

        return pc.read_csv(path)
    import json

    with open(path) as f:
        rows = [json.loads(x) for x in f if x.strip()]
    return pa.table({n: [r[n] for r in rows] for n in (rows[0] if rows else names)})


def queried(E, src, name):
    """The lazy result of SELECT * over one table."""
    out, err = attempt(lambda: select("SELECT * FROM " + "q" + name, table_type([name]), {"q" + name: src}))
    if err is not None:
        raise err
    return out.runtime_obj.unwrap()


def select(query, out_type, tables):
    """run_sql over held tables, executed at once."""
    import mplang.backends.table_impl as ti  # noqa: F401
    from mplang.dialects import table
    from mplang.edsl.tracer import Tracer

    names = list(tables)
    with Tracer() as t:
        args = {n: t._new_arg(tables[n].type) for n in names}
        res = table.run_sql(query, out_type=out_type, **args)
        g = t.finalize(res)
    from mplang.runtime.interpreter import Interpreter

    order = {id(a._graph_value): n for n, a in args.items()}
    vals = [tables[order[id(v)]].runtime_obj for v in g.inputs]
    return eager(Interpreter().evaluate_graph(g, vals)[0], out_type)


def tensor(tier):
    def h(E):
        from mplang.dialects import table

        import mplang.backends.tensor_impl as TV
        import mplang.edsl.typing as T

        with R.ideal(not E.concrete):
            n = int(E.int("rows", 1, 3 if tier == "quick" else 4))
            m = int(E.int("columns", 1, 3))
            el, dt = E.pick("type", [(T.i64, "int64"), (T.i32, "int32"), (T.f64, "float64"), (T.u8, "uint8")])
            a = np.empty((n, m), dtype=object)
            for i in np.ndindex(n, m):
                a[i] = E.int(f"x{i[0]}_{i[1]}", 0, 200)
            names = E.pick("names", list(itertools.permutations("pqr"[:m])))
            R.PYDICT[:] = [lambda d: R.from_mapping(d, dt)] if not E.concrete else []
            v = a.astype(dt) if E.concrete else a
            if m > 1 and E.bool("columns-first"):
                v = np.array(v, order="F")
            held_t = eager(TV.TensorValue(v), T.TensorType(el, (n, m)))
            t = table.tensor2table(held_t, column_names=list(names))
            E.check(list(t.type.schema) == list(names) and all(x == el for x in t.type.schema.values()), "tensor: table type")
            got = t.runtime_obj.data
            cols = got.to_pydict() if E.concrete else got._data
            E.check(list(cols) == list(names), "tensor: columns")
            for j, c in enumerate(names):
                E.check(len(cols[c]) == n, "tensor: rows")
                for i in range(n):
                    E.check(cols[c][i] == a[i, j], "tensor: cell")
            # and back, with the columns picked in another order
            back = E.pick("back", list(itertools.permutations(names)))
            given_t = got.select(list(back))
            rows = E.pick("declared", sorted({-1, n, n + 1, max(1, n - 1), 1}))
            x, err = attempt(lambda: table.table2tensor(held(given_t, table_type(back, el)), number_rows=rows))
            if rows not in (-1, n):
                E.check(err is not None, "a table with another number of rows is refused")
                return
            E.check(err is None, "a table of one element type becomes a tensor", repr(err))
            if err is not None:
                return
            r = x.runtime_obj.unwrap()
            E.check(tuple(x.type.shape) == (rows, m) and x.type.element_type == el, "tensor: type")
            E.check(tuple(r.shape) == (n, m), "tensor: shape")
            for j, c in enumerate(back):
                for i in range(n):
                    E.check(r[i, j] == a[i, names.index(c)], "tensor: cell back")
            other = E.pick("other", [None, T.f32, T.i16])
            if other is not None:
                _, err = attempt(lambda: table.table2tensor(held(given_t, table_type(back, other)), number_rows=rows))
                E.check(err is not None, "a table whose cells have another type than declared is refused")

    explore(h, unit="tensor", expect=("tensor: cell", "tensor: cell back", "a table with another number of rows is refused", "a table whose cells have another type than declared is refused"), functions=(TI + "tensor2table_impl", TI + "table2tensor_impl", "extend.arrow.vector.table_to_numpy", "dialects.table"), validate=3, max_seconds=2400, bounds="1..3 rows (thorough 4), 1..3 columns in every order, four element types; all cells")


def sql(tier):
    def h(E):
        with R.ideal(not E.concrete):
            schema = pa.schema([("a", pa.int64())])
            ty = table_type(["a"])
            fileish = E.pick("format", ["parquet", "csv"])
            p = path_of("s." + fileish)
            la, lb, lf = (E.int(n, 1, 50) for n in ("la", "lb", "lf"))
            store_at(E, p, fileish, schema, [lf], 2000)
            if E.bool("second-file"):
                p2 = path_of("s2." + fileish)
                store_at(E, p2, fileish, schema, [lb], 1000)
                second = (held(impl().FileTableSource(p2, fileish, schema), ty), (p2, lb, 1000))
            else:
                second = (held(real_table(schema, [lb], 1000) if E.concrete else R.table("B", schema, [lb]), ty), ("B", lb, 1000))
            objs = [(held(real_table(schema, [la]) if E.concrete else R.table("A", schema, [la]), ty), ("A", la, 0)),
                    second,
                    (held(impl().FileTableSource(p, fileish, schema), ty), (p, lf, 2000))]
            k = int(E.int("queries", 1, 2 if tier == "quick" else 3))
            clash = False
            used = {}
            for q in range(k):
                first = q == 0 and k > 1  # by symmetry: one operand, named t
                m = 1 if first else int(E.int(f"operands{q}", 1, 2))
                names = ["t"] if first else E.pick(f"names{q}", list(itertools.permutations(["t", "T", "u"], m)))
                ops = [int(E.int(f"op{q}_{i}", 0, len(objs) - 1)) for i in range(m)]
                frm = int(E.int(f"from{q}", 0, m - 1))
                for n, o in zip(names, ops):
                    if used.setdefault(n.lower(), o) != o:
                        clash = True
                if len({n.lower() for n in names}) < m:
                    clash = True
                out, err = attempt(lambda: select(f"SELECT a FROM {names[frm]}", ty, {n: objs[o][0] for n, o in zip(names, ops)}))
                if err is not None:
                    E.check(clash, "queries over distinct names are not refused", repr(err) + repr(err.__cause__))
                    return
                objs.append((out, objs[ops[frm]][1]))
            for q, (o, (origin, n, base)) in enumerate(objs):
                t = o.runtime_obj.data
                if E.concrete:
                    E.check(t.column("a").to_pylist() == list(range(base, base + n)), "sql: rows", str(t.column("a").to_pylist()[:5]))
                else:
                    rows_are(E, "sql", [t], {"a": (origin, "a")}, n)
            E.cover("sql: rows")

    explore(h, unit="sql", expect=("sql: rows",), functions=(TI + "run_sql_impl", TI + "FileTableSource.register", TI + "QueryTableSource", "dialects.table.run_sql"), validate=6, max_seconds=2400, bounds="histories of up to 2 (thorough 3) queries over one or two of: a table, a stored file, another table or file, and earlier results, under names that may differ only in case; all read after the last; 1..50 rows each")


def store_at(E, path, kind, schema, lens, base):
    if not E.concrete:
        return store(E, path, kind, schema, lens)
    t = real_table(schema, lens, base)
    if kind == "parquet":
        import pyarrow.parquet as pq

        pq.write_table(t, path)
    else:
        import pyarrow.csv as pc

        pc.write_csv(t, path)
