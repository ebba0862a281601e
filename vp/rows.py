"""Ideal pyarrow tables whose columns are runs of rows of symbolic length: a column is a list of (origin, first row, number of rows).

A model object is an instance of a subclass of the real pyarrow class, so isinstance tests in the code under test hold; the static
constructors are replaced in the pyarrow module while `ideal()` is active and fall back to the real ones for real objects."""

import contextlib

import pyarrow as pa
import pyarrow.csv
import pyarrow.json
import pyarrow.parquet

REAL = {n: getattr(pa, n) for n in ("Table", "RecordBatch", "RecordBatchReader")}


class Meta(type(REAL["Table"])):
    """The stand-in for a class has the instances of the real one."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])


class Run:
    """Consecutive rows of one column of a source."""

    def __init__(self, origin, start, n):
        self.origin, self.start, self.n = origin, start, n

    def cut(self, off, n):
        return Run(self.origin, self.start + off, n)


class Chunks:
    """A column of a table (pa.ChunkedArray) or of a batch (pa.Array)."""

    def __init__(self, field, runs):
        self.field, self.runs = field, list(runs)

    @property
    def type(self):
        return self.field.type

    def __len__(self):
        return int(total(self.runs))

    def combine_chunks(self):
        return self

    @property
    def chunks(self):
        return [Chunks(self.field, [r]) for r in self.runs]

    @property
    def num_chunks(self):
        return len(self.runs)


def total(runs):
    n = 0
    for r in runs:
        n = r.n + n
    return n


class _Common:
    @property
    def schema(self):
        return self._schema

    @property
    def num_rows(self):
        return self._n

    @property
    def num_columns(self):
        return len(self._schema)

    @property
    def column_names(self):
        return list(self._schema.names)

    @property
    def columns(self):
        return [Chunks(f, [c for p in self._pieces() for c in p.col(i)]) for i, f in enumerate(self._schema)]

    def col(self, i):
        """The runs of one column."""
        return [c for p in self._pieces() for c in ([p._cols[i]] if p is self else p.col(i))]

    def column(self, i):
        if isinstance(i, str):
            i = self._schema.names.index(i)
        return self.columns[i]

    __getitem__ = column

    def itercolumns(self):
        return iter(self.columns)

    def __len__(self):
        return int(self._n)

    def equals(self, other):
        raise NotImplementedError("model tables are compared by the check")

    @property
    def nbytes(self):
        return 8

    def get_total_buffer_size(self):
        return 8

    def validate(self, full=False):
        pass


class Batch(_Common, REAL["RecordBatch"]):
    """n rows; one run per column."""

    def __init__(self, schema, cols, n):
        self._schema, self._cols, self._n = schema, list(cols), n

    def _pieces(self):
        return [self]

    def slice(self, offset=0, length=None):
        left = self._n - offset
        n = left if length is None or left < length else length
        if n < 0:
            n = 0
        return Batch(self._schema, [c.cut(offset, n) for c in self._cols], n)

    def cast(self, target_schema, safe=None, options=None):
        if list(target_schema.names) != list(self._schema.names):
            raise ValueError("Target schema's field names are not matching the record batch's field names")
        return Batch(target_schema, self._cols, self._n)

    def select(self, columns):
        idx = [self._schema.names.index(c) if isinstance(c, str) else c for c in columns]
        return Batch(pa.schema([self._schema.field(i) for i in idx]), [self._cols[i] for i in idx], self._n)

    def rename_columns(self, names):
        return Batch(pa.schema([f.with_name(n) for f, n in zip(self._schema, names, strict=True)]), self._cols, self._n)


class Tab(_Common, REAL["Table"]):
    """A table held as batches."""

    def __init__(self, schema, batches):
        self._schema, self._batches = schema, list(batches)
        self._n = 0
        for b in self._batches:
            self._n = b._n + self._n

    def _pieces(self):
        return self._batches

    def to_batches(self, max_chunksize=None):
        out = []
        for b in self._batches:
            if b._n == 0:
                continue
            if max_chunksize is None:
                out.append(b)
                continue
            done = 0
            while done < b._n:
                out.append(b.slice(done, max_chunksize))
                done = done + out[-1]._n
        return out

    def to_reader(self, max_chunksize=None):
        return Stream(self._schema, self.to_batches(max_chunksize))

    def combine_chunks(self, memory_pool=None):
        return joined(self)

    def unify_dictionaries(self, memory_pool=None):
        return self

    def select(self, columns):
        bs = [b.select(columns) for b in self._batches]
        return Tab(bs[0]._schema if bs else pa.schema([self._schema.field(c) for c in columns]), bs)

    def cast(self, target_schema, safe=None, options=None):
        return Tab(target_schema, [b.cast(target_schema) for b in self._batches])

    def slice(self, offset=0, length=None):
        out, pos, end = [], 0, None if length is None else offset + length
        for b in self._batches:
            lo = offset - pos if offset > pos else 0
            if lo < b._n and (end is None or pos < end):
                n = b._n - lo
                if end is not None and pos + lo + n > end:
                    n = end - pos - lo
                out.append(b.slice(lo, n))
            pos = pos + b._n
        return Tab(self._schema, out)

    def rename_columns(self, names):
        bs = [b.rename_columns(names) for b in self._batches]
        return Tab(pa.schema([f.with_name(n) for f, n in zip(self._schema, names, strict=True)]), bs)

    def to_pandas(self, *a, **k):
        return Frame(self)


class Joined(Batch):
    """A batch whose columns are made of several runs (rows made contiguous)."""

    def __init__(self, schema, batches):
        self._parts = [p for b in batches for p in (b._parts if isinstance(b, Joined) else [b])]
        self._schema, self._n = schema, 0
        for b in self._parts:
            self._n = b._n + self._n

    def _pieces(self):
        return self._parts

    def slice(self, offset=0, length=None):
        t = Tab(self._schema, self._parts).slice(offset, length)
        return Joined(self._schema, t._batches)

    def cast(self, target_schema, safe=None, options=None):
        return Joined(target_schema, [b.cast(target_schema) for b in self._parts])

    def select(self, columns):
        bs = [b.select(columns) for b in self._parts]
        return Joined(bs[0]._schema, bs)


def joined(table):
    parts = [b for b in table._batches if not b._n == 0]
    return Tab(table._schema, [Joined(table._schema, parts)] if parts else [])


class Frame:
    """What pandas makes of a table."""

    def __init__(self, table):
        self.table = table

    def to_json(self, path, orient=None, lines=False, **k):
        if orient != "records" or not lines:
            raise NotImplementedError("JSON layout")
        with open(path, "w") as f:
            f.write("model")
        SINK[path] = ("json", [self.table])


SINK = {}


class Stream(REAL["RecordBatchReader"]):
    def __init__(self, schema, batches):
        self._schema, self._it, self._open = schema, iter(batches), True

    @property
    def schema(self):
        return self._schema

    def read_next_batch(self):
        if not self._open:
            raise ValueError("the reader is closed")
        return next(self._it)

    __next__ = read_next_batch

    def __iter__(self):
        return self

    def read_all(self):
        out = []
        while True:
            try:
                out.append(self.read_next_batch())
            except StopIteration:
                return Tab(self._schema, out)

    def cast(self, target):
        if list(target.names) != list(self._schema.names):
            raise ValueError("Cannot cast: names differ")
        return Stream(target, (b.cast(target) for b in self._it))

    def close(self):
        self._open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def is_model(x):
    return isinstance(x, (Batch, Tab, Stream, Chunks, Run))


def rows_of(x):
    return x._batches if isinstance(x, Tab) else [x]


class MTable(REAL["Table"], metaclass=Meta):
    @staticmethod
    def from_batches(batches, schema=None):
        batches = list(batches)
        if not any(is_model(b) for b in batches):
            if not batches and schema is not None:
                return Tab(schema, [])
            return REAL["Table"].from_batches(batches, schema=schema)
        s = schema or batches[0].schema
        for b in batches:
            if not b.schema.equals(s):
                raise pa.ArrowInvalid("Schema at index was different")
        return Tab(s, batches)

    from_arrays = staticmethod(lambda arrays, names=None, schema=None, metadata=None: _from_arrays(Tab, arrays, names, schema))
    from_pandas = staticmethod(REAL["Table"].from_pandas)
    from_pylist = staticmethod(REAL["Table"].from_pylist)

    @staticmethod
    def from_pydict(mapping, schema=None, metadata=None):
        if PYDICT:
            return PYDICT[0](mapping)
        return REAL["Table"].from_pydict(mapping, schema=schema, metadata=metadata)


PYDICT = []


def _from_arrays(kind, arrays, names, schema):
    if not any(is_model(a) for a in arrays):
        r = REAL["RecordBatch" if kind is Batch else "Table"]
        return r.from_arrays(arrays, names=names, schema=schema) if schema is None else r.from_arrays(arrays, schema=schema)
    fields = list(schema) if schema is not None else [a.field.with_name(n) for a, n in zip(arrays, names, strict=True)]
    s = pa.schema(fields)
    # rows of every column, cut at the union of the columns' run borders
    parts, queues = [], [[r for r in a.runs] for a in arrays]
    lens = [total(a.runs) for a in arrays]
    for n in lens[1:]:
        if n != lens[0]:
            raise pa.ArrowInvalid("Column length mismatch")
    if len({len(q) for q in queues}) == 1 and all(all(bool(q[i].n == queues[0][i].n) for q in queues) for i in range(len(queues[0]))):
        for i in range(len(queues[0])):
            parts.append(Batch(s, [q[i] for q in queues], queues[0][i].n))
    else:
        while all(queues):
            queues = [[r for r in q if not r.n == 0] for q in queues]
            if not all(queues):
                break
            n = queues[0][0].n
            for q in queues[1:]:
                if q[0].n < n:
                    n = q[0].n
            parts.append(Batch(s, [q[0].cut(0, n) for q in queues], n))
            queues = [[q[0].cut(n, q[0].n - n), *q[1:]] for q in queues]
    if kind is Tab:
        return Tab(s, parts)
    return parts[0] if len(parts) == 1 else Joined(s, parts)


class MBatch(REAL["RecordBatch"], metaclass=Meta):
    from_arrays = staticmethod(lambda arrays, names=None, schema=None, metadata=None: _from_arrays(Batch, arrays, names, schema))
    from_pandas = staticmethod(REAL["RecordBatch"].from_pandas)
    from_pydict = staticmethod(REAL["RecordBatch"].from_pydict)
    from_pylist = staticmethod(REAL["RecordBatch"].from_pylist)


class MReader(REAL["RecordBatchReader"], metaclass=Meta):
    @staticmethod
    def from_batches(schema, batches):
        batches = list(batches)
        if batches and not any(is_model(b) for b in batches):
            return REAL["RecordBatchReader"].from_batches(schema, batches)
        return Stream(schema, batches)


def concat_tables(tables, *a, **k):
    tables = list(tables)
    if not any(is_model(t) for t in tables):
        return pa_concat_tables(tables, *a, **k)
    return Tab(tables[0].schema, [b for t in tables for b in t._batches])


def concat_batches(batches, *a, **k):
    batches = list(batches)
    if not any(is_model(t) for t in batches):
        return pa_concat_batches(batches, *a, **k)
    return Joined(batches[0].schema, batches)


pa_table = pa.table
pa_concat_tables = pa.concat_tables
pa_concat_batches = getattr(pa, "concat_batches", None)


class Writer:
    """A file writer that keeps what it was given."""

    def __init__(self, path, schema, kind):
        self.path, self.schema, self.open = path, schema, True
        with open(path, "w") as f:
            f.write("model")
        self.got = []
        SINK[path] = (kind, self.got)

    def _add(self, x):
        if not self.open:
            raise ValueError("the writer is closed")
        if not x.schema.equals(self.schema):
            raise ValueError("Table schema does not match schema used to create file")
        self.got.append(x)

    def write_batch(self, batch, *a, **k):
        self._add(batch)

    def write_table(self, table, *a, **k):
        self._add(table)

    write = write_table

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ParquetFile:
    """A stored file: FILES[path] = (schema, [rows per batch])."""

    def __init__(self, source, *a, **k):
        self.schema_arrow, self.lens = FILES[source]
        self.source = source
        n = 0
        for k in self.lens:
            n = k + n
        self.metadata = type("Metadata", (), {"num_rows": _Rows(n)})()
        self.num_row_groups = len(self.lens)

    def iter_batches(self, batch_size=65536, row_groups=None, columns=None, **k):
        # columns come in the order asked for
        names = list(self.schema_arrow.names) if columns is None else [c for c in columns if c in self.schema_arrow.names]
        return iter([b.select(names) for b in batches(self.source, self.schema_arrow, self.lens)])

    def read(self, columns=None, **k):
        bs = list(self.iter_batches(columns=columns))
        return Tab(bs[0].schema if bs else self.schema_arrow, bs)

    def close(self, force=False):
        pass


class _Rows:
    """A row count in a file's metadata (int(...) must not force a value)."""

    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n if type(self.n) is int else -1


FILES = {}


# ------------------------------------------------------------------ tables of unknown cells


class Cells(REAL["Table"]):
    """A table of one unknown per cell."""

    def __init__(self, cols, types):
        self._data = cols
        self._schema = pa.schema([pa.field(n, types[n]) for n in cols])

    schema = property(lambda self: self._schema)
    num_rows = property(lambda self: len(next(iter(self._data.values()))) if self._data else 0)
    num_columns = property(lambda self: len(self._data))
    column_names = property(lambda self: list(self._data))
    columns = property(lambda self: [CellColumn(self, n) for n in self._data])

    def column(self, i):
        return self.columns[list(self._data).index(i) if isinstance(i, str) else i]

    __getitem__ = column

    def itercolumns(self):
        return iter(self.columns)

    def combine_chunks(self, *a, **k):
        return self

    def to_pandas(self, *a, **k):
        return CellFrame(self)

    def select(self, names):
        names = [n if isinstance(n, str) else list(self._data)[n] for n in names]
        return Cells({n: self._data[n] for n in names}, {n: self._schema.field(n).type for n in names})


def typed(values, dtype):
    """An object array that gives the element type it stands for."""
    import numpy as np

    k = type("Typed", (np.ndarray,), {"dtype": property(lambda self: np.dtype(dtype)), "__array_priority__": 9.0})
    return np.asarray(values, dtype=object).view(k)


def common(schema):
    import numpy as np

    return np.result_type(*[np.dtype(f.type.to_pandas_dtype()) for f in schema])


class CellColumn:
    def __init__(self, table, name):
        self.values, self.type = table._data[name], table._schema.field(name).type

    def to_numpy(self, *a, **k):
        return typed(self.values, self.type.to_pandas_dtype())

    def combine_chunks(self):
        return self

    def __len__(self):
        return len(self.values)


class CellFrame:
    def __init__(self, table):
        self.table = table

    def to_numpy(self, *a, **k):
        import numpy as np

        out = np.empty((self.table.num_rows, len(self.table._data)), dtype=object)
        for j, c in enumerate(self.table._data.values()):
            for i, v in enumerate(c):
                out[i, j] = v
        return typed(out, common(self.table._schema))

    values = property(lambda self: self.to_numpy())


def from_mapping(mapping, dtype):
    """pa.Table.from_pydict / pa.table over columns of unknown cells of one element type."""
    import numpy as np

    cols = {n: list(np.asarray(c).tolist() if not isinstance(c, list) else c) for n, c in mapping.items()}
    t = pa.from_numpy_dtype(np.dtype(dtype))
    return Cells(cols, dict.fromkeys(cols, t))


# ------------------------------------------------------------------ an ideal DuckDB: named views, read when asked


class Conn:
    """Names ignore case and are looked up when a relation is read, as DuckDB does."""

    def __init__(self):
        self.views = {}

    def register(self, name, data):
        self.views[name.lower()] = data
        return self

    def sql(self, query, *a, **k):
        import re

        m = re.fullmatch(r'\s*SELECT\s+(\*|\w+(?:\s*,\s*\w+)*)\s+FROM\s+"?(\w+)"?\s*', query, re.I)
        if not m:
            raise NotImplementedError(query)
        name = m.group(2).lower()
        if name not in self.views:
            raise RuntimeError(f"Catalog Error: Table with name {name} does not exist!")
        cols = None if m.group(1) == "*" else [c.strip() for c in m.group(1).split(",")]
        return Rel(self, lambda: content(self.views[name]), cols)

    query = sql

    def read_parquet(self, paths, *a, **k):
        p = paths if isinstance(paths, str) else paths[0]
        return Rel(self, lambda: table(p, *FILES[p]), None)

    def from_csv_auto(self, path, *a, **k):
        return self.read_parquet(path)

    read_csv = read_json = from_parquet = from_csv_auto

    def from_arrow(self, t):
        return Rel(self, lambda: t, None)

    def table(self, name):
        return Rel(self, lambda: content(self.views[name.lower()]), None)

    view = table

    def close(self):
        pass


def content(x):
    return x.read() if isinstance(x, Rel) else x


class Rel:
    def __init__(self, conn, get, cols, schema=None):
        self.conn, self.get, self.cols, self.schema = conn, get, cols, schema

    def read(self):
        t = self.get()
        if self.cols is not None:
            t = t.select(self.cols)
        return t if self.schema is None else t.cast(self.schema)

    @property
    def columns(self):
        return list(self.read().schema.names)

    def project(self, what):
        import re

        cols = []
        for part in re.split(r",\s*(?=CAST)", what):
            m = re.fullmatch(r'\s*CAST\("([^"]*)" AS (\w+)\) AS "([^"]*)"\s*', part)
            if not m or m.group(1) != m.group(3):
                raise NotImplementedError(part)
            cols.append((m.group(1), {"BIGINT": pa.int64(), "INTEGER": pa.int32(), "DOUBLE": pa.float64()}[m.group(2)]))
        return Rel(self.conn, self.read, [c for c, _ in cols], pa.schema(cols))

    select = project

    def create_view(self, name, replace=True):
        if not replace and name.lower() in self.conn.views:
            raise RuntimeError(f'Catalog Error: View with name "{name}" already exists!')
        seen, self.conn.views[name.lower()] = self.conn.views.get(name.lower()), self
        return self

    def arrow(self, batch_size=1000000):
        return self.read().to_reader()

    fetch_arrow_reader = fetch_record_batch = arrow

    def to_arrow_table(self, batch_size=1000000):
        return self.read()

    fetch_arrow_table = to_arrow_table


def batches(origin, schema, lens):
    out, pos = [], 0
    for n in lens:
        out.append(Batch(schema, [Run((origin, f.name), pos, n) for f in schema], n))
        pos = n + pos
    return out


def table(origin, schema, lens):
    return Tab(schema, batches(origin, schema, lens))


def open_csv(path, read_options=None, parse_options=None, convert_options=None, memory_pool=None):
    schema, lens = FILES[path]
    cols = list(getattr(convert_options, "include_columns", None) or schema.names)
    types = dict(getattr(convert_options, "column_types", None) or {})
    out = pa.schema([pa.field(c, types.get(c, schema.field(c).type)) for c in cols])
    return Stream(out, [b.select(cols).cast(out) for b in batches(path, schema, lens)])


def read_json(path, read_options=None, parse_options=None, memory_pool=None):
    schema, lens = FILES[path]
    return table(path, schema, lens)


class Rechunked(pyarrow.parquet.ParquetFile):
    """A real file whose batches are those of CUTS (how a reader cuts a file is not specified)."""

    def __init__(self, source, *a, **k):
        super().__init__(source, *a, **k)
        self.cuts = CUTS.get(source)

    def iter_batches(self, *a, columns=None, **k):
        bs = super().iter_batches(*a, columns=columns, **k)
        return bs if self.cuts is None else iter(rechunk(list(bs), self.cuts))


CUTS = {}


def rechunk(bs, lens):
    if not bs:
        return bs
    t = REAL["Table"].from_batches(bs).combine_chunks()
    out, pos = [], 0
    for n in lens:
        out += t.slice(pos, n).to_batches()
        pos += n
    return out


real_csv, real_json = pyarrow.csv.open_csv, pyarrow.json.read_json


def cut_csv(path, *a, **k):
    r = real_csv(path, *a, **k)
    return r if path not in CUTS else REAL["RecordBatchReader"].from_batches(r.schema, rechunk(list(r), CUTS[path]))


def cut_json(path, *a, **k):
    t = real_json(path, *a, **k)
    return t if path not in CUTS else REAL["Table"].from_batches(rechunk(t.to_batches(), CUTS[path]), schema=t.schema)


@contextlib.contextmanager
def ideal(on=True):
    """Model objects behave; when off, only how readers cut stored files changes."""
    CUTS.clear()
    swaps = [(pyarrow.parquet, "ParquetFile", Rechunked), (pyarrow.csv, "open_csv", cut_csv), (pyarrow.json, "read_json", cut_json)] if not on else [(pa, "Table", MTable), (pa, "RecordBatch", MBatch), (pa, "RecordBatchReader", MReader), (pa, "concat_tables", concat_tables),
             (pyarrow.parquet, "ParquetFile", ParquetFile), (pyarrow.csv, "open_csv", open_csv), (pyarrow.json, "read_json", read_json),
             (pyarrow.parquet, "ParquetWriter", lambda p, s, *a, **k: Writer(p, s, "parquet")),
             (pyarrow.csv, "CSVWriter", lambda p, s, *a, **k: Writer(p, s, "csv"))]
    if on:
        import duckdb

        swaps += [(pa, "table", lambda d, *a, **k: PYDICT[0](d) if PYDICT and isinstance(d, dict) else pa_table(d, *a, **k)), (duckdb, "connect", lambda *a, **k: Conn())]
    if on and pa_concat_batches is not None:
        swaps.append((pa, "concat_batches", concat_batches))
    old = [(m, n, getattr(m, n)) for m, n, _ in swaps]
    FILES.clear(), SINK.clear(), PYDICT.clear()
    try:
        for m, n, v in swaps:
            setattr(m, n, v)
        yield
    finally:
        for m, n, v in old:
            setattr(m, n, v)
