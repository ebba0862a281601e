"""Program artifacts: solver-chosen programs with symbolic attributes are packed by the real code, the artifact's JSON is
changed at a solver-chosen node in a solver-chosen way, and what the real unpacking returns must be the packed program."""

import contextlib
import copy
import io
import json
import math
import tarfile

import numpy as np

from vp import graphs, types as ty
from vp.sym import SymInt, deep_eq, explore, is_sym

FUNCS = ("tool.program.compile_program/pack/unpack/inspect_artifact/pack_to_path/unpack_path", "edsl.program.compute_graph_digest", "CompiledProgram/FlatIOSignature.to_json/from_json", "Graph.to_json/from_json")
ASSUMPTIONS = "json text, tar, gzip and SHA-256 (collision freedom) are trusted; the descriptive fields name, created_at, mplang_version and a missing required_world_size are not protected"


def units(tier):
    deep = tier == "thorough"
    return [("round-trip", lambda: round_trip(deep), 4), ("tamper", lambda: tamper(deep), 8), ("container", container, 2), ("compiled", compiled, 2)]


@contextlib.contextmanager
def env():
    from checks import P08_serde as p8
    from mplang.edsl import program

    with p8.keep_ints():
        had = "int" in vars(program)
        program.int = p8._Int
        try:
            yield
        finally:
            if not had:
                del program.int


def program(E, what, spec=None):
    import mplang.edsl.typing as T
    from mplang.edsl.program import CompiledProgram, FlatIOSignature, compute_graph_digest
    from mplang.tool import program as tp

    spec = spec or {"n_in": 2, "ops": [([1, 0], 2), ([3, 0], 1)], "outs": [4, 2]}
    g, _ = graphs.to_graph(spec)
    op = g.operations[0] if g.operations else None
    if what == "all":  # one program with everything
        op.attrs = {"k": E.int("k", -9, 9), "parties": (1, 0), "z": {"b": 1, "a": [None, 2.5, "é"]}, "arr": np.arange(2), "flag": True, "c": {1: b"x"}}
        op.outputs[0].type = T.TableType({"b": T.TensorType(T.i64, (E.int("d", 1, 5),)), "a": T.i32}, nrows=3)
        r, _ = graphs.to_graph({"n_in": 1, "ops": [([0], 1)], "outs": [1]}, "in{}")
        r.operations[0].attrs = {"k": E.int("rk", 0, 9)}
        op.regions = [r]
    elif what == "ints":
        op.attrs = {"k": E.int("k", -9, 9), "parties": (E.int("p0", 0, 3), E.int("p1", 0, 3))}
    elif what == "schema":
        names = E.pick("cols", [("b", "a"), ("a", "b"), ("z", "a", "m")])
        op.outputs[0].type = T.TableType({c: T.TensorType(T.i64, (E.int("d" + c, 1, 5),)) if i == 0 else T.i32 for i, c in enumerate(names)}, nrows=E.pick("nrows", [-1, 3]))
    elif what == "dict":
        op.attrs = {"z": {"b": E.int("vb", 0, 9), "a": [1, None, 2.5]}, "data": {"id": (1, 2), "age": np.arange(2)}, "a": "x"}
    elif what == "payload":
        op.attrs = {"blob": E.pick("blob", [b"", b"\x00\xff"]), "arr": np.arange(4).reshape(2, 2), "s": E.pick("s", ["", "é\n", "_kind"]), "f": E.pick("f", [0.1, float("inf"), -0.0]), "c": {1: "x", (2,): None}, "flag": True}
    elif what == "region":
        r, _ = graphs.to_graph({"n_in": 1, "ops": [([0], 1), ([1, 0], 1)], "outs": [2]}, "in{}")
        r.operations[0].attrs = {"k": E.int("rk", 0, 9)}
        r.operations[1].regions = [graphs.to_graph({"n_in": 0, "ops": [([], 1)], "outs": [0]}, "leaf{}")[0]]
        g.operations[-1].regions = [r, graphs.to_graph({"n_in": 1, "ops": [], "outs": [0]})[0]]
        r.operations[0].attrs["parties"] = [E.int("p0", 0, 4)]
    return CompiledProgram(
        graph=g, signature=FlatIOSignature(len(g.inputs), len(g.outputs)), required_opcodes=sorted(tp._collect_opcodes(g)),
        graph_digest=compute_graph_digest(g), required_world_size=tp._compute_required_world_size(g), created_at="now", mplang_version="v", name=E.pick("pname", ["job", None, "é"]),
    )


WHATS = ("ints", "schema", "dict", "payload", "region")


def conj(parts):
    acc = True
    for r in parts:
        if r is False:
            return False
        acc = r if acc is True else (acc if r is True else acc & r)
    return acc


def same(a, b):
    """Attribute values and canonical graphs: True, False or a symbolic condition."""
    import mplang.edsl.typing as T

    if isinstance(a, T.BaseType):
        return type(a) is type(b) and ty.same(ty.canonical(a), ty.canonical(b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return type(a) is type(b) and a == b
    if isinstance(a, int):
        return isinstance(b, int) and deep_eq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and conj(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and list(a) == list(b) and conj(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def canon(g):
    from checks.P08_serde import canon_graph

    ins, ops, outs = canon_graph(g)

    def order(o):  # the order of an operation's own attributes carries no meaning
        op, args, types, attrs, regions = o
        return (op, args, types, dict(sorted(attrs.items())), [(i, [order(x) for x in oo], ou) for i, oo, ou in regions])

    return ins, [order(o) for o in ops], outs


def same_program(a, b):
    return conj([
        same(canon(a.graph), canon(b.graph)),
        a.signature == b.signature if not is_sym(b.signature.input_arity) and not is_sym(b.signature.output_arity) else deep_eq([a.signature.input_arity, a.signature.output_arity], [b.signature.input_arity, b.signature.output_arity]),
        sorted(a.required_opcodes) == sorted(b.required_opcodes),
        a.graph_digest == b.graph_digest,
        same(a.schema_version, b.schema_version),
        b.required_world_size is None or same(a.required_world_size, b.required_world_size),
    ])


def unpack(data):
    from mplang.tool import program as tp

    return tp.unpack(data)


def text_of(data):
    with tarfile.open(fileobj=io.BytesIO(data), mode="r:*") as tf:
        return tf.extractfile("artifact.json").read()


def tar_of(text, name="artifact.json"):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w") as tf:
        info = tarfile.TarInfo(name=name)
        info.size = len(text)
        tf.addfile(info, io.BytesIO(text))
    return buf.getvalue()


def round_trip(deep):
    def h(E):
        from mplang.edsl.program import compute_graph_digest
        from mplang.tool import program as tp

        with env():
            what = E.pick("what", ("wiring", *WHATS))
            spec = graphs.symbolic_graph(E, n_ops=1 + E.choose("ops", 2), n_in=E.choose("nin", 3), max_arity=2 if deep else 1, max_outs=2) if what == "wiring" else None
            p = program(E, what, spec)
            data = tp.pack(p, compress=bool(E.choose("gz", 2)))
            q = unpack(data)
            E.check(same_program(p, q), "same-program", f"{what}: {p.graph} became {q.graph}")
            E.check(conj([p.name == q.name, p.created_at == q.created_at, p.mplang_version == q.mplang_version, same(p.required_world_size, q.required_world_size)]), "same-description", f"{vars(q)}")
            E.check(compute_graph_digest(q.graph) == p.graph_digest, "same-digest", "digest of the restored graph differs")
            q2 = unpack(tp.pack(q))
            E.check(same_program(p, q2), "second-trip", "packing the unpacked program gives another program")

    explore(h, unit="round-trip", expect=("same-program", "same-description", "same-digest", "second-trip"), functions=FUNCS,
            bounds="programs of 1-2 operations, every wiring; attributes, table schemas, nested regions with symbolic integers", max_seconds=2400, max_paths=10**6)


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], (*path, k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nodes(v, (*path, i))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def mutate(E, js, path, how):
    """Change the node in place; False when this change does not apply there."""
    node, parent, k = at(js, path), at(js, path[:-1]), path[-1]
    if how == "value":
        if isinstance(node, bool):
            parent[k] = not node
        elif isinstance(node, int):
            v = E.int("new", -20, 20)
            E.assume(v != node)
            parent[k] = v
        elif isinstance(node, float):
            parent[k] = node / 2 + 1
        elif isinstance(node, str):
            parent[k] = E.pick("text", ["", node + "x", node[:-1], node.swapcase()])
        elif node is None:
            parent[k] = "x"
        else:
            return False
        return True
    if how == "retype":
        if isinstance(node, int) and not isinstance(node, bool):
            parent[k] = E.pick("as", [lambda: node + 0.5 if not is_sym(node) else 0.5, lambda: str(node), lambda: True, lambda: None])()
        elif isinstance(node, (list, dict)):
            parent[k] = E.pick("as", [lambda: None, lambda: [] if isinstance(node, dict) else {}, lambda: "", lambda: [node]])()
        elif isinstance(node, str):
            parent[k] = E.pick("as", [None, 0, [node]])
        else:
            return False
        return True
    if how == "drop":
        del parent[k]
        return True
    if how == "duplicate":
        if not isinstance(parent, list):
            return False
        parent.insert(k, clone(node))
        return True
    if how == "swap":
        if isinstance(parent, list):
            if k + 1 >= len(parent):
                return False
            parent[k], parent[k + 1] = parent[k + 1], parent[k]
            return True
        ks = list(parent)
        i = ks.index(k)
        if i + 1 >= len(ks):
            return False
        parent[k], parent[ks[i + 1]] = parent[ks[i + 1]], parent[k]
        return True
    if how == "rename":
        if not isinstance(parent, dict):
            return False
        items = [(kk if kk != k else E.pick("key", [k + "x", "_" + k]), v) for kk, v in parent.items()]
        parent.clear()
        parent.update(items)
        return True
    # reorder: the entry moves to the end of its object
    if not isinstance(parent, dict) or list(parent)[-1] == k:
        return False
    parent[k] = parent.pop(k)
    return True


HOWS = ("value", "retype", "drop", "duplicate", "swap", "rename", "reorder")


def tamper(deep):
    def h(E):
        from mplang.tool import program as tp

        with env():
            what = E.pick("what", WHATS if deep else ("all",))
            one = Once(E)
            p = program(one, what, spec=None if deep else {"n_in": 1, "ops": [([0, 0], 2)], "outs": [2, 0]})
            js = json.loads(text_of(tp.pack(p)))
            paths = [x for x in nodes(js) if x]
            path = paths[E.choose("node", len(paths))]
            how = E.pick("how", HOWS)
            if not mutate(E, js, path, how):
                return
            data = tar_of(json.dumps(js).encode())
            try:
                q = unpack(data)
            except Exception:  # noqa: BLE001 - any rejection will do
                E.cover("rejected")
                return
            E.check(same_program(p, q), "accepted-only-unchanged", f"{how} at {'/'.join(map(str, path))} accepted: {p.graph.to_string(True)} / {q.graph.to_string(True)}; digest {p.graph_digest!r} / {q.graph_digest!r}; {p.signature} / {q.signature}; {p.schema_version} / {q.schema_version}")

    explore(h, unit="tamper", expect=("rejected", "accepted-only-unchanged"), functions=FUNCS,
            bounds="every node of the artifact JSON x 7 kinds of change (symbolic new numbers, other texts, other JSON types, dropped, duplicated, exchanged, renamed, reordered entries); five kinds of program", max_seconds=2400, max_paths=10**6)


class Once:
    """Program variations that do not matter here take their first value; symbolic integers stay symbolic."""

    def __init__(self, E):
        self._E = E

    def __getattr__(self, n):
        return getattr(self._E, n)

    def pick(self, name, seq):
        return list(seq)[0]

    def int(self, name, lo, hi):
        return 1 if name in ("p0", "p1") else self._E.int(name, lo, hi)  # party ids are put in sets: hashed


def container():
    """Whatever happens to the container, unpacking gives the program or an error."""

    def h(E):
        from mplang.tool import program as tp

        with env():
            p = program(Once(E), E.pick("what", ("dict", "payload")))
            data = tp.pack(p, compress=bool(E.choose("gz", 2)))
            how = E.pick("how", ["truncate", "flip", "other-member", "two-members", "limit", "not-tar", "symlink"])
            if how == "truncate":
                data = data[: E.pick("cut", [0, 1, 10, len(data) // 4, len(data) // 2])]
            elif how == "flip" and E.choose("where", 2):
                t = text_of(data).replace(b'"op0"', b'"op9"', 1)
                data = tar_of(t)
            elif how == "flip":
                i = E.pick("at", [0, 3, 20, 100, 156, 257]) % len(data)
                data = data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
            elif how == "other-member":
                data = tar_of(text_of(data), E.pick("name", ["artifact.jsonx", "../artifact.json", "x/artifact.json"]))
            elif how == "two-members":
                # the last member with a name wins in tar; either way the content is validated
                buf = io.BytesIO()
                with tarfile.open(fileobj=buf, mode="w") as tf:
                    for t in (text_of(data), b"{}") if E.choose("order", 2) else (b"{}", text_of(data)):
                        info = tarfile.TarInfo("artifact.json")
                        info.size = len(t)
                        tf.addfile(info, io.BytesIO(t))
                data = buf.getvalue()
            elif how == "not-tar":
                data = E.pick("junk", [b"", b"{}", b"\x1f\x8b" + b"0" * 20, b"x" * 600])
            elif how == "symlink":
                buf = io.BytesIO()
                with tarfile.open(fileobj=buf, mode="w") as tf:
                    info = tarfile.TarInfo("artifact.json")
                    info.type = tarfile.SYMTYPE
                    info.linkname = "/etc/passwd"
                    tf.addfile(info)
                data = buf.getvalue()
            try:
                q = tp.unpack(data, max_artifact_json_bytes=E.int("limit", 0, 10)) if how == "limit" else unpack(data)
            except Exception:  # noqa: BLE001
                E.cover("rejected")
                return
            E.check(how != "limit", "size-limit", "an artifact above the size limit was unpacked")
            E.check(same_program(p, q), "accepted-only-unchanged", f"{how} accepted: {q.graph}")

    explore(h, unit="container", expect=("rejected", "accepted-only-unchanged"), functions=FUNCS, bounds="truncation, header and content changes, other members, links, size limit", max_seconds=2400, max_paths=10**6)


def compiled():
    """compile_program: what is traced is what is stored, and what cannot be stored is refused."""

    def h(E):
        import mplang.edsl as el
        import mplang.edsl.typing as T
        from mplang.edsl.tracer import Tracer
        from mplang.tool import program as tp

        i64 = T.TensorType(T.i64, ())
        src, two = el.Primitive("vp.psrc"), el.Primitive("vp.ptwo")

        @src.def_abstract_eval
        def _s(*a, k=0):
            return i64

        @two.def_abstract_eval
        def _t(*a):
            return (i64, T.TensorType(T.i64, (2,)))

        kind = E.pick("kind", ["plain", "nested", "constant-out", "capture", "dead", "zero-out"])
        n = E.choose("n", 2)
        with env(), Tracer():
            outer = src.bind(k=7)

            def fn():
                xs = [src.bind(k=E.int(f"k{i}", 0, 9) if i == 0 else i) for i in range(n + 1)]
                if kind == "nested":
                    return {"b": [two.bind(xs[0])[1]], "a": (xs[-1], xs[0])}
                if kind == "constant-out":
                    return xs[0], E.pick("imm", [3, "x", 2.5])
                if kind == "capture":
                    return two.bind(xs[0], outer)
                if kind == "zero-out":
                    return ()
                if kind == "dead":
                    two.bind(*xs)
                    return xs[0]
                return tuple(reversed(xs))

            try:
                p = tp.compile_program(fn, name="n")
            except ValueError:
                E.check(kind in ("constant-out", "capture"), "storable-accepted", f"{kind} refused")
                E.cover("refused")
                return
            E.check(kind not in ("capture", "constant-out"), "unstorable-refused", f"{kind} accepted")
            E.check(p.signature.input_arity == len(p.graph.inputs) and p.signature.output_arity == len(p.graph.outputs), "arity", f"{p.signature}")
            q = unpack(tp.pack(p))
            E.check(same_program(p, q), "same-program", f"{p.graph} became {q.graph}")

    explore(h, unit="compiled", expect=("refused", "same-program", "arity"), functions=FUNCS, bounds="traced functions with up to 4 operations, nested results, dead code, constants, captures", max_seconds=2400, max_paths=10**6)
