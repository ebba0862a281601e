"""Object store histories: solver-chosen operations over related keys with symbolic values, run against the real stores,
compared with a plain dictionary; and solver-chosen key texts, run behind a guard that stops (and records) every file
access outside a scratch directory before it happens."""

import os
import shutil
import sys
import tempfile
import threading

from vp import boot
from vp.sym import deep_eq, explore

FUNCS = ("runtime.object_store.ObjectStore/MemoryBackend/FileSystemBackend", "backends.store_impl.save_impl/load_impl")
ASSUMPTIONS = "the operating system's file operations and pickle are trusted; keys naming the same normalized path are the same handle; absolute paths of upload/download are used as given (documented)"


def units(tier):
    deep = tier == "thorough"
    return [("histories", lambda: histories(deep), 8), ("key-text", lambda: key_text(deep), 8), ("segments", lambda: segments(deep), 4), ("data-files", data_files, 4), ("dialect", dialect, 2), ("neighbours", neighbours, 2)]


# ---------------------------------------------------------------- guard

_guard = threading.local()
_PATH_EVENTS = {"open": (0,), "os.mkdir": (0,), "os.remove": (0,), "os.rmdir": (0,), "os.rename": (0, 1), "os.link": (0, 1), "os.symlink": (0, 1), "os.truncate": (0,), "os.listdir": (0,), "os.scandir": (0,),
                "shutil.move": (0, 1), "shutil.rmtree": (0,), "shutil.copyfile": (0, 1), "shutil.copymode": (0, 1), "shutil.copytree": (0, 1), "shutil.copystat": (0, 1), "os.chmod": (0,), "os.utime": (0,)}


class Escape(BaseException):
    pass


def _audit(event, args):
    inside = getattr(_guard, "dirs", None)
    if inside is None or event not in _PATH_EVENTS:
        return
    for i in _PATH_EVENTS[event]:
        p = args[i]
        if isinstance(p, int) or p is None:
            continue
        p = os.fsdecode(p)
        full = os.path.normpath(os.path.join(_guard.cwd, p))
        if event == "os.mkdir" and os.path.isdir(full):
            continue  # fails or does nothing
        if not any(full == d or full.startswith(d + "/") for d in inside) and not (event == "open" and full.startswith((sys.prefix, sys.base_prefix, boot.REPO, boot.ROOT)) and isinstance(args[2], int) and not args[2] & 3):
            _guard.dirs = None  # the report itself may open files
            raise Escape(f"{event} {p}")


_installed = False


class Guard:
    """File accesses outside ``dirs`` (reads of library code apart) raise Escape before they happen."""

    def __init__(self, *dirs):
        global _installed
        if not _installed:
            sys.addaudithook(_audit)
            _installed = True
        self.dirs = [os.path.abspath(d) for d in dirs]

    def __enter__(self):
        _guard.cwd = os.getcwd()
        _guard.dirs = self.dirs
        return self

    def __exit__(self, *a):
        _guard.dirs = None


class Scratch:
    """A root directory seven levels deep inside a scratch directory, with neighbours to run into."""

    def __enter__(self):
        self.top = tempfile.mkdtemp(dir=boot.SCRATCH)
        self.parent = os.path.join(self.top, "1/2/3/4/5/6")
        self.root = os.path.join(self.parent, "r")
        os.makedirs(self.root)
        for n in ("ra", "r.", "a"):
            os.makedirs(os.path.join(self.parent, n))
        for n in ("ra/a", "a/a", "rr", "r.a"):
            with open(os.path.join(self.parent, n), "wb") as f:
                f.write(b"\x80\x04K\x07.")  # pickled 7: readable if the store ever gets here
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)

    def outside(self):
        """What lies around the root."""
        out = {}
        for d, _, fs in os.walk(self.top):
            if d == self.root or d.startswith(self.root + "/"):
                continue
            out[d] = None
            for f in fs:
                with open(os.path.join(d, f), "rb") as h:
                    out[os.path.join(d, f)] = h.read()
        return out


# ---------------------------------------------------------------- keys whose files another key's operations touch


def neighbours():
    """Every file an operation on one key touches is, if it is addressable as another key, left alone when that key holds an object."""

    def h(E):
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        key = E.pick("key", ["a", "a.b", "d/a"])
        ops = E.pick("ops", [("put",), ("put", "put"), ("put", "get"), ("put", "delete"), ("put", "list")])

        def run(prior):
            with Scratch() as s:
                st = ObjectStore(persistent=FileSystemBackend(s.root))
                seen = set()
                if prior is not None:
                    try:
                        st.put(["prior"], uri="fs://" + prior)
                    except OSError:
                        return seen, True
                _touched.seen = set()
                try:
                    for op in ops:
                        {"put": lambda: st.put([1], uri="fs://" + key), "get": lambda: st.get("fs://" + key), "delete": lambda: st.delete("fs://" + key), "list": st.list_keys}[op]()
                except OSError:
                    pass  # a key that is a prefix of another one: refused
                finally:
                    seen, _touched.seen = _touched.seen, None
                names = {os.path.relpath(p, s.root) for p in seen if p.startswith(s.root + "/")}
                return names, prior is None or (st.exists("fs://" + prior) and st.get("fs://" + prior) == ["prior"])

        _hook()
        names = sorted(n for n in run(None)[0] if n != key)
        E.cover("touched-own")
        for n in names:
            E.check(run(n)[1], "left-alone", f"{ops} of {key!r} destroys the object stored as {n!r}")

    explore(h, unit="neighbours", expect=("touched-own",), functions=FUNCS, bounds="1-2 operations on three keys; every other path they touch is tried as a key", max_seconds=2400, max_paths=10**6)


_touched = threading.local()


def _record(event, args):
    seen = getattr(_touched, "seen", None)
    if seen is None or event not in _PATH_EVENTS:
        return
    for i in _PATH_EVENTS[event]:
        if not isinstance(args[i], int) and args[i] is not None:
            seen.add(os.path.normpath(os.path.abspath(os.fsdecode(args[i]))))


def _hook(done=[]):
    if not done:
        done.append(1)
        sys.addaudithook(_record)


# ---------------------------------------------------------------- histories


KEYS = ("a", "a/b", "b", "a/b/c")


def histories(deep):
    def h(E):
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        with Scratch() as s:
            st = ObjectStore(persistent=FileSystemBackend(s.root) if E.choose("persistent", 2) == 0 else FileSystemBackend(os.path.join(s.root, "new")))
            model, handles = {}, {}
            n = 4 if deep else 3
            for i in range(n):
                # the last step always observes
                op = E.pick(f"op{i}", ["put", "put-auto", "put-bad", "delete"]) if i < n - 1 else "look"
                k = E.pick(f"k{i}", KEYS[: 4 if deep else 3])
                where = E.pick(f"w{i}", ["mem", "fs", "bare"]) if op in ("put", "put-bad") else E.pick(f"w{i}", ["mem", "fs"])
                uri = {"mem": "mem://", "fs": "fs://", "bare": ""}[where] + k
                full = uri if "://" in uri else "fs://" + uri
                if op == "put":
                    v = E.int(f"v{i}", 0, 9)
                    try:
                        r = st.put([v, i], uri=uri)
                    except OSError:
                        # a stored object cannot also be a prefix of other keys on disk: refused, nothing changes
                        E.check(where != "mem" and any(m.startswith("fs://") and (m.startswith(full + "/") or full.startswith(m + "/")) for m in model), "put-accepted", f"put {uri} refused; stored: {list(model)}")
                        continue
                    E.check(r == full, "handle", f"put {uri!r} returned {r!r}")
                    model[full] = [v, i]
                elif op == "put-auto":
                    v = E.int(f"v{i}", 0, 9)
                    r = st.put([v, i])
                    E.check(r not in model and r not in handles and r.startswith("mem://"), "handles-distinct", f"{r!r} given twice")
                    model[r] = [v, i]
                elif op == "put-bad":
                    bad = [lambda: 0] if where != "mem" else None
                    try:
                        st.put(bad, uri=uri) if bad else None
                    except Exception:  # noqa: BLE001
                        E.cover("put-refused")
                elif op == "delete":
                    st.delete(uri)
                    model.pop(full, None)
                for u in {*("mem://" + x for x in KEYS), *("fs://" + x for x in KEYS), *model}:
                    if u in model:
                        E.check(st.exists(u), "exists", f"{u} stored but reported missing after step {i}")
                        E.check(deep_eq(st.get(u), model[u]), "last-value", f"{u} does not return the value last stored (step {i})")
                    else:
                        E.check(not st.exists(u), "absent", f"{u} not stored but reported present; stored: {list(model)}")
                        try:
                            got = st.get(u)
                        except KeyError:
                            E.cover("missing")
                        else:
                            E.fail("absent", f"{u} not stored but returns {got!r}")
                E.check(sorted(st.list_keys()) == sorted(model), "listing", f"{sorted(st.list_keys())} listed, {sorted(model)} stored")

    explore(h, unit="histories", expect=("last-value", "exists", "absent", "listing", "handle", "handles-distinct", "put-refused", "missing"), functions=FUNCS,
            bounds="3 (thorough 4) operations over 3 (4) prefix-related keys, two stores, symbolic values, unserializable values", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- key texts


def attempt(E, s, key, op, w):
    from mplang.runtime.object_store import FileSystemBackend, ObjectStore

    st = ObjectStore(persistent=FileSystemBackend(s.root))
    st.put("kept", uri="fs://a")
    before = s.outside()
    ok = True
    with Guard(s.root):
        try:
            if op == "put":
                st.put(1, uri="fs://" + key)
            elif op == "get":
                got = st.get("fs://" + key)
            elif op == "delete":
                st.delete("fs://" + key)
            elif op == "exists":
                got = st.exists("fs://" + key)
            else:
                src = os.path.join(s.root, "src")
                with open(src, "w") as f:
                    f.write("x")
                st.upload(src, key)
        except Escape as e:
            E.fail("contained", f"{w}: {op} of key {key!r} reaches outside the root: {e}")
        except Exception:  # noqa: BLE001 - refusing is fine
            ok = False
            E.cover("refused")
    E.check(s.outside() == before, "contained", f"{w}: {op} of key {key!r} changed files outside the root")
    inside = os.path.normpath(os.path.join(s.root, key.lstrip("/")))
    leaves = not (inside == s.root or inside.startswith(s.root + "/"))
    if op == "get" and ok:
        E.check(not leaves, "contained", f"{w}: get of key {key!r} returned {got!r} from outside the root")
        E.check(got == "kept", "get-inside", f"{w}: key {key!r} returned {got!r}")
    if op == "exists" and ok:
        E.check(not (leaves and got), "contained", f"{w}: exists of key {key!r} sees outside the root")
    if op == "put":
        plain = key.strip("/") and all(c not in ("", ".", "..") for c in key.split("/"))
        if plain and not key.startswith("a/"):
            E.check(ok and st.get("fs://" + key) == 1, "plain-accepted", f"{w}: ordinary key {key!r} refused")
        if ok and not leaves:
            E.check(st.get("fs://" + key) == 1, "put-get", f"{w}: key {key!r} does not return what was put")


OPS = ("put", "get", "delete", "exists", "upload")


def key_text(deep):
    """Every text over the characters that matter to a path (root's name is r, neighbours are ra, rr, r. and a)."""

    def h(E):
        n = 1 + E.choose("len", 7 if deep else 6)
        key = "".join(E.pick(f"c{i}", "/.ra") for i in range(n))
        op = E.pick("op", OPS if deep or n <= 5 else ("get",))
        if op == "upload" and key.startswith("/"):
            return  # used as given
        with Scratch() as s:
            attempt(E, s, key, op, "text")

    explore(h, unit="key-text", expect=("contained", "plain-accepted", "refused"), functions=FUNCS, bounds="all key texts of up to 6 (thorough 7) characters over / . r a; put, get, delete, exists, upload", max_seconds=2400, max_paths=10**6)


def segments(deep):
    """Longer keys made of segments."""

    def h(E):
        n = 1 + E.choose("len", 5 if deep else 4)
        segs = [E.pick(f"s{i}", ["..", ".", "", "ra", "r", "x", "..."][: 7 if deep else 6]) for i in range(n)]
        lead = E.pick("lead", ["", "/", "//", "./"])
        key = lead + "/".join(segs)
        op = E.pick("op", ("put", "get") if not deep else OPS)
        if op == "upload" and key.startswith("/"):
            return
        with Scratch() as s:
            attempt(E, s, key, op, "segments")

    explore(h, unit="segments", expect=("contained", "refused"), functions=FUNCS, bounds="keys of up to 4 (thorough 5) segments out of 6 (7), four prefixes", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- files of tables


def data_files():
    """upload never destroys different data under a name, consumes its source, and download sees the uploaded content."""

    def h(E):
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        with Scratch() as s:
            st = ObjectStore(persistent=FileSystemBackend(s.root))
            tmp = os.path.join(s.top, "tmp")
            os.makedirs(tmp)
            key = E.pick("key", ["t", "d/t"])
            model = None
            for i in range(2):
                content = E.pick(f"c{i}", ["x", "y", "xy", ""])
                src = os.path.join(tmp, f"s{i}")
                with open(src, "w") as f:
                    f.write(content)
                try:
                    st.upload(src, key)
                except FileExistsError:
                    E.check(model is not None and model != content, "upload-accepted", f"upload of {content!r} over {model!r} refused")
                    E.check(os.path.exists(src), "source-kept", "a refused upload lost its source")
                    continue
                E.check(model is None or model == content, "no-overwrite", f"upload replaced {model!r} with {content!r}")
                E.check(not os.path.exists(src), "source-consumed", "source left behind")
                model = content
            dest = os.path.join(tmp, "dest")
            pre = E.pick("dest", [None, "x", "zz", "link", "dir"])
            if pre == "link":
                os.symlink(os.path.join(tmp, "nowhere"), dest)
            elif pre == "dir":
                os.makedirs(dest)
            elif pre is not None:
                with open(dest, "w") as f:
                    f.write(pre)
            try:
                st.download(key, dest)
            except FileExistsError:
                E.check(pre == "dir", "download-accepted", "download refused")
                return
            with open(dest) as f:
                got = f.read()
            E.check(got == model, "download-content", f"downloaded {got!r}, stored {model!r}")
            with open(os.path.join(s.root, key)) as f:
                E.check(f.read() == model, "download-keeps", "download changed the stored file")

    explore(h, unit="data-files", expect=("no-overwrite", "source-consumed", "download-content", "upload-accepted", "download-accepted"), functions=FUNCS, bounds="two uploads of four contents, download over five kinds of destination", max_seconds=2400, max_paths=10**6)


def dialect():
    """store.save / store.load through the interpreter of one party."""

    def h(E):
        import mplang.edsl.typing as T
        from mplang.edsl.graph import Graph
        from mplang.runtime.interpreter import Interpreter
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        with Scratch() as s:
            it = Interpreter(name="p", root_dir=os.path.join(s.top, "it"), store=ObjectStore(persistent=FileSystemBackend(s.root)))
            i64 = T.TensorType(T.i64, ())
            model = {}
            for i in range(3):
                u = E.pick(f"u{i}", ["k", "fs://k", "n/k", "mem://k"])
                full = u if "://" in u else "fs://" + u
                g = Graph()
                if E.choose(f"save{i}", 2):
                    x = g.add_input("x", i64)
                    (o,) = g.add_op("store.save", [x], output_types=[i64], attrs={"uri_base": u})
                    g.add_output(o)
                    v = E.int(f"v{i}", 0, 9)
                    (r,) = it.evaluate_graph(g, [v])
                    model[full] = v
                    E.check(deep_eq(r, v), "save-passes", "save does not pass its value on")
                else:
                    (o,) = g.add_op("store.load", [], output_types=[i64], attrs={"uri_base": u})
                    g.add_output(o)
                    try:
                        (r,) = it.evaluate_graph(g, [])
                    except KeyError:
                        E.check(full not in model, "load-found", f"{u} stored but not found")
                        continue
                    E.check(full in model and deep_eq(r, model.get(full)), "load-last", f"{u} loads {r!r}")

    explore(h, unit="dialect", expect=("save-passes", "load-last", "load-found"), functions=FUNCS, bounds="three saves/loads over four addresses, symbolic values", max_seconds=2400, max_paths=10**6)
