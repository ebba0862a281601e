"""Network endpoints of the worker: solver-chosen requests (identifier texts built character by character, headers, bodies,
object handles, message histories) through the real routes, with file accesses outside the worker's root stopped and
recorded before they happen."""

import base64
import contextlib
import json
import os
import ssl

import numpy as np

from checks.P11_store import Guard, Escape, Scratch
from vp import web
from vp.sym import explore

FUNCS = ("backends.simp_worker.http.create_worker_app/register_routes and every endpoint", "CommRequest/ExecRequest/FetchRequest", "HttpCommunicator.on_receive/recv", "ObjectStore.get", "ExecutionTracer.save_trace", "backends.channel.BaseChannel")
ASSUMPTIONS = ("FastAPI's routing is used, its request parsing is replaced by pydantic validation of the declared models", "an extra space or line break inside base64 text is not an error")


def units(tier):
    deep = tier == "thorough"
    return [("job-id", lambda: job_id(deep), 8), ("fetch", lambda: fetch(deep), 6), ("exec-requests", exec_requests, 4), ("messages", lambda: messages(deep), 4), ("mailbox", lambda: mailbox(deep), 4), ("channel", channel, 1)]


SSL = ssl.create_default_context()


class Inline:
    """An executor that runs everything at once, in the calling thread (where the guard is)."""

    def __init__(self, *a, **k):
        pass

    def submit(self, fn, *a, **k):
        import concurrent.futures as cf

        f = cf.Future()
        try:
            f.set_result(fn(*a, **k))
        except Exception as e:  # noqa: BLE001
            f.set_exception(e)
        return f

    def shutdown(self, *a, **k):
        pass


@contextlib.contextmanager
def worker(s, tracing=False):
    import concurrent.futures as cf

    from mplang.backends.simp_worker import http

    old = {k: os.environ.get(k) for k in ("MPLANG_DATA_ROOT", "MPLANG_CLUSTER_ID")}
    os.environ["MPLANG_DATA_ROOT"] = s.parent
    os.environ["MPLANG_CLUSTER_ID"] = "r"
    pool, cf.ThreadPoolExecutor = cf.ThreadPoolExecutor, Inline
    made, tracers = [], []
    from mplang.runtime.interpreter import ExecutionTracer

    tinit = ExecutionTracer.__init__

    def tspy(self, *a, **k):
        tracers.append(self)
        tinit(self, *a, **k)

    init = http.HttpCommunicator.__init__

    def spy(self, *a, **k):
        made.append(self)
        init(self, *a, **k)

    http.HttpCommunicator.__init__ = spy
    ExecutionTracer.__init__ = tspy
    ctx, ssl.create_default_context = ssl.create_default_context, lambda *a, **k: SSL  # reading the certificates is slow
    try:
        app = http.create_worker_app(0, 2, ["http://a", "http://b"], enable_tracing=tracing)
        app.comm = made[0]
        app.tracers = tracers
        yield app
        made[0].client.close()
    finally:
        cf.ThreadPoolExecutor = pool
        ssl.create_default_context = ctx
        http.HttpCommunicator.__init__ = init
        ExecutionTracer.__init__ = tinit
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


def post(app, path, body):
    return web.serve(app, "POST", path, {"content-type": "application/json"}, body if isinstance(body, bytes) else json.dumps(body).encode())


def graph(n, add=0):
    from mplang.edsl.graph import Graph
    import mplang.edsl.typing as T

    g = Graph()
    v = [g.add_input("x", T.Tensor[T.i64, ()])] if add else []
    for i in range(n):
        (o,) = g.add_op("tensor.constant", [], output_types=[T.Tensor[T.i64, ()]], attrs={"value_b64": base64.b64encode(np.int64(i).tobytes()).decode()})
        v.append(o)
    g.add_output(v[-1])
    return g


def text(E, alphabet, n):
    return "".join(E.pick(f"c{i}", alphabet) for i in range(int(E.int("len", 1, n))))


# ---------------------------------------------------------------- job identifiers


def job_id(deep):
    """Whatever a job calls itself, running it leaves nothing outside the worker's root, and two jobs leave two traces."""
    from mplang.edsl import serde

    def files(s):
        return {os.path.relpath(os.path.join(d, f), s.root) for d, _, fs in os.walk(s.root) for f in fs}

    def h(E):
        jid = text(E, ["/", ".", "a", "/.."] + (["%"] if deep else []), 5)
        route = E.pick("route", ["/exec", "/exec/async"]) if deep or len(jid) < 3 else "/exec"
        g = serde.dumps_b64(graph(1))
        with Scratch() as s:
            for d in ("node0/trace/trace_a", "node0/trace/trace_.", "node0/trace/trace_"):  # left by anyone
                os.makedirs(os.path.join(s.root, d), exist_ok=True)
            before = s.outside()
            with worker(s, tracing=True) as app:
                def run(j):
                    for t in app.tracers:  # a job whose trace is long enough to be kept
                        for i in range(101):
                            t.log_custom_event(f"comm {i}", 0.0, 1.0)
                    try:
                        with Guard(os.path.join(s.root, "node0")):
                            return post(app, route, {"graph": g, "inputs": serde.dumps_b64([]), "job_id": j})
                    except Escape as e:
                        E.fail("contained", f"job {j!r}: {e}")

                st, r = run(jid)
                E.check(st == 200 or st >= 400, "answered", f"{st}")
                mine = files(s)
                if jid == "a" and st == 200:
                    E.check(mine, "traced", "no trace kept")
                if mine:
                    E.cover("traced")
                kept = {f: open(os.path.join(s.root, f), "rb").read() for f in mine}
                other = E.pick("other", ["a", "_", jid.replace("/", "_"), jid.replace("/", ""), jid.replace("..", ".")] if deep else ["a", jid.replace("/", "")])
                if st == 200 and other != jid and other:
                    run(other)
                    E.check(all(open(os.path.join(s.root, f), "rb").read() == kept[f] for f in mine), "own-trace", f"the trace of job {jid!r} was overwritten by job {other!r}")
                    E.cover("two-jobs")
            E.check(s.outside() == before, "contained", f"job {jid!r} changed something outside the worker's root")

    explore(h, unit="job-id", expect=("answered", "contained", "two-jobs", "traced", "own-trace"), functions=FUNCS, bounds="job identifiers of up to 5 pieces out of / . a /.. (thorough also %), jobs with 100 traced events, both routes (quick: short identifiers only)", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- object handles


def fetch(deep):
    from mplang.edsl import serde

    def h(E):
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        uri = E.pick("scheme", ["fs://", "mem://", "", "FS://", "file://"]) + text(E, ["/", ".", "a", "..", "r"], 4 if deep else 3)
        how = E.pick("how", ["fetch", "exec-input"])
        with Scratch() as s:
            ObjectStore(persistent=FileSystemBackend(os.path.join(s.root, "node0"))).put("kept", uri="fs://a")
            before = s.outside()
            with worker(s) as app, Guard(os.path.join(s.root, "node0")):
                try:
                    if how == "fetch":
                        st, r = post(app, "/fetch", {"uri": uri})
                        val = serde.loads_b64(r["result"]) if st == 200 else None
                    else:
                        g = graph(0, add=1)
                        st, r = post(app, "/exec", {"graph": serde.dumps_b64(g), "inputs": serde.dumps_b64([uri]), "job_id": "j"})
                        val = None
                        if st == 200:
                            (u,) = serde.loads_b64(r["result"])
                            st2, r2 = post(app, "/fetch", {"uri": u})
                            E.check(st2 == 200, "own-result", f"result handle {u} refused")
                            val = serde.loads_b64(r2["result"])
                except Escape as e:
                    E.fail("contained", f"{how} {uri!r}: {e}")
            E.check(s.outside() == before, "contained", f"{how} {uri!r} changed something outside the worker's root")
            if st == 200:
                E.cover("accepted")
                E.check(val == "kept", "names-it", f"{how} {uri!r} gave {val!r}")
            else:
                E.check(st >= 400, "refused", f"{st}")

    explore(h, unit="fetch", expect=("contained", "accepted", "names-it", "refused"), functions=FUNCS, bounds="handles of 5 schemes and up to 3 (thorough 4) pieces out of / . a .. r, fetched or used as a job's input", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- job requests


def exec_requests():
    from mplang.edsl import serde
    import gzip

    def h(E):
        import mplang.edsl.typing as T
        from mplang.edsl.graph import Graph

        g = serde.dumps_b64(graph(2, add=1))
        good = serde.dumps_b64(["mem://in"])
        cut = base64.b64encode(gzip.compress(serde.dumps(graph(2, add=1)).encode() if isinstance(serde.dumps([]), str) else serde.dumps(graph(2, add=1)))[:-9]).decode()
        gs = {"good": g, "cut": g[: len(g) // 2], "cut-gzip": cut, "not-base64": "!!", "empty": "", "list": serde.dumps_b64([1]), "none": serde.dumps_b64(None), "type": serde.dumps_b64(T.i64), "text": serde.dumps_b64("x"), "unknown": None, "number": 5, "missing": ...}
        gs["unknown"] = base64.b64encode(gzip.compress(json.dumps({"_kind": "os.system", "cmd": "true"}).encode())).decode()
        ins = {"good": good, "more": serde.dumps_b64(["mem://in", "mem://in"]), "fewer": serde.dumps_b64([]), "absent": serde.dumps_b64(["mem://nothing"]), "number": serde.dumps_b64([5]), "value": serde.dumps_b64([np.arange(3)]),
               "not-list": serde.dumps_b64({"a": 1}), "text": serde.dumps_b64("mem://in"), "cut": good[:7], "not-base64": "?", "null": None, "missing": ...}
        gk, ik = E.pick("graph", list(gs)), E.pick("inputs", list(ins))
        route = E.pick("route", ["/exec", "/exec/async"])
        jk = E.pick("job", ["j", None, 7, "", ["j"], ...]) if "good" in (gk, ik) else "j"
        body = {k: v for k, v in (("graph", gs[gk]), ("inputs", ins[ik]), ("job_id", jk)) if v is not ...}
        raw = json.dumps(body).encode()
        raw = E.pick("json", [raw, raw[:-1], b"[]", b"", b"null"]) if gk == ik == "good" else raw
        broken = raw != json.dumps(body).encode()
        ok = not broken and gk == "good" and ik == "good" and (jk in ("j", None, "", ...) if route == "/exec" else jk == "j")
        with Scratch() as s, worker(s) as app:
            from mplang.backends.simp_worker import request

            store_keys = lambda: sorted(web.serve(app, "GET", "/objects", {}, b"")[1]["objects"])  # noqa: E731
            st, r = post(app, "/exec", {"graph": serde.dumps_b64(graph(1)), "inputs": serde.dumps_b64([])})
            (u,) = serde.loads_b64(r["result"])
            real = {"good": [u], "more": [u, u], "text": u}
            if ik in real and not broken:
                body["inputs"] = serde.dumps_b64(real[ik])
                raw = json.dumps(body).encode()
            before = store_keys()
            ran = []
            from mplang.runtime.interpreter import Interpreter

            orig = Interpreter.evaluate_graph
            Interpreter.evaluate_graph = lambda self, gr, *a, **k: (ran.append(gr) if isinstance(gr, Graph) else None, orig(self, gr, *a, **k))[1]
            try:
                st, r = post(app, route, raw)
            finally:
                Interpreter.evaluate_graph = orig
            state = "done"
            if route == "/exec/async" and st == 200:
                st2, r2 = web.serve(app, "GET", f"/exec/{r['exec_id']}/status", {}, b"")
                E.check(st2 == 200 and r["exec_id"] == jk, "status-of-job", f"{st2} {r2}")
                state = {"SUCCESS": "done", "FAILED": "failed"}.get(r2["status"], r2["status"])
            if ok:
                E.check(st == 200 and state == "done", "accepted", f"well-formed request answered {st} {r} {state}")
                E.check(len(store_keys()) == len(before) + 1, "one-result", f"{before} -> {store_keys()}")
            else:
                E.check(st >= 400 or state == "failed", "error", f"graph {gk}, inputs {ik}, job {jk!r}, {raw[:20]!r}: answered {st} {r}")
                E.check(store_keys() == before, "nothing-stored", f"{before} -> {store_keys()}")
                if gk != "good" or broken or st in (400, 422):
                    E.check(not ran, "not-executed", f"graph {gk}, inputs {ik}, job {jk!r}: a program was executed")
            st, r = web.serve(app, "GET", "/exec/other/status", {}, b"")
            E.check(st == 404, "unknown-job", f"{st} {r}")

    explore(h, unit="exec-requests", expect=("accepted", "one-result", "error", "nothing-stored", "not-executed", "unknown-job", "status-of-job"), functions=FUNCS,
            bounds="12 kinds of program text x 12 kinds of inputs x 6 job identifiers x 2 routes, broken JSON", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- messages


def messages(deep):
    from mplang.edsl import serde

    def h(E):
        v = np.arange(3)
        kind = E.pick("transport", ["binary", "json"])
        who = deep or E.pick("vary", ["sender and key", "payload"]) == "sender and key"
        what = deep or not who
        some = lambda name, xs, on: E.pick(name, xs) if on else xs[0]  # noqa: E731
        rank = some("rank", ["1", "0", "-1", "x", "", "1.0", "1 ", "0x1", "one", None, "1,0", "\u0661"], who)
        key = some("key", ["k", "a:b", "a%2Fb", "a b", "."], who)
        if kind == "binary":
            bodies = {"value": serde.dumps_binary(v), "bytes": b"abc", "cut": serde.dumps_binary(v)[:-3], "empty": b"", "json": serde.dumps_b64(v).encode(), "unknown": serde.dumps_binary([1]).replace(b"_list", b"_evil")}
            bk = some("body", list(bodies), what)
            raw = some("raw", ["0", "1", None, "true", "2"], what)
            fmt = some("format", ["binary-container", None, "raw-bytes", "pickle", "BINARY-CONTAINER"], what)
            hd = {"Content-Type": E.pick("type", ["application/octet-stream", "Application/Octet-Stream; x=1"])}
            if rank is not None:
                hd["X-From-Rank"] = rank
            if raw is not None:
                hd["X-Is-Raw-Bytes"] = raw
            if fmt is not None:
                hd["X-Serde-Format"] = fmt
            body = bodies[bk]
            if raw == "1":
                want = body
            elif bk == "value" and fmt in ("binary-container", None):
                want = v
            else:
                want = ...
        else:
            b64 = base64.b64encode(b"\x00\xffabc").decode()
            bodies = {"value": serde.dumps_b64(v), "bytes": b64, "cut": serde.dumps_b64(v)[:-8], "garbage": b64[:3] + "!?" + b64[3:], "nobase64": "%%%%", "no-ascii": "\u00e9\u00e9\u00e9\u00e9", "empty": "", "number": 5, "none": None}
            bk = some("body", list(bodies), what)
            raw = some("raw", [False, True, None, "yes", 2, "x"], what)
            hd = {"Content-Type": E.pick("type", ["application/json", "text/plain"])}
            d = {"data": bodies[bk]}
            if rank is not None:
                d["from_rank"] = int(rank) if rank in ("1", "0", "-1") and E.bool("as-int") else rank
            if raw is not None:
                d["is_raw_bytes"] = raw
            body = json.dumps(d).encode()
            body = E.pick("json", [body, body[:-1], b"[1]", b"null", b""]) if bk == "bytes" and raw is True and rank == "1" else body
            want = ...
            if body == json.dumps(d).encode():
                if raw in (True, "yes"):
                    try:
                        want = base64.b64decode(bodies[bk], validate=True)
                    except (TypeError, ValueError):
                        want = ...
                elif raw in (False, None):
                    want = v if bk == "value" else ...
        try:
            frm = int(rank[:-2] if isinstance(rank, str) and rank.endswith(".0") else rank)
        except (ValueError, TypeError):
            frm = None
        with Scratch() as s, worker(s) as app:
            try:
                st, r = web.serve(app, "PUT", "/comm/" + key, hd, body)
            except UnicodeEncodeError:
                return
            box = {}
            for f in {frm, 0, 1, -1} - {None}:
                for k in {key, "k", "a/b"}:
                    try:
                        box[f, k] = app.comm.recv(f, k, timeout=0)
                    except TimeoutError:
                        pass
            w = f"{kind} from {rank!r} key {key!r} body {bk} raw {raw!r}: {st} {r}, {box!r}"
            if st == 200:
                E.cover("accepted")
                E.check(frm is not None, "sender-known", w)
                E.check(want is not ..., "decodable", w)
                E.check(list(box) == [(frm, key)], "reaches-its-key", w)
                got = box[frm, key]
                E.check(type(got) is type(want) and np.array_equal(got, want) if isinstance(want, np.ndarray) else got == want, "payload", w)
            else:
                E.check(st >= 400 and not box, "refused-leaves-nothing", w)
                E.check(not (frm in (0, 1) and rank in ("0", "1") and want is not ...), "valid-accepted", w)

    explore(h, unit="messages", expect=("accepted", "sender-known", "decodable", "reaches-its-key", "payload", "refused-leaves-nothing"), functions=FUNCS,
            bounds="both transports, 12 sender texts, 5 keys, 9 bodies, 5-6 encodings declared, both content types (quick: sender and key, or payload and encoding)", max_seconds=2400, max_paths=10**6)


# ---------------------------------------------------------------- histories


def mailbox(deep):
    """Messages of two senders and several keys, accepted and received in a solver-chosen order."""

    def h(E):
        keys = ["j1:k", "j2:k"] + (["j1:k2"] if deep else [])
        with Scratch() as s, worker(s) as app:
            box = {}
            for i in range(5 if deep else 4):
                f, k = E.pick(f"f{i}", [0, 1]), E.pick(f"k{i}", keys)
                if E.pick(f"op{i}", ["put", "recv"]) == "put":
                    body = bytes([i + 1])
                    st, r = web.serve(app, "PUT", "/comm/" + k, {"Content-Type": "application/octet-stream", "X-From-Rank": str(f), "X-Is-Raw-Bytes": "1"}, body)
                    if (f, k) in box:
                        E.check(st >= 400, "second-refused", f"a second message {f}/{k} was accepted while the first was waiting")
                    else:
                        E.check(st == 200, "accepted", f"{st} {r}")
                        box[f, k] = body
                else:
                    try:
                        got = app.comm.recv(f, k, timeout=0)
                    except TimeoutError:
                        E.check((f, k) not in box, "delivered", f"{f}/{k} accepted and not delivered")
                        E.cover("nothing-waiting")
                    else:
                        E.check(box.pop((f, k), None) == got, "own-message", f"{f}/{k} received {got!r}")
            for (f, k), b in box.items():
                E.check(app.comm.recv(f, k, timeout=0) == b, "own-message", f"{f}/{k} was changed")

    explore(h, unit="mailbox", expect=("second-refused", "accepted", "nothing-waiting", "own-message"), functions=FUNCS, bounds="4 steps over two senders and two (thorough three) keys of two jobs", max_seconds=2400, max_paths=10**6)


def channel():
    def h(E):
        from mplang.backends.channel import BaseChannel

        sent = {}

        class Comm:
            def send(self, to, key, data, *, is_raw_bytes=False):
                E.check(is_raw_bytes and (to, key) not in sent, "raw", f"{to} {key}")
                sent[to, key] = data

            def send_sync(self, to, key, data, **k):
                self.send(to, key, data, **k)

            def recv(self, frm, key, **k):
                return wire.pop((frm, key))

        tags = ["send_0", "0", "spu:0", ":", "__test__"]
        a, b = E.pick("a", tags), E.pick("b", tags)
        out = BaseChannel(Comm(), 0, 1)
        how = E.pick("how", ["Send", "SendAsync", "SendAsyncThrottled"])
        try:
            getattr(out, how)(a, b"first")
            if b != a:
                getattr(out, how)(b, b"second")
        except KeyError as e:
            E.fail("distinct", str(e))
        E.check(len(sent) == (1 if a == b else 2) and all(t == 1 for t, _ in sent), "distinct", f"tags {a!r} and {b!r} were sent as {sorted(sent)}")
        wire = {(0, k): d for (_, k), d in sent.items()}
        wire[0, "k"] = b"other traffic"
        inn = BaseChannel(Comm(), 1, 0)
        E.check(inn.Recv(a) == b"first", "delivered", a)
        if a != b:
            E.check(inn.Recv(b) == b"second", "delivered", b)
        E.check(list(wire.values()) == [b"other traffic"], "only-own", f"{wire}")
        bad = E.pick("bad", ["text", 5, None, bytearray(b"x"), np.zeros(1)])
        sent.clear()
        getattr(out, how)(a, b"x")
        wire = {(0, k): bad for _, k in sent}
        try:
            inn.Recv(a)
        except TypeError:
            E.cover("mistyped-refused")
        else:
            E.fail("mistyped-refused", f"{bad!r} was handed to SPU")

    explore(h, unit="channel", expect=("distinct", "delivered", "only-own", "mistyped-refused"), functions=FUNCS, bounds="pairs of 5 tags, three ways of sending, five kinds of wrong payload", max_seconds=2400, max_paths=10**6)
