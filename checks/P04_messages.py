"""Mailboxes, communication contexts and both transports: which messages are sent in which scope, the order in which they
are delivered and in which receivers ask for them are solver-chosen; payloads are distinct tokens.  Message keys are also
decided symbolically over every job and suffix text."""

import itertools

import z3

from vp import boot, coop, web
from vp.sym import SymBool, explore

FUNCS = ("ThreadCommunicator.send/recv/_on_receive", "HttpCommunicator.send/send_sync/_do_send/recv/on_receive", "PUT /comm route", "CommContext.send/recv/spawn",
         "wait_all/wait_any/testall/testany", "BaseChannel")
ASSUMPTIONS = ["payloads are opaque to the transport (tokens; serde round trips are P08)", "job identifiers contain neither '.' nor ':' (they are UUIDs)"]


def units(tier):
    deep = tier == "thorough"
    return [
        ("mailbox-thread", lambda: mailbox("thread"), 1),
        ("mailbox-http", lambda: mailbox("http"), 2),
        ("duplicate", duplicate, 1),
        ("scopes-thread", lambda: scopes("thread", 4 if deep else 3, deep), 6),
        ("scopes-thread-serde", lambda: scopes("serde", 2, deep), 1),
        ("scopes-http", lambda: scopes("http", 3 if deep else 2, deep), 6),
        ("scopes-http-json", lambda: scopes("json", 2, deep), 3),
        ("same-stream-http", lambda: stream(deep), 3),
        ("timeout", timeout, 1),
        ("send-failure", send_failure, 1),
        ("channel", channel, 2),
        ("requests", requests, 1),
        ("key-text", keys, 4),
    ]


def make(kind, world):
    if kind in ("thread", "serde"):
        from mplang.backends.simp_worker.mem import ThreadCommunicator

        cs = [ThreadCommunicator(r, world, use_serde=kind == "serde") for r in range(world)]
        for c in cs:
            c.set_peers(cs)
        return cs
    from mplang.backends.simp_worker.http import CommConfig

    net, eps, comms, infras = web.cluster(world, config=lambda: CommConfig(use_binary=kind != "json", default_recv_timeout=None))
    return comms


def deliver(comm, frm, key, data):
    f = getattr(comm, "_on_receive", None) or comm.on_receive
    f(frm, key, data)


def mailbox(kind):
    """Senders 0 and 1 send to 2 under solver-chosen keys; 2 asks in a solver-chosen order."""

    def h(E):
        names = ["k", "k2", "a:0"]
        seen, msgs = set(), []
        for i in range(3):
            f, k = (0, "k") if i == 0 else (E.choose(f"frm{i}", 2), E.pick(f"key{i}", names[:i + 1]))
            E.assume((f, k) not in seen)
            seen.add((f, k))
            msgs.append((f, k, E.pick(f"pl{i}", [f"m{i}", None, b"x%d" % i] if i == 0 else [f"m{i}"])))
        order = E.pick("order", list(itertools.permutations(range(3))))
        s = coop.Sched(E, preempt=1 if kind == "thread" else 0, delays=1)
        got = {}
        with coop.pool_patch():
            cs = make(kind, 3)

            def sender(r):
                for f, k, p in msgs:
                    if f == r:
                        coop.point("send")
                        cs[r].send(2, k, p)

            def recver():
                for i in order:
                    f, k, _ = msgs[i]
                    coop.point("recv")
                    got[i] = cs[2].recv(f, k)

            ts = [s.spawn("s0", lambda: sender(0)), s.spawn("s1", lambda: sender(1)), s.spawn("r", recver)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("delivered", f"{d}; {msgs}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        for i, m in enumerate(msgs):
            E.eq("value", got[i], m[2], f"asked {m[:2]}: got {got[i]!r} want {m[2]!r}")

    explore(h, unit=f"mailbox-{kind}", expect=("value",), functions=FUNCS, max_paths=10**6, bounds="2 senders, 3 messages, 4 keys, every receive order, 2 delays")


def duplicate():
    """A second message under a pending key is an error for the sender and leaves the first in place."""

    def h(E):
        kind = E.pick("kind", ["thread", "serde", "http", "json"])
        consumed = E.choose("consumed", 2)
        same_from = E.choose("same_from", 2)
        same_key = E.choose("same_key", 2)
        sync = E.choose("sync", 2)
        second = E.pick("second", ["second", "first", None])
        s = coop.Sched(E, delays=0)
        out = {}
        with coop.pool_patch():
            cs = make(kind, 3)

            def body():
                cs[0].send_sync(2, "k:0", "first")
                if consumed:
                    out["r0"] = cs[2].recv(0, "k:0")
                c = cs[0 if same_from else 1]
                k = "k:0" if same_key else "k:1"
                try:
                    if sync:
                        c.send_sync(2, k, second)
                    else:
                        c.send(2, k, second).wait()
                    out["second"] = "ok"
                except Exception as e:  # noqa: BLE001
                    out["second"] = "error"
                if not consumed:
                    out["r0"] = cs[2].recv(0, "k:0")
                if out["second"] == "ok":
                    out["r1"] = cs[2].recv(0 if same_from else 1, k)

            t = s.spawn("p", body)
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("delivered", str(d))
        E.check(t.exc is None, "no-error", f"{t.exc!r}")
        clash = same_from and same_key and not consumed
        E.check(out["second"] == ("error" if clash else "ok"), "duplicate-reported" if clash else "accepted", f"{out}")
        E.check(out["r0"] == "first", "first-kept", f"{out}")
        if not clash:
            E.check(out["r1"] == second, "value", f"{out}")

    explore(h, unit="duplicate", expect=("duplicate-reported", "accepted", "first-kept"), functions=FUNCS, bounds="4 transports, same/other sender, same/other key, same/other/empty payload, before/after consumption")


PATHS = ["root", "child", "job2", "child2", "auto", "grand"]


def ctxs(comm, r):
    from mplang.backends.simp_worker.comm_context import CommContext

    root = CommContext(comm, "job1", r)
    job2 = CommContext(comm, "job2", r)
    # parties spawn content-named children in different orders
    if r % 2:
        c2 = root.spawn("h2.1")
        c1 = root.spawn("h1.0")
    else:
        c1 = root.spawn("h1.0")
        c2 = root.spawn("h2.1")
    auto = root.spawn()
    return {"root": root, "job2": job2, "child": c1, "child2": c2, "auto": auto, "grand": c1.spawn("h2.1")}


def scopes(kind, n, deep):
    unit = "scopes-" + {"thread": "thread", "serde": "thread-serde", "http": "http", "json": "http-json"}[kind]

    def h(E):
        msgs = []
        for i in range(n):
            src, dst = E.pick(f"edge{i}", [(0, 2), (1, 2), (2, 0)][: i + 1])
            msgs.append((src, dst, E.pick(f"scope{i}", (PATHS if kind == "thread" else PATHS[:3])[: None if i or n < 3 else 1]), f"m{i}"))
        streams = {}
        for m in msgs:
            streams.setdefault(m[:3], []).append(m[3])
        # the receiver polls its streams in a solver-chosen order
        rot = E.choose("rot", len(streams)) if deep else 0
        rev = E.choose("rev", 2) if len(streams) > 1 else 0
        extra = True
        s = coop.Sched(E, preempt=1 if deep and kind == "thread" else 0, delays=2 if deep else 1)
        got, more = {}, {}
        with coop.pool_patch():
            cs = make(kind, 3)
            cx = {r: ctxs(cs[r], r) for r in range(3)}
            keys = list(streams)
            keys = keys[rot:] + keys[:rot]
            if rev:
                keys.reverse()

            def party(r):
                for src, dst, sc, p in msgs:
                    if src == r:
                        coop.point("send")
                        cx[r][sc].send(dst, p)
                pend = {k: len(streams[k]) for k in keys if k[1] == r}
                while any(pend.values()):  # round-robin over the streams
                    for k in pend:
                        if pend[k]:
                            coop.point("recv")
                            got.setdefault(k, []).append(cx[r][k[2]].recv(k[0]))
                            pend[k] -= 1

            def late():
                k = keys[0]
                more["x"] = cx[k[1]][k[2]].recv(k[0])

            ts = [s.spawn(f"p{r}", lambda r=r: party(r)) for r in range(3)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("delivered", f"{d}; {msgs}")
            for t in ts:
                E.check(t.exc is None, "no-error", f"{t.exc!r}; {msgs}")
            for k, want in streams.items():
                E.eq("in-order", got.get(k, []), want, f"stream {k}: got {got.get(k)} want {want}; {msgs}")
            if extra:
                s2 = coop.Sched(E, delays=0, name="t")
                s2.spawn("late", late)
                try:
                    s2.run()
                except coop.Deadlock:
                    E.cover("exactly-once")
                else:
                    E.check("x" not in more, "exactly-once", f"an extra receive on {keys[0]} returned {more}")

    explore(h, unit=unit, expect=("in-order",) + ("exactly-once",), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds=f"3 parties, {n} messages over 3 edges and {6 if kind == 'thread' else 3} scopes (job, sibling, nested and automatic children spawned in party-dependent order), receive orders, delays")


def stream(deep):
    """Several messages of one stream in flight at once: delivery order is free, receive order is fixed."""

    def h(E):
        kind = E.pick("kind", ["http", "json"])
        n = 4 if deep else 3
        vals = [f"m{i}" for i in range(n)]
        sync_at = E.choose("sync_at", n + 1)
        s = coop.Sched(E, delays=5 if deep else 4)
        got = []
        with coop.pool_patch():
            cs = make(kind, 2)
            cx = [ctxs(c, r) for r, c in enumerate(cs)]

            def a():
                for i, v in enumerate(vals):
                    (cx[0]["root"].send_sync if i == sync_at else cx[0]["root"].send)(1, v)

            def b():
                for _ in vals:
                    got.append(cx[1]["root"].recv(0))

            ts = [s.spawn("a", a), s.spawn("b", b)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("delivered", str(d))
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        E.eq("in-order", got, vals, f"got {got}")

    explore(h, unit="same-stream-http", expect=("in-order",), functions=FUNCS, max_paths=10**6, bounds="3 (thorough 4) messages in flight, delivery orders within 4 (5) delays, optional synchronous send")


def timeout():
    """A receive that times out consumes nothing and the message is still delivered to the next receive."""

    def h(E):
        late = E.choose("late", 2)
        t_ms = E.pick("t", [0.5, 1.0, 2.5])
        s = coop.Sched(E, delays=2)
        out = []
        from mplang.backends.simp_worker import http

        clock = [100.0]
        real_mono, real_wait = http.time.monotonic, coop._cond_wait

        class T:
            def __getattr__(self, n):
                return getattr(real_time, n)

            def monotonic(self):
                return clock[0]

        real_time = http.time

        def wait(self, timeout=None):
            ok = real_wait(self, timeout)
            if not ok and timeout is not None:
                clock[0] += timeout
            return ok

        with coop.pool_patch():
            cs = make("http", 2)
            http.time = T()
            import threading

            threading.Condition.wait = wait
            try:

                def b():
                    try:
                        out.append(cs[1].recv(0, "k:0", timeout=t_ms))
                    except TimeoutError:
                        out.append("timeout")
                        gate.append(1)
                        out.append(cs[1].recv(0, "k:0", timeout=None))

                gate = []

                def a():
                    if late:
                        while not gate and clock[0] < 110 and not out:
                            s.point("x")
                            coop._sleep(0.1)
                            clock[0] += 0.6
                            with cs[1]._cond:
                                cs[1]._cond.notify_all()
                    cs[0].send_sync(1, "k:0", "m")

                ts = [s.spawn("b", b), s.spawn("a", a)]
                try:
                    s.run()
                except coop.Deadlock as d:
                    E.fail("delivered", str(d))
            finally:
                http.time = real_time
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        E.check(out in (["m"], ["timeout", "m"]), "timeout-keeps-message", f"{out}")
        if out[0] == "timeout":
            E.cover("timed-out")

    explore(h, unit="timeout", expect=("timeout-keeps-message",), functions=FUNCS, bounds="one message, on time or late, three time-outs, virtual clock")


def send_failure():
    """A send the peer refuses or that cannot be delivered is reported by the request handle and by a synchronous send."""

    def h(E):
        kind = E.pick("kind", ["http", "json"])
        how = E.pick("how", ["refused", "timeout", "status"])
        sync = E.choose("sync", 2)
        second = E.pick("second", ["second", "first", None])
        s = coop.Sched(E, delays=0)
        out = {}
        import httpx

        from mplang.backends.simp_worker.http import CommConfig

        with coop.pool_patch():
            net, eps, comms, infras = web.cluster(2, config=lambda: CommConfig(use_binary=kind != "json"))
            if how == "status":
                comms[1].on_receive(0, "k", "already there")
            else:
                net.hook = lambda m, u: httpx.ConnectError("x") if how == "refused" else httpx.ReadTimeout("x")

            def a():
                try:
                    if sync:
                        comms[0].send_sync(1, "k", "m", timeout=1.0)
                    else:
                        comms[0].send(1, "k", "m").wait()
                    out["r"] = "ok"
                except Exception as e:  # noqa: BLE001
                    out["r"] = type(e).__name__
                    out["t"] = isinstance(e, TimeoutError)

            t = s.spawn("a", a)
            s.run()
        E.check(t.exc is None, "no-error", f"{t.exc!r}")
        E.check(out["r"] != "ok", "failure-reported", f"{out}")
        if how == "timeout" and sync:
            E.check(out["t"], "timeout-type", f"{out}")
        E.check(comms[0].stats.send_errors == 1 and comms[0].stats.messages_sent == 0, "counted", "statistics")

    explore(h, unit="send-failure", expect=("failure-reported", "timeout-type"), functions=FUNCS, bounds="refused, timed-out and rejected deliveries, both encodings, both send forms")


def channel():
    """The secure-device channel carries raw bytes by tag, per peer and per prefix."""

    def h(E):
        from mplang.backends.channel import BaseChannel

        kind = E.pick("kind", ["thread", "serde", "http", "json"])
        msgs, seen = [], set()
        for i in range(3):
            m = (0, "spu", "t0") if i == 0 else E.pick(f"m{i}", [(0, "spu", "t1"), (0, "spu2", "t0"), (1, "spu", "t0")])
            E.assume(m not in seen)
            seen.add(m)
            msgs.append((*m, E.pick(f"how{i}", ["Send", "SendAsync"]) if i else "SendAsync", b"\x00\xff%d" % i if i else b""))
        order = E.choose("order", 2)
        s = coop.Sched(E, delays=1)
        got = {}
        with coop.pool_patch():
            cs = make(kind, 3)

            def snd(r):
                for src, pre, tag, how, d in msgs:
                    if src == r:
                        getattr(BaseChannel(cs[r], r, 2, pre), how)(tag, d)

            def rcv():
                for src, pre, tag, how, d in (msgs if not order else msgs[::-1]):
                    got[(src, pre, tag)] = BaseChannel(cs[2], 2, src, pre).Recv(tag)

            ts = [s.spawn("a", lambda: snd(0)), s.spawn("b", lambda: snd(1)), s.spawn("c", rcv)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("delivered", f"{d} {msgs}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}")
        for src, pre, tag, how, d in msgs:
            E.check(type(got[(src, pre, tag)]) is bytes and got[(src, pre, tag)] == d, "value", f"{got}")

    explore(h, unit="channel", expect=("value",), functions=FUNCS, max_paths=10**6, bounds="2 senders, 3 messages, 2 tags, 2 prefixes, 4 transports, 1 delay")


def requests():
    """Batch operations on request handles report each request's own outcome."""
    from concurrent.futures import Future

    from mplang.backends.simp_worker import base

    def h(E):
        n = 3
        st = [E.pick(f"st{i}", ["pending", "ok", "error"]) for i in range(n)]
        touch = E.choose("touch", n + 1)
        reqs = []
        for i in range(n):
            f = Future()
            if st[i] == "ok":
                f.set_result(f"v{i}")
            elif st[i] == "error":
                f.set_exception(KeyError(f"e{i}"))
            reqs.append(base.Request(f, f"op{i}") if i != 1 else base.SendRequest(f, 1, "k"))
        if touch < n:  # looking at one request first changes nothing
            E.check(reqs[touch].done == (st[touch] != "pending"), "done", "")
        op = E.pick("op", ["wait_all", "testall", "testany", "wait_any", "test", "wait"])
        try:
            if op == "wait_all":
                r = base.wait_all(reqs, timeout=0)
            elif op == "testall":
                r = base.testall(reqs)
            elif op == "testany":
                r = base.testany(reqs)
            elif op == "wait_any":
                r = base.wait_any(reqs, timeout=0)
            elif op == "test":
                r = reqs[0].test()
            else:
                r = reqs[0].wait(timeout=0)
        except TimeoutError:
            r = "timeout"
        except KeyError as e:
            r = ("err", e.args[0])
        first = next((i for i in range(n) if st[i] != "pending"), None)
        ferr = next((i for i in range(n) if st[i] == "error"), None)
        alldone = "pending" not in st
        vals = [f"v{i}" for i in range(n)]
        one = ("err", f"e{first}") if first is not None and st[first] == "error" else None
        want = {
            "wait_all": "timeout" if not alldone else (("err", f"e{ferr}") if ferr is not None else vals),
            "testall": (False, None) if not alldone else (("err", f"e{ferr}") if ferr is not None else (True, vals)),
            "testany": (None, None) if first is None else (one or (first, vals[first])),
            "wait_any": "timeout" if first is None else (one or (first, vals[first])),
            "test": {"pending": (False, None), "ok": (True, "v0"), "error": ("err", "e0")}[st[0]],
            "wait": {"pending": "timeout", "ok": "v0", "error": ("err", "e0")}[st[0]],
        }[op]
        E.check(r == want, op, f"{op} over {st}: got {r} want {want}")
        for i in range(n):
            E.check(reqs[i].status == {"pending": "pending", "ok": "completed", "error": "error"}[st[i]], "status", f"{i} {st} {reqs[i].status}")

    explore(h, unit="requests", expect=("wait_all", "testall", "testany", "wait_any", "test", "wait"), functions=FUNCS, bounds="3 requests, every combination of pending/completed/failed")


SUF = 4
J, S, G = "\ue001", "\ue002", "\ue003"


def keys():
    """Message keys as text: distinct (job, scope, position) never yield one key, for every job and suffix text."""
    from mplang.backends.simp_worker.comm_context import CommContext

    class Rec:
        rank, world_size = 0, 3

        def __init__(self):
            self.keys = []

        def send(self, to, key, data, *, is_raw_bytes=False):
            self.keys.append((to, key))

        def recv(self, frm, key, *, timeout=None):
            self.keys.append((frm, key))

    allpaths = [p for n in range(3) for p in itertools.product(["auto0", "auto1", "suf0", "suf1"], repeat=n)]

    def scope(E, tag, job, limit=None, npos=2):
        rec = Rec()
        c = CommContext(rec, job, 0)
        path = []
        for d, k in enumerate(allpaths[E.choose(f"path{tag}", len(allpaths) if limit is None else limit)]):
            suf = chr(ord(G) + d) + ".3"
            if k == "auto1":
                c.spawn()
            if k == "suf1":
                c.spawn(suf)
            c = c.spawn() if k.startswith("auto") else c.spawn(suf)
            path.append(k)
        path = tuple(path)
        n = E.choose(f"pos{tag}", npos)
        for _ in range(n):
            c.send(1, "x")
        c.send(1, "x")
        return path, n, rec.keys[-1][1]

    def h(E):
        pa, na, ka = scope(E, "A", J)
        pb, nb, kb = scope(E, "B", S, limit=allpaths.index(pa) + 1, npos=1)
        la, lb = E.choose("lenA", 4) + 1, E.pick("lenB", [1, 3])
        alpha, hexa = "abcdefghijklmnopqrstuvwxyz0123456789-", "0123456789abcdef"
        ok = []

        def chars(name, n, cls):
            out = [E.bv(f"{name}_{i}", 8) for i in range(n)]
            for i, c in enumerate(out):
                allowed = "abcdef" if cls is hexa and i == 0 else cls
                ok.append(c in [ord(x) for x in allowed] if E.concrete else z3.Or(*[c == ord(x) for x in allowed]))
            return out

        m = {"A": {J: chars("jobA", la, alpha)}, "B": {S: chars("jobB", lb, alpha)}}
        for t, p in (("A", pa), ("B", pb)):
            for d in range(len(p)):
                m[t][chr(ord(G) + d)] = chars(f"suf{t}{d}", SUF, hexa)

        def text(k, mm):
            return [y for ch in k for y in (mm[ch] if ch in mm else [ord(ch)])]

        ta, tb = text(ka, m["A"]), text(kb, m["B"])

        def eqs(x, y):
            if len(x) != len(y):
                return False
            return all(u == v for u, v in zip(x, y)) if E.concrete else SymBool(z3.And(*[u == v for u, v in zip(x, y)]) if any(z3.is_expr(u) or z3.is_expr(v) for u, v in zip(x, y)) else z3.BoolVal(x == y))

        if pa == pb and na == nb:
            same = [eqs(m["A"][J], m["B"][S])] + [eqs(m["A"][chr(ord(G) + i)], m["B"][chr(ord(G) + i)]) for i, k in enumerate(pa) if k.startswith("suf")]
        else:
            same = [False]
        if E.concrete:
            E.check(not all(ok) or all(same) or not eqs(ta, tb), "key-distinct", f"{bytes(ta)!r} and {bytes(tb)!r} name {pa}/{na} and {pb}/{nb}")
        else:
            from vp.sym import zbool

            E.check(SymBool(z3.Implies(z3.And(*ok), z3.Or(z3.And(*[zbool(x) for x in same]), z3.Not(zbool(eqs(ta, tb)))))), "key-distinct", f"{ka!r} vs {kb!r}")

    explore(h, unit="key-text", expect=("key-distinct",), functions=("CommContext.spawn", "CommContext.send"), max_paths=10**5,
            bounds="job text of 1..4 characters, suffix texts of 4 hex digits starting with a letter, scope depth 2, automatic and named children, 2 positions")
