"""Jobs from several submitters on the same real workers: the drivers, HTTP routes, per-request interpreters, mailboxes and object
stores are the code under test; schedules, failing parties, failing operations and job pairs are solver-chosen; the values the jobs
compute are free terms, so any mix-up between jobs or parties shows as a term of another job."""

from vp import boot, coop, mesh, web
from vp.sym import explore

FUNCS = ("SimpHttpDriver.submit/collect/fetch", "SimpMemDriver.submit/collect/fetch", "_generic_simp_dispatch", "register_routes exec/exec_async/status/fetch/comm",
         "create_request_interpreter", "CommContext", "HttpCommunicator", "ThreadCommunicator", "LocalMesh", "Interpreter.evaluate_graph/bind_primitive")
ASSUMPTIONS = ["network replaced by in-process calls to the same routes", "job identifiers of concurrent jobs are distinct when the submitter chooses them",
               "at most two jobs run on a worker at once (its execution pool has two threads)", "computed values travel as opaque tokens (serialisation is P08)"]


def units(tier):
    deep = tier == "thorough"
    return [
        ("http-jobs", lambda: http_jobs(deep), 4),
        ("http-eager", lambda: http_eager(deep), 4),
        ("http-failure", lambda: failure("http"), 2),
        ("mem-failure", lambda: failure("mem"), 2),
        ("mem-jobs", lambda: mem_jobs(deep), 2),
        ("attribution", lambda: attribution(), 2),
        ("exec-async", lambda: exec_async(), 2),
    ]


class Box:
    """A computed value on its way through the workers: an index into the run's table of terms."""

    table = []

    def __init__(self, term):
        self.term = term
        self.i = len(Box.table)
        Box.table.append(term)


_registered = []


def setup():
    Box.table = []
    if _registered:
        return
    from mplang.edsl import serde

    Box._serde_kind = "vp.Box"
    Box.to_json = lambda self: {"i": self.i}
    Box.from_json = classmethod(lambda cls, d: Box(cls.table[d["i"]]))
    serde.register_class(Box)
    _registered.append(1)


def unbox(x):
    return x.term if isinstance(x, Box) else x


def handlers(E, bad=None):
    def src(interp, op, *a):
        return Box(E.uf(f"src_{op.attrs['tag']}_{mesh.rank_of(interp)}"))

    def fn(interp, op, *a):
        tag = op.attrs["tag"]
        if tag == "boom" and mesh.rank_of(interp) == bad:
            raise KeyError("boom!")
        return Box(E.uf(f"fn_{tag}_{len(a)}", *[unbox(x) for x in a]))

    return {"vp.src": src, "vp.fn": fn}


# ---- the jobs -------------------------------------------------------------

FULL = (0, 1)


def job(kind, tag):
    """(program over simp primitives, what each party's output must be as a function of E)"""
    from mplang.dialects import simp

    s = lambda E, r: E.uf(f"src_{tag}_{r}")  # noqa: E731
    f = lambda E, *a: E.uf(f"fn_{tag}f_{len(a)}", *a)  # noqa: E731

    def start():
        return simp.pcall_static(FULL, lambda: mesh.src(tag))

    if kind == "swap":
        def prog():
            x = start()
            y = simp.shuffle_static(x, {0: 1, 1: 0})
            return simp.pcall_static(FULL, lambda a, b: mesh.fn(tag + "f", a, b), x, y)

        return prog, lambda E, r: f(E, s(E, r), s(E, 1 - r))
    if kind == "pingpong":
        def prog():
            x = start()
            y = simp.shuffle_static(x, {1: 0})
            z = simp.pcall_static((1,), lambda a: mesh.fn(tag + "f", a), y)
            return simp.shuffle_static(z, {0: 1})

        return prog, lambda E, r: f(E, s(E, 0)) if r == 0 else None
    if kind == "local":
        def prog():
            return simp.pcall_static(FULL, lambda a: mesh.fn(tag + "f", a), start())

        return prog, lambda E, r: f(E, s(E, r))
    if kind == "oneway":
        def prog():
            return simp.shuffle_static(start(), {1: 0})

        return prog, lambda E, r: s(E, 0) if r == 1 else None
    raise AssertionError(kind)


def compare(E, got, want, who):
    for r in FULL:
        w = want(E, r)
        if w is None:
            E.check(got[r] is None, "hole", f"{who}: party {r} reports {got[r]}")
        else:
            E.check(got[r] is not None, "value", f"{who}: party {r} reports nothing")
            E.eq("value", unbox(got[r]), w, f"{who}: party {r}: got {unbox(got[r])} want {w}")


def http_driver(net, eps):
    import httpx

    from mplang.backends.simp_driver import http as dh

    real = dh.httpx.Client
    dh.httpx.Client = lambda *a, **k: net.client()
    try:
        return dh.SimpHttpDriver(eps)
    finally:
        dh.httpx.Client = real


def http_interp(net, eps):
    from mplang.backends.simp_driver import http as dh

    real = dh.httpx.Client
    dh.httpx.Client = lambda *a, **k: net.client()
    try:
        return dh.make_driver(eps)
    finally:
        dh.httpx.Client = real


def config(timeout=None):
    from mplang.backends.simp_worker.http import CommConfig

    return CommConfig(default_recv_timeout=timeout)


PAIRS = [("swap", "swap"), ("pingpong", "swap"), ("oneway", "pingpong"), ("local", "swap")]


def http_jobs(deep):
    """Whole graphs submitted with job ids by two submitters to the same two workers."""

    def h(E):
        setup()
        kinds = E.pick("kinds", PAIRS)
        ids = E.pick("ids", [("a", "b"), ("6f1c2e", "6f1c2e1"), ("train-model-2026-11-19T10:00-worker-group-one-a", "train-model-2026-11-19T10:00-worker-group-one-b"), ("x-train-job", "y-train-job")])
        order = E.pick("order", [(0, 1), (1, 0)])
        s = coop.Sched(E, delays=2 if deep else 1, name="s", max_steps=20000)
        with coop.pool_patch():
            net, eps, comms, infras = web.cluster(2, config=config, handlers=handlers(E))
            out = {}

            def submitter(j):
                prog, want = job(kinds[j], f"j{j}")
                g, _ = graphs[j]
                d = drivers[j]
                futs = [d.submit(r, g, [], job_id=ids[j]) for r in (FULL if j == 0 else order)]
                res = d.collect(futs)
                if j == 1 and order == (1, 0):
                    res = res[::-1]
                got = []
                for r in FULL:
                    uri = res[r][0]
                    got.append(None if uri is None else d.fetch(r, uri).result())
                out[j] = (got, want)

            graphs = [mesh.trace(job(kinds[j], f"j{j}")[0]) for j in (0, 1)]
            drivers = [http_driver(net, eps) for _ in (0, 1)]
            ts = [s.spawn(f"submitter{j}", lambda j=j: submitter(j)) for j in (0, 1)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{d}; {kinds}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}; {kinds} {ids}")
        for j in (0, 1):
            compare(E, *out[j], f"job {j} of {kinds}")
        for c in comms:
            E.check(not c._mailbox, "nothing-left", f"undelivered {c._mailbox}")

    explore(h, unit="http-jobs", expect=("value", "hole", "nothing-left"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 workers, 2 concurrent jobs from 4 kind pairs, prefix-related ids, 1 (thorough 2) scheduling delays, both submission orders")


def run_eager(interp, prog):
    """One program executed operation by operation through a driver interpreter."""
    g, _ = mesh.trace(prog)
    return interp.evaluate_graph(g, [])[0]


def http_eager(deep):
    """Two driver processes run their programs operation by operation on the same workers."""

    def h(E):
        setup()
        kinds = E.pick("kinds", PAIRS)
        s = coop.Sched(E, delays=2 if deep else 1, name="s", max_steps=30000)
        with coop.pool_patch():
            net, eps, comms, infras = web.cluster(2, config=config, handlers=handlers(E))
            interps = [http_interp(net, eps) for _ in (0, 1)]
            out = {}

            def submitter(j):
                prog, want = job(kinds[j], f"j{j}")
                dv = run_eager(interps[j], prog)
                d = interps[j].get_dialect_state("simp")
                out[j] = ([None if dv[r] is None else d.fetch(r, dv[r]).result() for r in FULL], want)

            ts = [s.spawn(f"driver{j}", lambda j=j: submitter(j)) for j in (0, 1)]
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{d}; {kinds}")
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}; {kinds}")
        for j in (0, 1):
            compare(E, *out[j], f"driver {j} of {kinds}")

    explore(h, unit="http-eager", expect=("value", "hole"), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 workers, 2 concurrent driver interpreters, 4 program pairs, 1 (thorough 2) scheduling delays")


class virtual_time:
    """Time-outs of blocked receivers advance a virtual clock instead of the wall clock."""

    def __enter__(self):
        import threading

        from mplang.backends.simp_worker import http

        clock = [100.0]
        self.http, self.real = http, http.time
        real, real_wait = http.time, coop._cond_wait

        class T:
            def __getattr__(self, n):
                return getattr(real, n)

            def monotonic(self):
                return clock[0]

        def wait(self, timeout=None):
            ok = real_wait(self, timeout)
            if not ok and timeout is not None:
                clock[0] += timeout
            return ok

        http.time = T()
        threading.Condition.wait = wait

    def __exit__(self, *a):
        self.http.time = self.real


def failure(kind):
    """A job that fails at one party is reported as failed, and the next job is unaffected by whatever it left behind."""

    def h(E):
        from mplang.dialects import simp

        setup()
        bad = E.choose("bad", 2)
        shape = E.pick("shape", ["local", "receiver", "sender", "after"])
        nxt = E.pick("next", ["swap", "oneway", "pingpong"])
        s = coop.Sched(E, delays=0, name="s", max_steps=30000)

        def failing(interp):
            boom = lambda a: mesh.fn("boom", a)  # noqa: E731
            def prog():
                x = simp.pcall_static(FULL, lambda: mesh.src("x"))
                if shape == "local":
                    return simp.pcall_static(FULL, boom, x)
                # the exchange and the failing call in one dispatched operation
                t = simp.pcall_static(FULL, lambda: mesh.src("x"))

                def then(a):
                    if shape == "receiver":  # fails before receiving
                        b = simp.pcall_static((bad,), boom, a)
                        c = simp.shuffle_static(a, {bad: 1 - bad})
                        return simp.pcall_static((bad,), lambda u, v: mesh.fn("g", u, v), b, c)
                    if shape == "sender":  # fails before sending: its peer waits in vain
                        b = simp.pcall_static((bad,), boom, a)
                        return simp.shuffle_static(b, {1 - bad: bad})
                    b = simp.shuffle_static(a, {0: 1, 1: 0})
                    return simp.pcall_static(FULL, boom, b)

                p = simp.pcall_static(FULL, lambda a: mesh.fn("t", a, boolean=True), t)
                z = simp.uniform_cond(p, then, lambda a: simp.pcall_static((bad,) if shape != "after" and shape != "sender" else ((1 - bad,) if shape == "sender" else FULL), lambda u: mesh.fn("g", u), a), x)
                return z

            return run_eager(interp, prog)

        hs = handlers(E, bad)
        fn0 = hs["vp.fn"]

        def fn(interp, op, *a):
            return True if op.attrs["tag"] == "t" else fn0(interp, op, *a)

        hs["vp.fn"] = fn
        with coop.pool_patch():
            if kind == "http":
                net, eps, comms, infras = web.cluster(2, config=lambda: config(5.0), handlers=hs)
                mk = lambda: http_interp(net, eps)  # noqa: E731
            else:
                import os

                from mplang.backends.simp_driver import mem

                os.environ["MPLANG_DATA_ROOT"] = str(boot.SCRATCH) + "/mem"
                base = mem.make_simulator(2)
                for inf in base.get_dialect_state("simp").infras:
                    inf.handlers.update(hs)
                mk = lambda: base  # noqa: E731
            out = {}

            def body():
                first = mk()
                try:
                    failing(first)
                    out["err"] = None
                except Exception as e:  # noqa: BLE001
                    out["err"] = e
                again = first if E_same else mk()
                prog, want = job(nxt, "n")
                try:
                    dv = run_eager(again, prog)
                    d = again.get_dialect_state("simp")
                    out["next"] = ([None if dv[r] is None else d.fetch(r, dv[r]).result() for r in FULL], want)
                except Exception as e:  # noqa: BLE001
                    out["next_err"] = e

            E_same = kind == "mem" or E.choose("same-driver", 2)
            t = s.spawn("driver", body)
            try:
                with virtual_time():
                    s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{d}; {shape} {bad}")
        E.check(t.exc is None, "no-error", repr(t.exc))
        E.check(out["err"] is not None, "failure-reported", f"{shape}: the failing job returned normally")
        if kind == "mem" and shape == "local":
            E.check("boom!" in str(out["err"]), "own-error", f"{out['err']!r}")
        E.check("next_err" not in out, f"next-job-{kind}" + ("-peer-stuck" if kind == "http" and shape == "sender" and E_same else ""), f"after a failure ({shape}, party {bad}) the next job {nxt} failed: {out.get('next_err')!r}")
        compare(E, *out["next"], f"job {nxt} after {shape} failure at {bad}")

    explore(h, unit=f"{kind}-failure", expect=("failure-reported",) + (("value", "hole") if kind == "http" else ()), functions=FUNCS,
            bounds="2 workers, failing party and position (locally, before send, before receive, after exchange), 3 following jobs, same or new driver")


def mem_jobs(deep):
    """Two submitters on one in-memory cluster."""

    def h(E):
        import os

        from mplang.backends.simp_driver import mem

        setup()
        os.environ["MPLANG_DATA_ROOT"] = str(boot.SCRATCH) + "/mem"
        kinds = E.pick("kinds", PAIRS)
        s = coop.Sched(E, preempt=1, delays=1 if deep else 0, name="s", max_steps=20000)
        with coop.pool_patch():
            cl = mem.MemCluster(2)
            for inf in cl.infras:
                inf.handlers.update(handlers(E))
            out, started, submitted = {}, [], [0]
            cls = coop.CoopExecutor
            work, submit = cls._work, cls.submit

            def _work(self, *a):
                if s.abort is None:
                    started.append(1)
                return work(self, *a)

            def _submit(self, *a, **k):
                submitted[0] += 1
                return submit(self, *a, **k)

            cls._work, cls.submit = _work, _submit
            graphs = [mesh.trace(job(kinds[j], f"j{j}")[0])[0] for j in (0, 1)]

            def submitter(j):
                prog, want = job(kinds[j], f"j{j}")
                d = cl.create_state()
                res = d.collect([d.submit(r, graphs[j], [], job_id=f"job{j}") for r in FULL])
                out[j] = ([None if res[r][0] is None else d.fetch(r, res[r][0]).result() for r in FULL], want)

            ts = [s.spawn(f"submitter{j}", lambda j=j: submitter(j)) for j in (0, 1)]
            try:
                s.run()
            except coop.Deadlock as d:
                starved = len(started) < submitted[0]  # a queued party was never given a thread
                E.fail("pool-starved" if starved else "terminates", f"two concurrent jobs {kinds} on one in-memory cluster: {d}")
            finally:
                cls._work, cls.submit = work, submit
        for t in ts:
            E.check(t.exc is None, "no-error", f"{t.exc!r}; {kinds}")
        for j in (0, 1):
            compare(E, *out[j], f"job {j} of {kinds}")

    explore(h, unit="mem-jobs", expect=("value",), functions=FUNCS, max_seconds=2400, max_paths=10**6,
            bounds="2 parties, 2 concurrent jobs from 4 kind pairs, 2 (thorough 3) scheduling delays")


def attribution():
    """Every party's answer - value, absence or error - is attributed to that party, whatever the completion order; inputs reach the party they belong to."""

    def h(E):
        setup()
        n = 3
        have = [E.choose(f"have{r}", 2) for r in range(n)]
        bad = E.choose("bad", n + 1)  # n: nobody
        s = coop.Sched(E, delays=1, name="s", max_steps=20000)
        http = E.choose("http", 2)
        from mplang.dialects import simp

        def prog(x):
            return [simp.pcall_dynamic(lambda a: mesh.fn("g", a), x), simp.pcall_dynamic(lambda a: mesh.fn("boom", a), x)]

        with coop.pool_patch():
            hs = handlers(E, bad)
            if http:
                net, eps, comms, infras = web.cluster(n, config=config, handlers=hs)
                d = http_driver(net, eps)
            else:
                import os

                from mplang.backends.simp_driver import mem

                os.environ["MPLANG_DATA_ROOT"] = str(boot.SCRATCH) + "/mem"
                cl = mem.MemCluster(n)
                infras = cl.infras
                for inf in infras:
                    inf.handlers.update(hs)
                d = cl.create_state()
            from mplang.edsl.tracer import Tracer

            with Tracer() as t2:
                # program over one input: built by tracing with the source as a graph input
                x1 = simp.pcall_static(tuple(range(n)), lambda: mesh.src("in"))
                outs = prog(x1)
                g = t2.finalize(outs)
            op = g.operations[0]
            g.operations.pop(0)
            g.inputs.append(op.outputs[0])
            op.outputs[0].defining_op = None
            op.outputs[0].name = "in_0"
            for k, v in enumerate(v for o in g.operations for v in o.outputs):
                v.name = f"%{k}"
            uris = [infras[r].store.put(Box(E.uf(f"src_in_{r}"))) if have[r] else None for r in range(n)]
            box = {}

            def body():
                futs = [d.submit(r, g, [uris[r]], job_id="j") for r in range(n)]
                try:
                    box["res"] = d.collect(futs)
                except Exception as e:  # noqa: BLE001
                    box["err"] = e
                    return
                box["got"] = [[None if u is None else d.fetch(r, u).result() for u in box["res"][r]] for r in range(n)]

            tk = s.spawn("driver", body)
            try:
                s.run()
            except coop.Deadlock as dl:
                E.fail("terminates", f"{dl}")
        E.check(tk.exc is None, "no-error", repr(tk.exc))
        raises = bad < n and have[bad]
        if raises:
            E.check("err" in box, "failure-reported", f"party {bad} failed, collect returned {box.get('res')}")
            if http:
                E.check("500" in str(box["err"]), "own-error", repr(box["err"]))
            else:
                E.check(isinstance(box["err"], KeyError), "own-error", repr(box["err"]))
            return
        E.check("err" not in box, "no-error", repr(box.get("err")))
        for r in range(n):
            for i, tag in enumerate(("g", "boom")):
                v = box["got"][r][i]
                if not have[r]:
                    E.check(v is None, "hole", f"party {r} has no input but reports {v}")
                else:
                    E.eq("value", unbox(v), E.uf(f"fn_{tag}_1", E.uf(f"src_in_{r}")), f"party {r} output {i}")

    explore(h, unit="attribution", expect=("value", "hole", "failure-reported", "own-error"), functions=FUNCS,
            bounds="3 parties, every pattern of present inputs, at most one failing party, both transports, 1 scheduling delay")


def exec_async():
    """Asynchronous submission: the status of an execution id is that of its own job, at every moment."""

    def h(E):
        import json

        from mplang.edsl import serde

        setup()
        bad = [E.choose(f"bad{j}", 2) for j in (0, 1)]
        gap = E.pick("poll", ["early", "late"])
        s = coop.Sched(E, preempt=1, trace_lines=("simp_worker/http.py",), delays=1, name="s", max_steps=20000)
        with coop.pool_patch():
            from mplang.dialects import simp

            hs = handlers(E, 0)
            net, eps, comms, infras = web.cluster(1, config=config, handlers=hs)
            app = net.apps["w0"]
            gs = [mesh.trace(lambda j=j: simp.pcall_static((0,), lambda: mesh.fn("boom" if bad[j] else "g", mesh.src(f"s{j}"))))[0] for j in (0, 1)]

            def call(m, path, body=None):
                coop.point("net")
                return web.serve(app, m, path, {}, json.dumps(body).encode() if body is not None else b"")

            seen = {0: [], 1: []}

            def submit(j):
                return call("POST", "/exec/async", {"graph": serde.dumps_b64(gs[j]), "inputs": serde.dumps_b64([]), "job_id": f"job{j}"})

            def body():
                E.check(call("GET", "/exec/job0/status")[0] == 404, "unknown-id", "status of an id never submitted")
                done = []
                for j in (0, 1):
                    for _ in range(30):
                        st, b = submit(j)
                        if st == 200:
                            break
                        E.check(st == 409 and j == 1 and not done, "refused", f"submission of job {j} refused with {st} {b}")
                        st0, b0 = call("GET", "/exec/job0/status")
                        if st0 == 200 and b0["status"] in ("SUCCESS", "FAILED"):
                            # it may have finished between the two calls; the next submission must be accepted
                            done.append(1)
                        coop._sleep(0.01)
                    else:
                        E.fail("accepted", f"job {j} never accepted")
                    E.check(b == {"exec_id": f"job{j}"}, "exec-id", f"{b}")
                    if j == 0 and gap == "early":
                        seen[0].append(call("GET", "/exec/job0/status"))
                for j in (0, 1):
                    for _ in range(60):
                        st, b = call("GET", f"/exec/job{j}/status")
                        E.check(st == 200, "known-id", f"{st} {b}")
                        seen[j].append((st, b))
                        if b["status"] in ("SUCCESS", "FAILED"):
                            break
                        coop._sleep(0.01)
                for j in (0, 1):
                    seen[j].append(call("GET", f"/exec/job{j}/status"))

            t = s.spawn("client", body)
            try:
                s.run()
            except coop.Deadlock as d:
                E.fail("terminates", f"{d}")
        E.check(t.exc is None, "no-error", repr(t.exc))
        order = {"PENDING": 0, "RUNNING": 1, "SUCCESS": 2, "FAILED": 2}
        for j in (0, 1):
            sts = [b["status"] for _, b in seen[j]]
            E.check(all(order[a] <= order[b] for a, b in zip(sts, sts[1:])), "monotone", f"{sts}")
            last = seen[j][-1][1]
            E.check(last["exec_id"] == f"job{j}", "own-status", f"{last}")
            E.check(last["status"] == ("FAILED" if bad[j] else "SUCCESS"), "own-status", f"job {j} bad={bad}: {last}")
            for _, b in seen[j]:
                if b["status"] == "SUCCESS":
                    E.check(b.get("result") is not None, "result-with-success", f"job {j} is reported finished without its result: {b}")
            if bad[j]:
                E.check("boom!" in (last.get("error") or ""), "own-error", f"{last}")
            else:
                uri = serde.loads_b64(last["result"])[0]
                E.eq("value", unbox(infras[0].store.get(uri)), E.uf("fn_g_1", E.uf(f"src_s{j}_0")), f"job {j}")

    explore(h, unit="exec-async", expect=("value", "own-status", "own-error", "monotone"), functions=FUNCS,
            bounds="1 worker, 2 asynchronous jobs each failing or not, polling at every point, 2 scheduling delays")
