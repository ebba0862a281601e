"""Real workers of a small multi-party cluster, run under the cooperative scheduler.

Local computation uses two primitives registered here: ``vp.src`` (a value
private to each party) and ``vp.fn`` (an uninterpreted function).  Everything
else - tracing, per-party interpreters, kernels, communication contexts,
mailboxes - is the code under test.
"""

from __future__ import annotations

import pathlib

from . import boot, coop
from .sym import SymBool

_prims = {}


def prims():
    if not _prims:
        import mplang.edsl as el
        import mplang.edsl.typing as T

        src = el.Primitive("vp.src")

        @src.def_abstract_eval
        def _src(*in_types, tag, boolean=False):
            return T.TensorType(T.bool_ if boolean else T.i64, ())

        fn = el.Primitive("vp.fn")

        @fn.def_abstract_eval
        def _fn(*in_types, tag, boolean=False):
            return T.TensorType(T.bool_ if boolean else T.i64, ())

        _prims.update(src=src, fn=fn)
    return _prims


def rank_of(interp):
    return interp.get_dialect_state("simp").rank


def handlers(E, concrete=None):
    """concrete: optional {tag: fn(rank, *args)} overriding the uninterpreted meaning."""
    concrete = concrete or {}

    def src(interp, op, *a):
        tag, r = op.attrs["tag"], rank_of(interp)
        if tag in concrete:
            return concrete[tag](r)
        return E.uf(f"src_{tag}_{r}")

    def fn(interp, op, *a):
        tag = op.attrs["tag"]
        if tag in concrete:
            return concrete[tag](rank_of(interp), *a)
        # which party computed it must not matter: no rank in the term
        return E.uf(f"fn_{tag}_{len(a)}", *a)

    return {"vp.src": src, "vp.fn": fn}


def src(tag, boolean=False):
    return prims()["src"].bind(tag=tag, boolean=boolean)


def fn(tag, *a, boolean=False):
    return prims()["fn"].bind(*a, tag=tag, boolean=boolean)


class TapComm:
    """The real communicator plus a record of every message sent."""

    def __init__(self, comm, log):
        self._c, self._log = comm, log
        self.rank, self.world_size = comm.rank, comm.world_size

    def __getattr__(self, n):
        return getattr(self._c, n)

    def send(self, to, key, data, *a, **k):
        self._log.append((self.rank, to, data))
        return self._c.send(to, key, data, *a, **k)


class PointComm:
    """The real communicator plus a preemption point before each operation."""

    def __init__(self, comm):
        self._c = comm
        self.rank, self.world_size = comm.rank, comm.world_size

    def __getattr__(self, n):
        return getattr(self._c, n)

    def send(self, *a, **k):
        coop.point("send")
        return self._c.send(*a, **k)

    def recv(self, *a, **k):
        coop.point("recv")
        return self._c.recv(*a, **k)


class Stuck(tuple):
    cause = None


def trace(f, *args):
    import mplang.edsl as el
    from mplang.edsl.tracer import Tracer

    with Tracer() as t:
        out = f(*args)
        single = not isinstance(out, (list, tuple))
        outs = [out] if single else list(out)
        g = t.finalize(outs)
    return g, [o.type for o in outs]


def run_parties(E, graph, world, *, inputs=None, concrete=None, async_ops=None, preempt=0, jobs=("job",), graphs=None, trace_lines=(), ranks=None, extra=None,
                name="s", max_steps=4000, delays=None, tap=None):
    """Run `graph` on every party; returns {(job, rank): ("ok", outputs) | ("error", exc)} or ("deadlock", text)."""
    from mplang.backends.simp_worker import WORKER_HANDLERS
    from mplang.backends.simp_worker.infra import WorkerInfra
    from mplang.backends.simp_worker.mem import ThreadCommunicator
    from mplang.backends.simp_worker.request import create_request_interpreter
    from mplang.runtime.object_store import ObjectStore

    s = coop.Sched(E, preempt=preempt, trace_lines=trace_lines, name=name, max_steps=max_steps, delays=delays)
    res = {}
    with coop.pool_patch():
        comms = [ThreadCommunicator(r, world) for r in range(world)]
        for c in comms:
            c.set_peers(comms)
        tasks = {}
        for r in range(world) if ranks is None else ranks:
            hs = {**WORKER_HANDLERS, **handlers(E, concrete), **(extra or {})}
            if tap is not None:
                comms[r] = TapComm(comms[r], tap)
            infra = WorkerInfra(rank=r, world_size=world, communicator=PointComm(comms[r]) if preempt else comms[r], store=ObjectStore(), handlers=hs,
                                root_dir=pathlib.Path(boot.SCRATCH) / "root", executor=coop.CoopExecutor(sched=s) if async_ops else None,
                                async_ops=frozenset(async_ops or ()))
            for j in jobs:
                g = graphs[j] if graphs else graph
                ins = (inputs(j, r) if callable(inputs) else [x[r] for x in inputs]) if inputs else []

                def body(infra=infra, j=j, g=g, ins=ins):
                    interp = create_request_interpreter(infra, j)
                    return list(interp.evaluate_graph(g, ins))

                tasks[(j, r)] = s.spawn(f"{j}/party{r}", body)
        try:
            s.run()
        except coop.Deadlock as d:
            out = Stuck(("deadlock", str(d)))
            out.cause = next((t.exc for t in tasks.values() if t.exc is not None), None)
            return out
    for k, t in tasks.items():
        res[k] = ("error", t.exc) if t.exc is not None else ("ok", t.result)
    return res
