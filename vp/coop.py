"""Solver-chosen thread interleavings over the real threading code.

Managed threads are real threads, but only the one holding the baton runs.
``threading.Condition.wait/notify`` (and with them Queue, Event, Future,
Thread.join), ``Thread.start`` and ``ThreadPoolExecutor`` are patched while a
scheduler is active, so the implementation's own synchronisation decides who
*can* run, and the engine (``E.choose``) decides who *does* run.  A state in
which nobody can run is a deadlock and is reported by :class:`Deadlock`.
"""

from __future__ import annotations

import concurrent.futures
import queue
import sys
import threading
import time
import _thread

from . import sym

_REAL_COND_WAIT = threading.Condition.wait
_REAL_COND_NOTIFY = threading.Condition.notify
_REAL_START = threading.Thread.start
_REAL_JOIN = threading.Thread.join
_REAL_POOL = concurrent.futures.ThreadPoolExecutor
_REAL_SLEEP = time.sleep

_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock

_ACTIVE: list["Sched"] = []
WATCHDOG_S = 60


class Deadlock(Exception):
    """No managed thread can make progress."""


class _Abort(BaseException):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "new"  # new, ready, blocked, done
        self.timed = False
        self.timed_out = False
        self.result = None
        self.exc = None
        self.joiners: list[Task] = []
        self.ident = None
        self.daemon = False


class Sched:
    """Run managed threads under solver-chosen interleavings.

    preempt: number of context switches allowed at points where the running
    thread could have continued (blocking and thread ends always switch, to a
    solver-chosen successor).  None = unlimited.
    """

    def __init__(self, E, *, preempt=0, name="s", max_steps=4000, trace_lines=(), delays=None):
        # delays: budget for deviating from "first ready thread" when a thread
        # blocks or ends (taking the k-th ready thread costs k); None = free
        self.delays = delays
        # trace_lines: path fragments; every source line executed in a file
        # whose path contains one of them becomes a preemption point
        self.trace_lines = tuple(trace_lines)
        self.E = E
        self.tasks: list[Task] = []
        self.preempt = preempt
        self.n_choice = 0
        self.name = name
        self.cur: Task | None = None
        self.abort = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.steps = 0
        self.idle, self.max_idle = 0, 40  # consecutive time-outs with nobody else able to run
        self.max_steps = max_steps
        self.by_ident: dict[int, Task] = {}
        self.trace: list[str] = []

    # -- public ---------------------------------------------------------
    def spawn(self, name, fn, daemon=False):
        t = Task(name, fn)
        t.daemon = daemon
        t.state = "ready"
        self.tasks.append(t)
        # not threading.Thread: its start() waits on a (patched) Event
        _thread.start_new_thread(self._body, (t,))
        return t

    def run(self):
        """Run until every (non-daemon) task is done; re-raise engine signals."""
        _ACTIVE.append(self)
        _install()
        try:
            nxt = self._pick(None)
            if nxt is not None:
                self._resume(nxt)
                if not self.main_sem.acquire(timeout=WATCHDOG_S * 4):
                    self.abort = self.abort or sym.Inconclusive("scheduler watchdog: a managed thread never yielded")
        except BaseException as e:  # noqa: BLE001
            self.abort = self.abort or e
        finally:
            _ACTIVE.remove(self)
            self._kill()
            _uninstall()
        if self.abort is not None:
            raise self.abort
        return self.tasks

    def point(self, tag=""):
        """A preemption point of the running thread."""
        t = self._me()
        if t is None:
            return
        if self.abort is not None:
            raise _Abort
        others = [o for o in self.tasks if o.state == "ready" and o is not t]
        if not others or (self.preempt is not None and self.preempt <= 0):
            return
        cand = [t, *others]
        k = self._choose(len(cand))
        if k == 0:
            return
        if self.preempt is not None:
            self.preempt -= 1
        self._handoff(t, cand[k])

    def block(self, timed=False):
        """Block the running thread until unblock(); False when timed out."""
        t = self._me()
        if self.abort is not None:
            raise _Abort
        t.state = "blocked"
        t.timed = timed
        t.timed_out = False
        nxt = self._pick(t)
        if nxt is t:
            t.state = "ready"
        elif nxt is None:
            self._finish(t)
        else:
            self._handoff(t, nxt, keep_state=True)
        return not t.timed_out

    def unblock(self, t):
        if t.state == "blocked":
            t.state = "ready"

    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if any(x in fn for x in self.trace_lines):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.abort is None and (self.preempt is None or self.preempt > 0):
            self.point("line")
        return self._local

    def managed(self):
        return self._me() is not None

    # -- internals --------------------------------------------------------
    def _me(self):
        return self.by_ident.get(_thread.get_ident())

    def _choose(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise sym.Inconclusive("scheduler step bound")
        self.n_choice += 1
        return self.E.choose(f"{self.name}_{self.n_choice}", n)

    def _pick(self, me):
        ready = [o for o in self.tasks if o.state == "ready"]
        if not ready:
            timed = [o for o in self.tasks if o.state == "blocked" and o.timed]
            self.idle += 1
            if timed and self.idle <= self.max_idle:
                k = self._choose(len(timed)) if len(timed) > 1 else 0
                timed[k].timed_out = True
                timed[k].state = "ready"
                return timed[k]
            if any(o.state == "blocked" and not o.daemon for o in self.tasks):
                blocked = ", ".join(o.name for o in self.tasks if o.state == "blocked")
                self.abort = self.abort or Deadlock(f"no party can make progress; blocked: {blocked}")
            return None
        if all(o.daemon for o in ready) and all(o.daemon or o.state == "done" for o in self.tasks):
            # only background threads are left: let them run on
            pass
        if not any(o.timed_out for o in ready):
            self.idle = 0
        n = len(ready) if self.delays is None else min(len(ready), self.delays + 1)
        k = self._choose(n) if n > 1 else 0
        if self.delays is not None:
            self.delays -= k
        return ready[k]

    def _resume(self, t):
        self.cur = t
        self.trace.append(t.name)
        t.sem.release()

    def _handoff(self, me, nxt, keep_state=False):
        self._resume(nxt)
        self._sleep(me)

    def _sleep(self, me):
        if not me.sem.acquire(timeout=WATCHDOG_S * 4):
            raise _Abort
        if self.abort is not None:
            raise _Abort

    def _finish(self, me):
        """Nobody can run: give control back to the main thread and die."""
        self.main_sem.release()
        self._sleep(me)
        raise _Abort

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        try:
            t.sem.acquire()
            if self.abort is None:
                if self.trace_lines:
                    sys.settrace(self._tracer)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except _Abort:
            t.exc = None
        except Exception as e:  # noqa: BLE001
            t.exc = e
        except BaseException as e:  # engine signal (PathEnd, Counterexample ...)
            self.abort = self.abort or e
        finally:
            t.state = "done"
            for j in t.joiners:
                self.unblock(j)
            try:
                if self.abort is not None:
                    self._release_main()
                else:
                    nxt = self._pick(t)
                    if nxt is None:
                        self._release_main()
                    else:
                        self._resume(nxt)
            except BaseException as e:  # noqa: BLE001
                self.abort = self.abort or e
                self._release_main()

    def _release_main(self):
        try:
            self.main_sem.release()
        except RuntimeError:
            pass

    def _kill(self):
        """Let every suspended thread unwind."""
        saved, self.abort = self.abort, self.abort or _Abort()
        for t in self.tasks:
            if t.state != "done":
                try:
                    t.sem.release()
                except RuntimeError:
                    pass
        deadline = time.time() + 5
        while any(t.state != "done" for t in self.tasks) and time.time() < deadline:
            _REAL_SLEEP(0.0005)
        self.abort = saved


def current() -> Sched | None:
    for s in reversed(_ACTIVE):
        if s.managed():
            return s
    return None


def point(tag=""):
    s = current()
    if s is not None:
        s.point(tag)


# --------------------------------------------------------------------------
# patches
# --------------------------------------------------------------------------


def _cond_wait(self, timeout=None):
    s = current()
    if s is None:
        return _REAL_COND_WAIT(self, timeout)
    if not self._is_owned():
        raise RuntimeError("cannot wait on un-acquired lock")
    t = s._me()
    ws = self.__dict__.setdefault("_vp_waiters", [])
    ws.append(t)
    saved = self._release_save()
    try:
        ok = s.block(timed=timeout is not None)
    finally:
        if t in ws:
            ws.remove(t)
        # During an abort other threads unwind concurrently and may hold it.
        self._acquire_restore(saved)
    return ok


def _cond_notify(self, n=1):
    ws = self.__dict__.get("_vp_waiters")
    if ws:
        for _ in range(min(n, len(ws))):
            t = ws.pop(0)
            for s in _ACTIVE:
                if t in s.tasks:
                    s.unblock(t)
            n -= 1
    if n > 0:
        _REAL_COND_NOTIFY(self, n)


def _cond_notify_all(self):
    _cond_notify(self, 1 << 30)


def _start(self):
    s = current()
    if s is None:
        return _REAL_START(self)

    def body():
        self.run()

    self._vp_task = s.spawn(self.name, body, daemon=self.daemon)
    self._started.set()
    s.point("start")


def _join(self, timeout=None):
    t = getattr(self, "_vp_task", None)
    s = current()
    if t is None or s is None:
        return _REAL_JOIN(self, timeout)
    while t.state != "done":
        t.joiners.append(s._me())
        if not s.block(timed=timeout is not None):
            return None
    return None


class CoopLock:
    """threading.Lock / RLock whose contention is visible to the scheduler."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._ws: list[Task] = []

    def _who(self):
        s = current()
        return s._me() if s is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        while self._count and not (self._reentrant and self._owner == me):
            s = current()
            if s is None or s.abort is not None:
                break  # unwinding
            if not blocking:
                return False
            self._ws.append(me)
            if not s.block(timed=timeout is not None and timeout >= 0):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._count == 0:
            if any(s.abort is not None for s in _ACTIVE):
                return
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            ws, self._ws = self._ws, []
            for t in ws:
                for s in _ACTIVE:
                    if t in s.tasks:
                        s.unblock(t)

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._count > 0 and (self._owner == self._who())

    def _release_save(self):
        st, self._count = self._count, 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class CoopRLock(CoopLock):
    _reentrant = True


class CoopExecutor(concurrent.futures.Executor):
    """ThreadPoolExecutor stand-in: every submitted call becomes a managed thread.

    With max_workers, at most that many calls are in flight; the others queue
    in submission order, as in the real pool.
    """

    def __init__(self, max_workers=None, *a, sched=None, **k):
        self._sched = sched
        self._max = max_workers or 10**9
        self._running = 0
        self._queue = []
        self._down = False

    def submit(self, fn, /, *args, **kwargs):
        s = self._sched or current()
        if self._down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        self._queue.append((f, fn, args, kwargs))
        self._pump(s)
        s.point("submit")
        return f

    def _pump(self, s):
        while self._queue and self._running < self._max:
            self._running += 1
            f, fn, args, kwargs = self._queue.pop(0)
            s.spawn(f"pool{len(s.tasks)}", lambda f=f, fn=fn, a=args, k=kwargs: self._work(s, f, fn, a, k), daemon=True)

    def _work(self, s, f, fn, args, kwargs):
        try:
            if f.set_running_or_notify_cancel():
                try:
                    r = fn(*args, **kwargs)
                except Exception as e:  # noqa: BLE001
                    s.point("done")
                    f.set_exception(e)
                else:
                    s.point("done")
                    f.set_result(r)
        finally:
            self._running -= 1
            self._pump(s)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._down = True
        if cancel_futures:
            for f, *_ in self._queue:
                f.cancel()


class _CoopSimpleQueue(queue.Queue):
    """queue.SimpleQueue is implemented in C and cannot be scheduled."""

    def __init__(self):
        super().__init__()


def _sleep(secs):
    s = current()
    if s is None:
        return _REAL_SLEEP(secs)
    s.point("sleep")
    others = [o for o in s.tasks if o.state == "ready" and o is not s._me()]
    if others:
        t = s._me()
        k = s._choose(len(others)) if len(others) > 1 else 0
        s._handoff(t, others[k])


_depth = 0
_REAL_NOTIFY_ALL = threading.Condition.notify_all
_REAL_SIMPLEQ = queue.SimpleQueue


_alias_cache = [0, []]


def _aliases():
    """Names in the implementation bound directly to the patched objects (from threading import Lock ...)."""
    if _alias_cache[0] != len(sys.modules):
        swap = {id(_REAL_POOL): CoopExecutor, id(_REAL_SIMPLEQ): _CoopSimpleQueue, id(_REAL_SLEEP): _sleep, id(_REAL_LOCK): CoopLock, id(_REAL_RLOCK): CoopRLock}
        out = []
        for name, mod in list(sys.modules.items()):
            if name.startswith("mplang") and mod is not None:
                for k, v in list(vars(mod).items()):
                    if id(v) in swap:
                        out.append((mod, k, v, swap[id(v)]))
        _alias_cache[:] = [len(sys.modules), out]
    return _alias_cache[1]


def _install():
    global _depth
    if _depth == 0:
        for mod, k, _, new in _aliases():
            setattr(mod, k, new)
    _depth += 1
    if _depth > 1:
        return
    threading.Condition.wait = _cond_wait
    threading.Condition.notify = _cond_notify
    threading.Condition.notify_all = _cond_notify_all
    threading.Thread.start = _start
    threading.Thread.join = _join
    concurrent.futures.ThreadPoolExecutor = CoopExecutor
    concurrent.futures.thread.ThreadPoolExecutor = CoopExecutor
    queue.SimpleQueue = _CoopSimpleQueue
    time.sleep = _sleep
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


def _uninstall():
    global _depth
    _depth -= 1
    if _depth:
        return
    for mod, k, old, _ in _aliases():
        setattr(mod, k, old)
    threading.Condition.wait = _REAL_COND_WAIT
    threading.Condition.notify = _REAL_COND_NOTIFY
    threading.Condition.notify_all = _REAL_NOTIFY_ALL
    threading.Thread.start = _REAL_START
    threading.Thread.join = _REAL_JOIN
    concurrent.futures.ThreadPoolExecutor = _REAL_POOL
    concurrent.futures.thread.ThreadPoolExecutor = _REAL_POOL
    queue.SimpleQueue = _REAL_SIMPLEQ
    time.sleep = _REAL_SLEEP
    threading.Lock = _REAL_LOCK
    threading.RLock = _REAL_RLOCK


class pool_patch:
    """Construct objects outside run() with the cooperative pool in place."""

    def __enter__(self):
        _install()

    def __exit__(self, *a):
        _uninstall()
