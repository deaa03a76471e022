"""Deterministic thread scheduler.

Tasks are real threads, but exactly one runs at a time: a task gives up the
baton only at a scheduling point, and which task runs next is decided by the
plan (a seeded PRNG or an explicit list of switches).  Scheduling points are
the source lines (or bytecodes) of the package under test and the callbacks of
the harness.
"""
import _thread
import sys
import threading
import zlib

from . import boot
from .core import StepLimit

ACTIVE = None
_real_lock = _thread.allocate_lock
_real_rlock = _thread.RLock


def gen_sched(rng, ps, opcodes=0.0):
    """How a run is scheduled: evenly, or crowded into a few functions."""
    spec = {"seed": rng.randrange(1 << 30), "p": rng.choice(ps)}
    if rng.random() < 0.4:
        spec.update(p=0.01, hot=[rng.randrange(1 << 16), rng.choice([2, 4, 8, 16])])
    spec["opcodes"] = rng.random() < opcodes
    return spec


class Deadlock(BaseException):
    pass


class SimLock:
    """Lock that hands the baton over instead of blocking the process."""

    _mk = staticmethod(_real_lock)

    def __init__(self):
        self._l = self._mk()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = ACTIVE
        if s is not None and s.me() is not None:
            while not self._l.acquire(False):
                if not s.runnable(s.me()):
                    # held by a thread outside the simulation, if by any
                    if self._l.acquire(True, 5.0):
                        return True
                    raise Deadlock("all tasks wait for locks")
                s.yield_blocked()
            return True
        return self._l.acquire(True, timeout)

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._l, name)


class SimRLock(SimLock):
    _mk = staticmethod(_real_rlock)


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Task:
    __slots__ = ("id", "fn", "sem", "done", "exc", "result", "waiting", "ident",
                 "blocked", "armed")

    def __init__(self, tid, fn):
        self.id = tid
        self.fn = fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.done = False
        self.exc = None
        self.result = None
        self.waiting = None   # set of task ids to wait for
        self.ident = None
        self.blocked = False  # stuck in a lock the simulator does not own
        self.armed = None     # [points left, exception]


class Sched:
    """One simulated multi-threaded execution."""

    def __init__(self, ctx, spec, max_steps=200000, interrupts=None, start=0):
        self.ctx = ctx
        self.spec = spec
        self.tasks = []
        self.current = None
        self.step = 0
        self.max_steps = max_steps
        self.lock = _real_lock()
        self.finished = _real_lock()
        self.finished.acquire()
        self.by_ident = {}
        self.opcodes = bool(spec.get("opcodes"))
        self.interrupts = dict(interrupts or {})
        self.record = []
        self.foreign = 0
        self.glob = self.tracer()
        if "explicit" in spec:
            self.explicit = {s: t for s, t in spec["explicit"]}
            self.rng = None
        else:
            import random
            self.explicit = None
            self.rng = random.Random(str(spec.get("seed", 0)))
            self.p = spec.get("p", 0.1)
            # "hot" mode: switches crowd into a few functions, picked by the plan
            self.hot = spec.get("hot")

    # -- task side ---------------------------------------------------------
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def runnable(self, exclude=None):
        return [t for t in self.tasks
                if not t.done and t is not exclude and not t.waiting and not t.blocked]

    def point(self, where="", p=None):
        """Scheduling point of the running task."""
        me = self.me()
        if me is None:
            return
        if self.current is not me:
            self._park(me)
        self.step += 1
        if self.step > self.max_steps:
            raise StepLimit(f"{self.step} scheduling points")
        others = None
        target = None
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t is not None:
                others = self.runnable(me)
                target = next((o for o in others if o.id == t), None)
        elif self.rng.random() < (self.p if p is None else p):
            others = self.runnable(me)
            if others:
                target = others[self.rng.randrange(len(others))]
        if target is not None:
            self.record.append((self.step, target.id))
            self._switch(me, target, where)
        exc = self.interrupts.pop((me.id, self.step), None)
        if exc is None and me.armed is not None:
            me.armed[0] -= 1
            if me.armed[0] < 0:
                exc, me.armed = me.armed[1], None
        if exc is not None:
            raise exc

    def call(self, fn, after=None, exc=None):
        """Call fn in the running task; raise exc at its (after+1)-th point."""
        me = self.me()
        if after is not None:
            me.armed = [after, exc]
        try:
            return fn()
        finally:
            me.armed = None
            # a trace function that raised has been removed by the interpreter
            sys.settrace(self.glob)

    def yield_blocked(self):
        me = self.me()
        others = self.runnable(me)
        if not others:
            raise Deadlock("all tasks wait for locks")
        nxt = next((o for o in others if o.id > me.id), others[0])
        self.step += 1
        if self.step > self.max_steps:
            raise Deadlock("no progress while waiting for a lock")
        self._switch(me, nxt, "lock")

    def _switch(self, me, target, where):
        self.ctx.switch(me.id, target.id, where)
        with self.lock:
            self.current = target
        target.sem.release()
        me.sem.acquire()

    def _park(self, me):
        with self.lock:
            me.blocked = False
        me.sem.acquire()

    def _finish(self, me):
        me.done = True
        for t in self.tasks:
            if t.waiting and me.id in t.waiting:
                t.waiting.discard(me.id)
        if self.current is not me:
            return
        self._handover(me)

    def _handover(self, me):
        nxt = self.runnable(me)
        if nxt:
            if self.rng is not None:
                t = nxt[self.rng.randrange(len(nxt))]
                self.record.append((-self.step - 1 - 10**7 * me.id, t.id))
            else:
                want = self.explicit.get(-self.step - 1 - 10**7 * me.id)
                t = next((o for o in nxt if o.id == want), nxt[0])
            self.ctx.switch(me.id, t.id, "end")
            with self.lock:
                self.current = t
            t.sem.release()
        elif all(t.done for t in self.tasks):
            self.finished.release()
        # otherwise every other task is stuck in a foreign lock: the
        # controller's watchdog notices

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        threading.Thread(target=self._body, args=(t,), daemon=True).start()
        return t

    def join(self, tasks):
        me = self.me()
        pend = {t.id for t in tasks if not t.done}
        if not pend:
            return
        me.waiting = pend
        self._handover(me)
        me.sem.acquire()
        me.waiting = None

    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            sys.settrace(self.glob)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        self._finish(t)

    def tracer(self):
        pkg = boot.PKG
        point = self.point
        opcodes = self.opcodes
        hot = self.spec.get("hot") if "explicit" not in self.spec else None
        chosen = {}

        def local_hot(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                point(frame.f_lineno, 0.65)
            return local_hot

        def is_hot(code):
            h = zlib.crc32(f"{hot[0]}:{code.co_qualname}".encode())
            return h % hot[1] == 0 or code.co_name in hot[2:]

        def local(frame, event, arg):
            if event == ("opcode" if opcodes else "line"):
                point(frame.f_lineno)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(pkg):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                if hot:
                    k = chosen.get(frame.f_code)
                    if k is None:
                        k = chosen[frame.f_code] = is_hot(frame.f_code)
                    if k:
                        return local_hot
                return local
            return None

        return glob

    # -- controller side ----------------------------------------------------
    def run(self, fns, first=0):
        global ACTIVE
        ACTIVE = self
        try:
            for fn in fns:
                self.spawn(fn)
            self.current = self.tasks[first % len(self.tasks)]
            self.current.sem.release()
            last = -1
            while not self.finished.acquire(True, 2.0):
                if self.step == last and self.current is not None:
                    with self.lock:
                        cur = self.current
                        nxt = [t for t in self.tasks if not t.done and t is not cur
                               and not t.waiting and not t.blocked]
                        if nxt and not cur.done:
                            cur.blocked = True
                            self.foreign += 1
                            self.current = nxt[0]
                            nxt[0].sem.release()
                last = self.step
        finally:
            ACTIVE = None
        self.ctx.explicit = list(self.record)
        return self.tasks


def point(where="cb"):
    """Scheduling point for harness callbacks."""
    if ACTIVE is not None:
        ACTIVE.point(where)


class SimParallel:
    """Stand-in for joblib.Parallel: worker threads under the scheduler."""

    ctx = None
    fault = None

    def __init__(self, n_jobs=None, backend=None, verbose=0, **kwargs):
        self.n_jobs = n_jobs
        self.backend = backend
        self.return_as = kwargs.get("return_as", "list")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __call__(self, iterable):
        s = ACTIVE
        jobs = list(iterable)
        n = self.n_jobs or 1
        if n < 0:
            n = max(1, 8 + 1 + n)
        if s is None or n == 1:
            out = []
            for i, (fn, args, kwargs) in enumerate(jobs):
                if SimParallel.fault:
                    SimParallel.fault(i)
                out.append(fn(*args, **kwargs))
            return iter(out) if self.return_as != "list" else out
        out = [None] * len(jobs)
        order = []
        queue = list(range(len(jobs)))
        errors = []

        def worker():
            while queue and not errors:
                i = queue.pop(0)
                point("job")
                fn, args, kwargs = jobs[i]
                try:
                    if SimParallel.fault:
                        SimParallel.fault(i)
                    out[i] = fn(*args, **kwargs)
                    order.append(i)
                except BaseException as e:  # noqa: BLE001
                    errors.append(e)
                    return
                point("done")

        ts = [s.spawn(worker) for _ in range(min(n, len(jobs)))]
        s.join(ts)
        if errors:
            raise errors[0]
        if self.return_as == "generator_unordered":
            return iter([out[i] for i in order])
        return iter(out) if self.return_as != "list" else out
