"""Deterministic scheduler for Python threads.

Every simulated thread is a real thread, but only the holder of the baton runs.
Yield points are the 'line' trace events of frames whose code lives in one of
the traced directories and, in fine mode, the beginning and end of every C call
such a frame makes and its return.  A schedule is an explicit list of
preemptions [task, local_step, pick]: when task `task` reaches its local_step-th
yield point, the baton goes to the pick-th runnable other task.  Everything not
preempted runs until it blocks or ends; the next task is then chosen by
`order`.  Because decisions are indexed by the task's own step count, a
schedule survives minimisation and replays exactly.
"""
import dis
import sys
import threading
import _thread

from . import crash, locks


class Deadlock(Exception):
    pass


class StepBound(Exception):
    """The simulated run is longer than its bound."""


class SimAbort(BaseException):
    pass


class Task:
    def __init__(self, sim, idx, fn):
        self.sim, self.idx, self.fn = sim, idx, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.step = 0
        self.done = False
        self.started = False
        self.waiting = None
        self.result = None
        self.exc = None
        self.inject = None  # (step, exception) raised at that local step


_STORE = {}


def store_lines(code):
    """Lines of `code` that publish to an object (attribute/item stores)."""
    got = _STORE.get(code)
    if got is None:
        got = set()
        line = None
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR", "STORE_GLOBAL", "STORE_DEREF"):
                got.add(line)
        _STORE[code] = got
    return got


class ThreadSim:
    def __init__(self, dirs, preempts=(), order=(), fine=False, record=False, max_steps=2_000_000):
        self.dirs = tuple(dirs)
        self.tasks = []
        self.preempts = {}
        for t, s, p in preempts:
            self.preempts[(int(t), int(s))] = int(p)
        self.order = list(order) or [0]
        self.fine = fine
        self.record = record
        self.hot = []  # (task, local step) right after a store line
        self.trace = []  # baton transfers actually performed
        self.switches = 0
        self.fired = 0
        self.max_steps = max_steps
        self.total = 0
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.aborting = False
        self.error = None
        self._k = 0

    # -- public ---------------------------------------------------------
    def add(self, fn, inject=None):
        t = Task(self, len(self.tasks), fn)
        t.inject = inject
        self.tasks.append(t)
        return t

    def run(self):
        threads = [
            threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks
        ]
        # the code stays instrumented for the whole run, whichever task ends first
        old = sys.gettrace()
        sys.settrace(lambda *a: None)
        for th in threads:
            th.start()
        first = self._next(None)
        if first is not None:
            first.gate.release()
            self.main_gate.acquire()
        for th in threads:
            th.join(60)
        sys.settrace(old)
        if self.error is not None:
            raise self.error
        return [t.result for t in self.tasks]

    # -- scheduling -----------------------------------------------------
    def _runnable(self, exclude=None):
        return [t for t in self.tasks if not t.done and t.waiting is None and t is not exclude]

    def _next(self, cur):
        r = self._runnable()
        if not r:
            return None
        k = self.order[self._k % len(self.order)]
        self._k += 1
        return r[k % len(r)]

    def _switch(self, cur, to):
        self.switches += 1
        self.trace.append((cur.idx, cur.step, to.idx))
        to.gate.release()
        cur.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def point(self, task, where):
        """A yield point of `task`."""
        task.step += 1
        self.total += 1
        if self.total > self.max_steps:
            self._abort(StepBound("simulated run exceeded its step bound"))
            raise SimAbort()
        if task.inject is not None and task.step >= task.inject[0] and (where[0] == "lock" or where[1] not in crash.headers(where[0].co_filename)):
            exc = task.inject[1]
            task.inject = None
            self.fired += 1
            raise exc
        pick = self.preempts.pop((task.idx, task.step), None)
        if pick is not None:
            others = self._runnable(exclude=task)
            if others:
                self.fired += 1
                self._switch(task, others[pick % len(others)])

    def block(self, task, on):
        task.waiting = on
        nxt = self._next(task)
        if nxt is None:
            self._abort(Deadlock("every simulated thread waits for a lock"))
            raise SimAbort()
        self._switch(task, nxt)

    def unblock(self, on):
        for t in self.tasks:
            if t.waiting is on:
                t.waiting = None

    def _abort(self, err):
        if self.error is None:
            self.error = err
        self.aborting = True

    # -- thread body ----------------------------------------------------
    def _body(self, task):
        task.gate.acquire()
        locks._current.task = task
        try:
            if not self.aborting:
                if self.fine:
                    sys.setprofile(self._profiler(task))
                sys.settrace(self._tracer(task))
                try:
                    task.result = task.fn()
                finally:
                    sys.settrace(None)
                    sys.setprofile(None)
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001 - recorded, judged by the caller
            task.exc = e
        locks._current.task = None
        task.done = True
        nxt = None
        if self.aborting:
            rest = [t for t in self.tasks if not t.done]
            nxt = rest[0] if rest else None
        else:
            nxt = self._next(task)
            if nxt is None and any(not t.done for t in self.tasks):
                self._abort(Deadlock("remaining simulated threads wait for a lock"))
                nxt = [t for t in self.tasks if not t.done][0]
        if nxt is None:
            self.main_gate.release()
        else:
            nxt.gate.release()

    def _profiler(self, task):
        """Yield points around the C calls within a line (fine mode)."""
        dirs = self.dirs

        def prof(frame, event, arg):
            if event != "call" and event != "c_exception" and frame.f_code.co_filename.startswith(dirs):
                self.point(task, (frame.f_code, frame.f_lineno))

        return prof

    def _tracer(self, task):
        dirs = self.dirs
        record = self.record
        hot = self.hot

        def local(frame, event, arg):
            if event == "line":
                if record:
                    last = state[0]
                    if last is not None and last[1] in store_lines(last[0]):
                        hot.append((task.idx, task.step + 1))
                    state[0] = (frame.f_code, frame.f_lineno)
                self.point(task, (frame.f_code, frame.f_lineno))
            return local

        state = [None]

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(dirs):
                return local
            return None

        return glob
