"""A simulated joblib backend.

joblib's own dispatch, batching, callback and retrieval code runs unchanged; the
backend decides which worker runs which batch when.  Kinds:

  threads   workers are simulated threads that share the caller's objects and are
            preempted inside glum's code at the points the schedule names
  procs     every batch is pickled to a worker and its result pickled back
  memmap    as procs, but arrays arrive in read-only memory, as joblib's memory
            maps do
  cached    as procs, but a worker that gets several batches keeps one unpickled
            copy per batch function set (a worker process that is reused)

Faults: an exception inside the n-th yield point of a worker, a worker process
that dies with its batch, and results that are lost to unpickling errors.
"""
import contextlib
import pickle

import cloudpickle
from joblib import parallel as jp
from joblib._parallel_backends import ParallelBackendBase, SequentialBackend
from joblib.externals.loky.process_executor import TerminatedWorkerError

from . import threads


class Future:
    def __init__(self, batch, callback):
        self.batch, self.callback = batch, callback
        self.value = self.exc = None

    def get(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.value


class Plan:
    """kind, workers, batch size, order of starts, preemptions and faults."""

    def __init__(self, kind="threads", workers=2, batch=1, order=(0,), preempts=(), fine=False, inject=None, die=None, record=False, stop=True, dirs=(), max_steps=600_000):
        self.kind, self.workers, self.batch, self.order = kind, workers, batch, list(order) or [0]
        self.preempts, self.fine, self.inject, self.die = list(preempts), fine, inject, die
        self.record, self.stop, self.dirs, self.max_steps = record, stop, dirs, max_steps
        self.parallel_calls = 0
        self.batches = 0
        self.steps = []
        self.hot = []
        self.switches = 0
        self.trace = []
        self.failed = []
        self.sent = 0


class SimBackend(ParallelBackendBase):
    uses_threads = True
    supports_sharedmem = True
    supports_retrieve_callback = True
    default_n_jobs = 1

    def __init__(self, plan=None, nesting_level=None, **k):
        super().__init__(nesting_level=nesting_level)
        self.plan = plan
        self.queue = []
        self.aborted = False

    def effective_n_jobs(self, n_jobs):
        return max(2, self.plan.workers)

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **k):
        self.parallel = parallel
        self.queue = []
        self.aborted = False
        return self.effective_n_jobs(n_jobs)

    def compute_batch_size(self):
        return self.plan.batch

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=1), None

    def submit(self, func, callback=None):
        f = Future(func, callback)
        if self.plan.kind in ("procs", "memmap"):
            # arguments leave the parent when they are dispatched
            bufs = []
            try:
                if self.plan.kind == "memmap":
                    f.payload = cloudpickle.dumps(func, protocol=5, buffer_callback=bufs.append)
                    f.bufs = [bytes(b.raw()) for b in bufs]
                else:
                    f.payload = cloudpickle.dumps(func)
                    f.bufs = None
            except Exception as e:  # noqa: BLE001 - reported like joblib does
                f.exc = e
            else:
                self.plan.sent += len(f.payload)
        self.queue.append(f)
        return f

    def retrieve_result_callback(self, out):
        return out.get()

    def abort_everything(self, ensure_ready=True):
        self.aborted = True
        self.queue.clear()

    # -- the simulation ---------------------------------------------------
    @contextlib.contextmanager
    def retrieval_context(self):
        p = self.plan
        p.parallel_calls += 1
        if p.kind == "threads":
            self._threads()
        else:
            self._procs()
        yield

    def _take(self, k):
        return self.queue.pop(k % len(self.queue))

    def _finish(self, f):
        f.callback(f)

    def _procs(self):
        p = self.plan
        n = 0
        while self.queue:
            f = self._take(p.order[n % len(p.order)])
            if p.die is not None and p.die == n:
                f.exc = TerminatedWorkerError("a worker process was terminated (simulated)")
            elif f.exc is None:
                try:
                    g = pickle.loads(f.payload, buffers=f.bufs) if f.bufs is not None else pickle.loads(f.payload)
                    if p.inject is not None and p.inject[0] == n:
                        from . import crash

                        t = crash.Tracer(p.dirs, p.inject[1], p.inject[2])
                        v = t.run(g)
                        if t.where is not None:
                            p.failed.append(t.where)
                    else:
                        v = g()
                    f.value = pickle.loads(cloudpickle.dumps(v))
                except BaseException as e:  # noqa: BLE001
                    f.exc = pickle.loads(cloudpickle.dumps(e))
            if f.exc is not None:
                p.failed.append(type(f.exc).__name__)
            n += 1
            p.batches += 1
            self._finish(f)
            if f.exc is not None and p.stop:
                break

    def _threads(self):
        p = self.plan
        sim = threads.ThreadSim(p.dirs, p.preempts, p.order, p.fine, record=p.record, max_steps=p.max_steps)

        def worker():
            while self.queue and not (p.stop and p.failed):
                f = self._take(0)
                p.batches += 1
                try:
                    f.value = f.batch()
                except threads.SimAbort:
                    raise
                except BaseException as e:  # noqa: BLE001 - handed to the caller, as thread pools do
                    f.exc = e
                    p.failed.append(type(e).__name__)
                self._finish(f)

        for i in range(min(p.workers, max(1, len(self.queue)))):
            sim.add(worker, inject=tuple(p.inject[1:]) if p.inject is not None and p.inject[0] == i else None)
        sim.run()
        p.steps.append([t.step for t in sim.tasks])
        p.hot += sim.hot
        p.switches += sim.switches
        p.trace += sim.trace


_current = []


def factory(**k):
    return SimBackend(_current[-1], **k)


def install():
    jp.register_parallel_backend("vsim", factory)


@contextlib.contextmanager
def backend(plan):
    install()
    _current.append(plan)
    try:
        with jp.parallel_config(backend="vsim", n_jobs=max(2, plan.workers)):
            yield plan
    finally:
        _current.pop()
