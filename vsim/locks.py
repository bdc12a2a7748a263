"""threading.Lock / RLock replacements that cooperate with the thread simulator.

Outside a simulation they delegate to the real lock.  Inside one, a task that
cannot take a lock is descheduled instead of blocking the only running OS
thread; if every task waits, that is reported as a deadlock.
"""
import threading

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = threading.local()


def current_task():
    return getattr(_current, "task", None)


class _Base:
    _make = None

    def __init__(self):
        self._real = type(self)._make()

    def acquire(self, blocking=True, timeout=-1):
        task = current_task()
        if task is None:
            return self._real.acquire(blocking, timeout)
        task.sim.point(task, ("lock", 0))
        while not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False  # simulated time-out
            task.sim.block(task, self)
        return True

    def release(self):
        self._real.release()
        task = current_task()
        if task is not None:
            task.sim.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        if name == "_real":
            raise AttributeError(name)
        return getattr(self._real, name)

    def __repr__(self):
        return f"<Sim{self._real!r}>"


class SimLock(_Base):
    _make = staticmethod(_real_lock)


class SimRLock(_Base):
    _make = staticmethod(_real_rlock)


def install():
    if threading.Lock is SimLock:
        return
    threading.Lock = SimLock
    threading.RLock = SimRLock
