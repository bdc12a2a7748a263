"""A simulated alarm clock: SIGALRM, its timer and its handler.

The timer runs on the simulated monotonic clock.  A signal that is due is
delivered at the next delivery point: when a simulated call returns, when the
traced code reaches a new line, or at an explicit `point()` of a workload - the
places where CPython runs pending signal handlers.
"""
import signal
import sys
import time
import timeit

from . import clock

NAMES = ("signal", "getsignal", "alarm", "setitimer", "getitimer")
REAL = {n: getattr(signal, n) for n in NAMES}
ALRM = signal.SIGALRM


class Alarm:
    def __init__(self, clk, dirs, stalls, st, modules=(), tick=1e-6, handler=signal.SIG_DFL):
        """stalls: {delivery point index: seconds the process stands still}"""
        self.clk, self.dirs, self.stalls, self.st = clk, tuple(dirs), dict(stalls), st
        self.modules, self.dt = modules, tick
        self.handler = self.first = handler
        self.due = None
        self.interval = 0.0
        self.points = 0
        self.armings = []  # [armed at, seconds, delivered at or None]
        self.where = []
        self.unhandled = 0
        self.on_deliver = None

    # -- delivery
    def point(self, where="call"):
        self.points += 1
        s = self.stalls.get(self.points)
        if s is not None:
            self.clk.advance(s)
            self.st.fault("stall")
        self.clk.advance(self.dt)
        if self.due is not None and self.clk.mono >= self.due:
            self.deliver(where)

    def deliver(self, where):
        self.due = self.due + self.interval if self.interval else None
        self.armings[-1][2] = self.clk.mono
        self.where.append(where)
        self.st.fault("alarm")
        if self.on_deliver:
            self.on_deliver(self.armings[-1], where)
        h = self.handler
        if h in (signal.SIG_IGN,):
            return
        if h in (signal.SIG_DFL, None):
            self.unhandled += 1  # the process would be dead now
            return
        h(ALRM, sys._getframe(1))

    # -- tracing: an exception that leaves a trace function switches it off
    def _local(self, frame, event, arg):
        if event == "line":
            self.point(f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_code.co_name}")
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.dirs):
            return self._local
        return None

    def rearm(self):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename.startswith(self.dirs):
                f.f_trace = self._local
            f = f.f_back
        sys.settrace(self._glob)

    # -- the signal module
    def p_signal(self, num, handler):
        if num != ALRM:
            return REAL["signal"](num, handler)
        self.rearm()
        self.point("signal()")  # CPython runs pending handlers first
        old, self.handler = self.handler, handler
        return old

    def p_getsignal(self, num):
        if num != ALRM:
            return REAL["getsignal"](num)
        return self.handler

    def _set(self, seconds, interval=0.0):
        left = max(self.due - self.clk.mono, 0.0) if self.due is not None else 0.0
        old = (left, self.interval)
        pending = self.due is not None and self.clk.mono >= self.due
        self.interval = interval
        if seconds > 0:
            self.due = self.clk.mono + seconds
            self.armings.append([self.clk.mono, seconds, None])
        elif not pending:
            self.due = None
        # a signal that arrived before the call is handled when it returns
        self.point("timer set")
        return old

    def p_alarm(self, seconds):
        self.rearm()
        if not isinstance(seconds, int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(-(-self._set(seconds)[0] // 1))

    def p_setitimer(self, which, seconds, interval=0.0):
        if which != signal.ITIMER_REAL:
            return REAL["setitimer"](which, seconds, interval)
        self.rearm()
        return self._set(float(seconds), float(interval))

    def p_getitimer(self, which):
        if which != signal.ITIMER_REAL:
            return REAL["getitimer"](which)
        return (max(self.due - self.clk.mono, 0.0) if self.due is not None else 0.0, self.interval)

    def __enter__(self):
        self.clk.__enter__()
        self.saved = []
        back = {id(f): n for n, f in REAL.items()}
        tback = {id(f): n for n, f in clock.REAL.items()}
        for n in NAMES:
            self._patch(signal, n, getattr(self, "p_" + n))
        self._patch(timeit, "default_timer", self.clk.perf_counter)
        for m in self.modules:  # names bound by "from time import ..."
            for k, v in list(vars(m).items()):
                if id(v) in back:
                    self._patch(m, k, getattr(self, "p_" + back[id(v)]))
                elif id(v) in tback:
                    self._patch(m, k, getattr(time, tback[id(v)]))
        for n in clock.REAL:
            self._patch(time, n, self._pointed(getattr(time, n)))
        return self

    def _pointed(self, fn):
        def read():
            v = fn()
            self.point("clock read")
            return v

        return read

    def _patch(self, m, k, v):
        self.saved.append((m, k, getattr(m, k)))
        setattr(m, k, v)

    def run(self, fn):
        sys.settrace(self._glob)
        try:
            return fn()
        finally:
            sys.settrace(None)

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            setattr(m, k, v)
        self.clk.__exit__(*a)
