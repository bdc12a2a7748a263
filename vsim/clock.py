"""A simulated clock: every clock the program can read is replaced."""
import random
import time

REAL = {n: getattr(time, n) for n in ("time", "perf_counter", "monotonic", "process_time", "time_ns", "perf_counter_ns", "monotonic_ns")}

KINDS = ["steady", "frozen", "backwards", "jumps", "huge", "tiny", "leap"]


class Clock:
    """Each reading advances the clock by a step the scheduler chooses.

    `wall` may jump; `mono` never runs backwards unless kind == "wild".
    """

    def __init__(self, kind, seed, st=None, start=1.7e9):
        self.kind, self.r, self.st = kind, random.Random(seed), st
        self.wall, self.mono = start, 1000.0
        self.reads = 0
        self.elapsed = 0.0

    def _step(self):
        k, r = self.kind, self.r
        if k == "frozen":
            return 0.0, 0.0
        d = r.choice([1e-6, 1e-3, 0.02, 0.5])
        if k == "tiny":
            d = 1e-9
        if k == "backwards":
            return -r.choice([0.0, 1e-3, 2.0, 3600.0]), d
        if k == "jumps" and r.random() < 0.3:
            return r.choice([-86400.0, 86400.0, -1e-3, 3.15e7, -1.0]), d
        if k == "huge":
            d = r.choice([1e3, 1e6, 1e9])
        if k == "leap" and r.random() < 0.2:
            return -1.0, d
        return d, d

    def tick(self):
        w, m = self._step()
        self.reads += 1
        self.wall += w
        self.mono += m
        self.elapsed += m
        if self.st is not None and (w < 0 or abs(w) > 1e5):
            self.st.fault("clock jump")

    def advance(self, dt):
        """Work that takes dt simulated seconds."""
        self.wall += dt
        self.mono += dt
        self.elapsed += dt

    def time(self):
        self.tick()
        return self.wall

    def perf_counter(self):
        self.tick()
        return self.mono

    monotonic = process_time = perf_counter

    def time_ns(self):
        return int(self.time() * 1e9)

    def perf_counter_ns(self):
        return int(self.perf_counter() * 1e9)

    monotonic_ns = perf_counter_ns

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in REAL}
        for n in REAL:
            setattr(time, n, getattr(self, n))
        try:
            import tqdm.std as t

            self.tq = (t, t.time)
            t.time = self.time
        except ImportError:
            self.tq = None
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)
        if self.tq:
            self.tq[0].time = self.tq[1]
        if self.st is not None:
            self.st.sim_time += abs(self.elapsed)
