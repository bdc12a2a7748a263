"""Faults of the numerical libraries glum calls, injected from outside."""
import contextlib

import numpy as np
import scipy.linalg as sla


class SimLinAlgError(sla.LinAlgError):
    pass


class LinalgFaults:
    """Makes chosen calls of scipy.linalg's solvers fail or be inaccurate.

    `faults`: list of [call_index, kind, amount]; call_index -1 means every call.
    """

    NAMES = ("solve", "lstsq", "cho_solve", "cho_factor", "inv")

    def __init__(self, faults, seed, st=None):
        self.faults, self.r, self.st = faults, np.random.default_rng(seed), st
        self.calls = 0
        self.fired = 0

    def _wrap(self, name, fn):
        def g(*a, **k):
            i = self.calls
            self.calls += 1
            for at, kind, amount in self.faults:
                if at == i or at == -1:
                    self.fired += 1
                    if self.st is not None:
                        self.st.fault("linalg " + kind)
                    if kind == "raise":
                        raise SimLinAlgError("simulated failure of the linear solver")
                    if kind == "nomem":
                        raise MemoryError("simulated")
                    out = fn(*a, **k)
                    if isinstance(out, tuple):
                        return (self._bend(out[0], kind, amount),) + tuple(out[1:])
                    return self._bend(out, kind, amount)
            return fn(*a, **k)

        return g

    def _bend(self, v, kind, amount):
        v = np.array(v)
        if not np.issubdtype(v.dtype, np.floating):
            return v
        if kind == "noise":
            return v * (1 + amount * self.r.normal(size=v.shape)).astype(v.dtype)
        if kind == "scale":
            return v * v.dtype.type(amount)
        if kind == "flip":
            return -v
        if kind == "zero":
            return np.zeros_like(v)
        if kind == "garbage":
            return (self.r.normal(size=v.shape) * amount).astype(v.dtype)
        if kind == "nan":
            v.flat[self.r.integers(v.size)] = np.nan
            return v
        return v

    def __enter__(self):
        self.old = {n: getattr(sla, n) for n in self.NAMES}
        for n, f in self.old.items():
            setattr(sla, n, self._wrap(n, f))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(sla, n, f)


@contextlib.contextmanager
def inexact_hessian(amount, seed, st=None):
    """tabmat's sandwich products come out with their diagonal inflated."""
    import tabmat as tm

    r = np.random.default_rng(seed)
    cls = tm.StandardizedMatrix
    old = cls.sandwich

    def sandwich(self, *a, **k):
        out = old(self, *a, **k)
        if st is not None:
            st.fault("inexact hessian")
        out = np.array(out)
        i = np.arange(out.shape[0])
        out[i, i] *= (1 + amount * r.random(out.shape[0])).astype(out.dtype)
        return out

    cls.sandwich = sandwich
    try:
        yield
    finally:
        cls.sandwich = old


@contextlib.contextmanager
def dirty_memory(seed, st=None):
    """Memory that numpy hands out uninitialised holds garbage."""
    r = np.random.default_rng(seed)
    junk = [np.nan, 1e300, -3.25, np.inf]
    oe, oel = np.empty, np.empty_like

    def fill(a):
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            if np.issubdtype(a.dtype, np.floating):
                with np.errstate(all="ignore"):
                    a.fill(a.dtype.type(junk[int(r.integers(len(junk)))]))
            elif np.issubdtype(a.dtype, np.signedinteger):
                a.fill(1)
        if st is not None:
            st.fault("dirty allocation")
        return a

    def empty(*a, **k):
        return fill(oe(*a, **k))

    def empty_like(*a, **k):
        return fill(oel(*a, **k))

    np.empty, np.empty_like = empty, empty_like
    try:
        yield
    finally:
        np.empty, np.empty_like = oe, oel
