"""Crash points: count and fire exceptions at traced line events.

`count(fn)` runs fn and counts yield points; `fire(fn, k, exc)` runs fn and
raises `exc` just before the k-th traced line executes, which is where the
interpreter would deliver a KeyboardInterrupt or where an allocation made by
that line would fail.
"""
import ast
import functools
import sys


class Injected:
    """Marks exceptions made by the simulator."""


class InjInterrupt(KeyboardInterrupt, Injected):
    pass


class InjMemory(MemoryError, Injected):
    pass


class InjOS(OSError, Injected):
    pass


KINDS = {"interrupt": InjInterrupt, "memory": InjMemory, "oserror": InjOS}


@functools.lru_cache(None)
def headers(path):
    """Lines of `with` headers: leaving a block revisits them, outside its protection.

    No Python code can clean up after an exception there, so none is injected.
    """
    try:
        with open(path) as fh:
            tree = ast.parse(fh.read())
    except (OSError, SyntaxError, ValueError):
        return frozenset()
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, max(node.body[0].lineno, node.lineno + 1)))
    return frozenset(out)


class Tracer:
    def __init__(self, dirs, k=None, exc=None, record=False):
        self.dirs = tuple(dirs)
        self.k = k
        self.exc = exc
        self.n = 0
        self.where = None
        self.sites = [] if record else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.sites is not None:
                self.sites.append((frame.f_code.co_name, frame.f_lineno))
            if self.k is not None and self.n >= self.k and frame.f_lineno not in headers(frame.f_code.co_filename):
                self.k = None
                self.where = f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_code.co_name}"
                raise self.exc
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.dirs):
            return self._local
        return None

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._glob)
        try:
            return fn()
        finally:
            sys.settrace(old)


def count(fn, dirs):
    t = Tracer(dirs)
    out = t.run(fn)
    return out, t.n


def fire(fn, dirs, k, kind):
    """Return (outcome, value, where); outcome is "crash", "raise" or "ok"."""
    exc = KINDS[kind]("injected")
    t = Tracer(dirs, k, exc)
    try:
        v = t.run(fn)
        return ("ok" if t.where is None else "swallowed"), v, t.where
    except Exception as e:  # noqa: BLE001
        return ("crash" if isinstance(e, Injected) else "raise"), e, t.where
    except KeyboardInterrupt as e:
        if not isinstance(e, Injected):
            raise
        return "crash", e, t.where
