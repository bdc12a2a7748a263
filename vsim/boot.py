"""Process set-up shared by every check: environment, import path, extensions.

Must be imported before numpy.  All thread pools of third-party libraries are
pinned to one thread: their scheduling is not under the simulator's control, so
it is removed.  The OpenMP regions of glum itself are simulated (variant "omp").
"""
import os
import sys

for _v in (
    "OMP_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "MKL_NUM_THREADS",
    "NUMEXPR_NUM_THREADS",
    "NUMEXPR_MAX_THREADS",
    "BLIS_NUM_THREADS",
    "POLARS_MAX_THREADS",
):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import importlib.abc
import importlib.machinery
import importlib.util

from . import build as _build

REPO = _build.REPO
VERIF = _build.VERIF
GLUM_DIR = str(REPO / "src" / "glum") + os.sep
BENCH_DIR = str(REPO / "glum_benchmarks") + os.sep

_loaded = {}


class _ExtFinder(importlib.abc.MetaPathFinder):
    """Serve glum's compiled modules from the build directory."""

    def __init__(self, directory):
        self.directory = directory

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("glum."):
            return None
        stem = fullname.rsplit(".", 1)[1]
        for suffix in importlib.machinery.EXTENSION_SUFFIXES:
            p = self.directory / (stem + suffix)
            if p.exists():
                loader = importlib.machinery.ExtensionFileLoader(fullname, str(p))
                return importlib.util.spec_from_file_location(
                    fullname, str(p), loader=loader
                )
        return None


def boot(variant="plain", bench=False):
    """Build and import glum from /repo; returns the glum module."""
    if "glum" in _loaded:
        return _loaded["glum"]
    directory = _build.build(variant)
    if variant == "omp":
        from .omp import runtime

        runtime.load(directory / "simgomp.so")
    from . import locks

    locks.install()
    sys.path.insert(0, str(REPO / "src"))
    if bench:
        sys.path.insert(1, str(REPO))
    sys.meta_path.insert(0, _ExtFinder(directory))
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import glum

    assert os.path.dirname(glum.__file__) + os.sep == GLUM_DIR, glum.__file__
    _loaded["glum"] = glum
    _loaded["variant"] = variant
    return glum
