"""Pieces shared by the property modules."""
import copy
import io
import pickle
import contextlib

import numpy as np

from .. import boot, crash, obs, problems
from ..core import Vacuous, Violation, must

DIRS = [boot.GLUM_DIR]
ENV = "glum's Python code and its compiled kernels (rebuilt from /repo's working tree), tabmat, numpy, scipy, scikit-learn, pandas, polars, formulaic"


FNS = ["center(x0)", "scale(x0)", "np.tanh(x0)", "I(x0 * 2)"]


def draw_spec(rng, kinds=("single", "single", "path", "cv"), loose=None, fn=False, **k):
    """`fn`: formulas may transform a column (for checks that need no design matrix)."""
    kind = rng.choice(list(kinds))
    if kind == "single":
        s = problems.gen_spec(rng, **k)
        s["kind"] = "single"
        if loose if loose is not None else rng.random() < 0.7:
            if not s["f32"]:
                s["gradient_tol"] = rng.choice([1e-3, 1e-4])
    else:
        k.pop("small", None)
        s = problems.gen_search_spec(rng, kind, **k)
    if fn and s["storage"] == "formula" and s["p"] and s["seed"] % 10 < 4:
        s["formula_fn"] = FNS[s["seed"] % 40 // 10]
    if fn and s["seed"] % 7 < 2:
        s["cat_rev"] = True  # levels that are not in alphabetical order
    return s


def data(pr):
    y, w, off = pr.yw()
    return pr.X(), y, w, off


def fit(est, pr, **kw):
    X, y, w, off = data(pr)
    return est.fit(X, pr.target(y), sample_weight=w, offset=off, **kw)


def ask(est, pr, inference=True):
    X, y, w, off = data(pr)
    return obs.answers(est, X, y, w, off, inference=inference)


def retarget(est, pr):
    """set_params so that est has exactly the parameters a fresh estimator for
    `pr` would have."""
    fresh = pr.estimator()
    est.set_params(**{k: v for k, v in fresh.get_params(deep=False).items()})
    return est


def silent(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def roundtrip(est, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(est))
    if how == "deepcopy":
        return copy.deepcopy(est)
    if how == "copy":
        return copy.copy(est)
    if how == "pickle2":
        return pickle.loads(pickle.dumps(est, protocol=2))
    raise ValueError(how)


def crash_fit(est, make_probe, pr, at, kind, st, dirs=None):
    """Fit `est`, crashing at fraction `at` of the traced lines of that fit."""
    probe = make_probe()
    dirs = dirs or DIRS
    try:
        _, n = obs.quiet(crash.count, lambda: fit(probe, pr), dirs)[0]
    except Exception:  # noqa: BLE001 - a fit that fails by itself
        return "raise", None
    k = 1 + int(at * (n - 1))
    (out, _, where), _ = obs.quiet(crash.fire, lambda: fit(est, pr), dirs, k, kind)
    if out in ("crash", "swallowed"):
        st.fault("crash " + kind)
        st.state("crash", where, k)
    return out, where
