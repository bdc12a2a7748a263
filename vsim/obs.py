"""Exact observation of estimators and inputs.

Numbers are compared up to rounding (RTOL/ATOL): the simulated executions do the
same arithmetic, but memory alignment may change the order of a vectorised sum.

`digest(obj)` is a canonical hash of a value's observable content (array bytes,
dtype, shape, flags that matter to a caller); `observe(est, ...)` is the set of
answers a fitted estimator gives.
"""
import hashlib
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sps

from .core import Violation

_SKIP = {"iteration_runtime", "build_hessian_runtime", "inner_solver_runtime", "line_search_runtime", "quadratic_update_runtime"}


def canon(o, depth=0):
    """A hashable canonical form."""
    if depth > 12:
        return "deep"
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, float):
        return ("float", np.float64(o).tobytes())
    if isinstance(o, np.generic):
        return (o.dtype.str, o.tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("objarr", o.shape, tuple(canon(v, depth + 1) for v in o.ravel().tolist()))
        return ("arr", o.dtype.str, o.shape, hashlib.blake2b(np.ascontiguousarray(o).tobytes(), digest_size=12).hexdigest())
    if sps.issparse(o):
        if o.format in ("csc", "csr"):
            return (o.format, o.shape, canon(o.data), canon(o.indices), canon(o.indptr))
        return (o.format, o.shape, canon(o.toarray()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(canon(v, depth + 1) for v in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(v, depth + 1)) for v in o)))
    if isinstance(o, dict):
        return ("dict", tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in o.items() if k not in _SKIP))
    if isinstance(o, pd.Series):
        return ("series", str(o.dtype), o.name, canon(o.index.to_numpy()), canon_col(o, depth))
    if isinstance(o, pd.DataFrame):
        return ("frame", tuple(map(str, o.columns)), canon(o.index.to_numpy()), tuple(canon(o[c], depth + 1) for c in o.columns))
    mod = type(o).__module__ or ""
    if mod.startswith("polars"):
        import polars as pl

        if isinstance(o, pl.DataFrame):
            return ("pl", tuple(o.columns), tuple(canon(o[c], depth + 1) for c in o.columns))
        if isinstance(o, pl.Series):
            return ("pls", o.name, str(o.dtype), tuple(map(repr, o.to_list())))
    if mod.startswith("tabmat"):
        import tabmat as tm

        if isinstance(o, tm.SplitMatrix):
            return ("split", tuple(canon(m, depth + 1) for m in o.matrices), tuple(canon(np.asarray(i)) for i in o.indices))
        if isinstance(o, tm.CategoricalMatrix):
            return ("catmat", o.shape, str(o.dtype), canon(np.asarray(o.indices)), o.drop_first)
        if isinstance(o, tm.MatrixBase):
            a = o.toarray() if hasattr(o, "toarray") else o.A
            return (type(o).__name__, canon(a))
    if mod.startswith("formulaic") and type(o).__name__ == "Term":
        # it carries the hash of its name, which is the process'
        return ("term", repr(o))
    if isinstance(o, np.random.RandomState):
        s = o.get_state()
        return ("rs", s[0], canon(s[1]), s[2], s[3], s[4])
    if isinstance(o, type) or callable(o):
        return ("callable", getattr(o, "__qualname__", repr(type(o))))
    d = getattr(o, "__dict__", None)
    if d is not None:
        return (type(o).__qualname__, tuple((k, canon(v, depth + 1)) for k, v in sorted(d.items())))
    return (type(o).__qualname__, "?")


def canon_col(s, depth=0):
    if isinstance(s.dtype, pd.CategoricalDtype):
        return ("cat", canon(s.cat.codes.to_numpy()), tuple(map(str, s.cat.categories)), bool(s.cat.ordered))
    return canon(s.to_numpy(), depth + 1)


def digest(o):
    return hashlib.blake2b(repr(canon(o)).encode(), digest_size=12).hexdigest()


def quiet(fn, *a, **k):
    """(value, [(category, message)])"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = fn(*a, **k)
    return v, [(x.category.__name__, str(x.message)) for x in w]


def convergence_warnings(ws):
    return [m for c, m in ws if c in ("ConvergenceWarning",) or "converge" in m.lower() or "lbfgs" in m.lower()]


def outcome(fn, *a, **k):
    """Canonical outcome of a call: value or exception, with its warnings."""
    try:
        v, ws = quiet(fn, *a, **k)
        return ("ok", v, ws)
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "FactorEvaluationError":
            # formulaic names any one of the missing variables, as the hash seed has it
            return ("raise", "FactorEvaluationError", [])
        return ("raise", f"{type(e).__name__}: {e}"[:300], [])


def fitted_attrs(est):
    return {k: v for k, v in sorted(vars(est).items()) if k.endswith("_") and not k.startswith("__")}


ATTRS = [
    "coef_", "intercept_", "n_iter_", "coef_path_", "intercept_path_", "alpha_", "alphas_", "l1_ratio_",
    "deviance_path_", "train_deviance_path_", "covariance_matrix_", "col_means_", "col_stds_",
    "feature_names_", "term_names_", "n_features_in_",
]


def answers(est, X, y=None, w=None, off=None, inference=True, extra=()):
    """Everything a user can ask a fitted estimator, as canonical outcomes."""
    out = {}
    for a in ATTRS:
        out["attr " + a] = ("ok", getattr(est, a), []) if hasattr(est, a) else ("absent",)
    out["predict"] = outcome(est.predict, X, offset=off)
    out["linear_predictor"] = outcome(est.linear_predictor, X, offset=off)
    if hasattr(est, "coef_path_") and (getattr(est, "alpha_search", False) or hasattr(est, "alpha_")):
        out["predict path"] = outcome(est.predict, X, offset=off, alpha_index=[0])
    out["family"] = ("ok", (type(est.family_instance).__name__, type(est.link_instance).__name__), [])
    out["categories"] = outcome(lambda: est.categorical_levels_)
    if y is not None:
        if w is None or np.ndim(w) == 1:
            out["score"] = outcome(est.score, X, y, sample_weight=w, offset=off)
        if inference:
            out["cov"] = outcome(est.covariance_matrix, X=X, y=y, sample_weight=w, offset=off)
            out["cov nonrobust"] = outcome(est.covariance_matrix, X=X, y=y, sample_weight=w, offset=off, robust=False)
            out["table"] = outcome(est.coef_table, X=X, y=y, sample_weight=w, offset=off)
            for c in ("aic", "aicc", "bic"):
                if hasattr(est, c):
                    out[c] = outcome(getattr(est, c), X, y, sample_weight=w)
    out["diag"] = outcome(lambda: _diag(est))
    return out


def _diag(est):
    d = getattr(est, "diagnostics_", None)
    if not isinstance(d, list):
        return d
    return [{k: v for k, v in row.items() if k not in _SKIP} for row in d]


RTOL, ATOL = 1e-9, 1e-11


def compare(got, want, what, ignore=(), rtol=RTOL, atol=ATOL, warns=True):
    """Raise Violation at the first answer that differs."""
    for k in want:
        if k in ignore:
            continue
        a, b = got.get(k), want[k]
        if a is None:
            raise Violation(f"{what}: {k} missing", key=f"{what}:{k}")
        if a[0] != b[0]:
            raise Violation(f"{what}: {k} gives {short(a)} instead of {short(b)}", key=f"{what}:{k}")
        if a[0] == "absent":
            continue
        if not same(a[1], b[1], rtol, atol):
            raise Violation(f"{what}: {k} gives {short(a[1])} instead of {short(b[1])}", key=f"{what}:{k}")
        if a[0] == "ok" and warns and sorted(set(a[2])) != sorted(set(b[2])):
            raise Violation(f"{what}: {k} warns {a[2]} instead of {b[2]}", key=f"{what}:{k}:warn")


def same(a, b, rtol=RTOL, atol=ATOL):
    if repr(canon(a)) == repr(canon(b)):
        return True
    if rtol == 0.0 and atol == 0.0:
        return False
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object:
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
            return False
        return same(a.to_numpy(float), b.to_numpy(float), rtol, atol)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        return all(same(a[k], b[k], rtol, atol) for k in a)
    return repr(canon(a)) == repr(canon(b))


def short(v):
    s = repr(v).replace("\n", " ")
    return s if len(s) < 160 else s[:157] + "..."
