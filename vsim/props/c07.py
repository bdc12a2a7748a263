"""C07: queries are reads, also when they fail or are cut short."""
import copy
import pickle
import warnings

import numpy as np
import pandas as pd

from .. import crash, obs, problems
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import common as C

PROP = "C07"
LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 60000}
RULE = "distinct (kind, storage, family, query, outcome, crash site) tuples reached before the model was asked again"
REAL = C.ENV
STUB = "the clients are simulated; crashes are exceptions raised at a simulator-chosen traced line of glum, tabmat or formulaic's Python code"
ASSUME = ["an explicit store_covariance_matrix=True is a write the caller asked for: the stored matrix is the only thing it may change"]

QUERIES = [
    "predict", "linear_predictor", "score", "cov", "cov_nonrobust", "cov_clusters", "std", "table", "wald_R", "wald_features",
    "aic", "bic", "aicc", "diag", "report", "params", "pickle", "deepcopy", "copy", "clone", "repr", "predict_path",
    "names", "store_cov", "categories", "predict_index", "predict_alpha", "predict_last", "eta_alphas", "wald_terms", "score_plain",
]
DATA = ["train", "train", "rows", "one", "other_cats", "unknown_cat", "missing_cat", "missing_col", "extra_col", "nan", "wrong_width", "empty", "perm_cols", "objects", "no_weights", "double_weights", "double_weights", "other_y"]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "path", "cv"), fn=True, storage=rng.choice([None, problems.DF_STORAGE]))
    ops = [
        [rng.choice(QUERIES), rng.choice(DATA), rng.random() if rng.random() < 0.45 else None, rng.choice(["interrupt", "memory"])]
        for _ in range(rng.randint(1, 7))
    ]
    return dict(spec=sp, ops=ops, store_cov=rng.random() < 0.3, cat_missing=rng.choice(["fail", "zero", "convert"]), reverse=rng.random() < 0.5, deepdirs=rng.random() < 0.3)


def build(plan):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    est = pr.estimator(cat_missing_method=pr.na or plan["cat_missing"])
    X, y, w, off = C.data(pr)
    est.fit(X, pr.target(y), sample_weight=w, offset=off, store_covariance_matrix=plan["store_cov"])
    return pr, est


def questions(est, pr, reverse=False):
    """All answers, in either order of asking."""
    sp = pr.spec
    X, y, w, off = C.data(pr)
    rows = np.arange(0, sp["n"], 2)
    X2 = pr.X(rows)
    y2, w2, off2 = pr.yw(rows)
    k = len(est.coef_) + bool(sp["fit_intercept"])
    qs = [
        ("predict", lambda: est.predict(X, offset=off)),
        ("predict rows", lambda: est.predict(X2, offset=off2)),
        ("eta", lambda: est.linear_predictor(X, offset=off)),
        ("score", lambda: est.score(X, y, sample_weight=w, offset=off)),
        ("score rows", lambda: est.score(X2, y2, sample_weight=w2, offset=off2)),
        ("cov", lambda: est.covariance_matrix(X=X, y=y, sample_weight=w, offset=off)),
        ("cov expected", lambda: est.covariance_matrix(X=X, y=y, sample_weight=w, offset=off, robust=True, expected_information=True)),
        ("cov nonrobust", lambda: est.covariance_matrix(X=X, y=y, sample_weight=w, offset=off, robust=False)),
        ("cov stored", lambda: est.covariance_matrix()),
        ("table stored", lambda: est.coef_table()),
        ("table", lambda: est.coef_table(X=X, y=y, sample_weight=w, offset=off)),
        ("std", lambda: est.std_errors(X=X, y=y, sample_weight=w, offset=off)),
        ("wald", lambda: tuple(est.wald_test(R=np.eye(k)[:1], X=X, y=y, sample_weight=w, offset=off))),
        ("aic", lambda: est.aic(X, y, sample_weight=w)),
        ("bic", lambda: est.bic(X, y, sample_weight=w)),
        ("aicc", lambda: est.aicc(X, y, sample_weight=w)),
        ("bic unweighted", lambda: est.bic(X, y)),
        ("diag", lambda: obs._diag(est)),
        ("fmt", lambda: _fmt(est)),
        ("categories", lambda: est.categorical_levels_),
        ("family", lambda: (type(est.family_instance).__name__, type(est.link_instance).__name__)),
        ("params", lambda: {n: obs.digest(v) for n, v in est.get_params(deep=False).items()}),
        ("path", lambda: est.predict(X, offset=off, alpha_index=[0])),
    ]
    for a in obs.ATTRS:
        qs.append(("attr " + a, lambda a=a: getattr(est, a)))
    if reverse:
        qs = qs[::-1]
    return {n: obs.outcome(f) for n, f in qs}


def _fmt(est):
    d = est.get_formatted_diagnostics(full_report=True)
    return d if isinstance(d, str) else sorted(c for c in d.columns if not c.endswith("runtime"))


def variant(pr, what, r):
    """(X, y, w, off) for a query: valid, odd or invalid."""
    n = pr.spec["n"]
    rows = None
    if what == "rows":
        rows = r.permutation(n)[: max(3, n // 3)]
    if what == "one":
        rows = np.array([int(r.integers(n))])
    if what in ("shuffled", "backwards"):
        rows = r.permutation(n) if what == "shuffled" else np.arange(n)[::-1]
    if what == "empty":
        rows = np.array([], dtype=int)
    X, (y, w, off) = pr.X(rows), pr.yw(rows)
    if what == "no_weights":
        w = off = None
    elif what == "double_weights":
        # other weights with the same weighted mean of the target
        w = 2.0 * (np.ones(n) if w is None else w)
    elif what == "other_y":
        # another target with the same mean and, for most families, a legal one
        y = y[::-1].copy()
    is_pd = isinstance(X, pd.DataFrame)
    cats = [c for c in X.columns if c.startswith("c")] if is_pd else []
    if what == "other_cats" and cats:
        c = cats[0]
        X[c] = pd.Categorical(X[c].astype(object), categories=sorted(set(X[c].dropna().astype(str)), reverse=True) + ["zz"])
    elif what == "unknown_cat" and cats:
        v = np.array(X[cats[0]].astype(object).tolist(), dtype=object)
        v[0] = "never seen"
        X[cats[0]] = pd.Categorical(v)
    elif what == "missing_cat" and cats:
        v = np.array(X[cats[0]].astype(object).tolist(), dtype=object)
        v[0] = None
        X[cats[0]] = pd.Categorical(v, categories=X[cats[0]].cat.categories)
    elif what == "objects" and cats:
        X[cats[0]] = X[cats[0]].astype(object)
    elif what == "missing_col" and is_pd and X.shape[1] > 1:
        X = X[X.columns[1:]]
    elif what == "extra_col" and is_pd:
        X["extra"] = 1.0
    elif what == "perm_cols" and is_pd:
        X = X[X.columns[::-1]]
    elif what == "nan" and is_pd:
        X.iloc[0, 0] = np.nan
    elif what == "nan" and isinstance(X, np.ndarray):
        X[0, 0] = np.nan
    elif what == "wrong_width" and isinstance(X, np.ndarray):
        X = X[:, :-1]
    return X, y, w, off


def query(est, pr, q, X, y, w, off):
    k = len(est.coef_) + bool(pr.spec["fit_intercept"])
    inf = dict(X=X, y=y, sample_weight=w, offset=off)
    if q == "predict":
        return est.predict(X, offset=off, sample_weight=w)
    if q == "predict_path":
        return est.predict(X, offset=off, alpha_index=[0, 1])
    if q in ("predict_index", "predict_last"):
        return est.predict(X, offset=off, alpha_index=0 if q == "predict_index" else -1)
    if q in ("predict_alpha", "eta_alphas"):
        a = getattr(est, "_alphas", None)
        a = est.alpha_ if a is None and hasattr(est, "alpha_") else a
        a = np.atleast_1d(np.asarray(pr.spec["alpha"] if a is None else a, float)).ravel()
        if q == "predict_alpha":
            return est.predict(X, offset=off, alpha=float(a[len(a) // 2]))
        return est.linear_predictor(X, offset=off, alpha=a[::-1][:2])
    if q == "score_plain":
        return est.score(X, y)
    if q == "wald_terms":
        return est.wald_test(terms=[(getattr(est, "term_names_", None) or est.feature_names_)[-1]], **inf)
    if q == "linear_predictor":
        return est.linear_predictor(X, offset=off)
    if q == "score":
        return est.score(X, y, sample_weight=w, offset=off)
    if q == "cov":
        return est.covariance_matrix(**inf)
    if q == "cov_nonrobust":
        return est.covariance_matrix(**inf, robust=False, expected_information=True)
    if q == "cov_clusters":
        return est.covariance_matrix(**inf, clusters=np.arange(len(y)) % 4)
    if q == "std":
        return est.std_errors(**inf, dispersion=2.5)
    if q == "table":
        return est.coef_table(**inf, confidence_level=0.5)
    if q == "wald_R":
        return est.wald_test(R=np.eye(k)[:2], r=np.ones(min(2, k)), **inf)
    if q == "wald_features":
        return est.wald_test(features=[est.feature_names_[0]], values=[0.3], **inf)
    if q in ("aic", "bic", "aicc"):
        return getattr(est, q)(X, y, sample_weight=w)
    if q == "diag":
        return est.get_formatted_diagnostics(custom_columns=["first_coef"])
    if q == "report":
        return C.silent(est.report_diagnostics, full_report=True)
    if q == "params":
        return est.get_params()
    if q == "pickle":
        return pickle.loads(pickle.dumps(est))
    if q == "deepcopy":
        return copy.deepcopy(est)
    if q == "copy":
        # a shallow copy that is then refitted must not disturb the original
        c = copy.copy(est)
        X0, y0, w0, off0 = C.data(pr)
        return c.fit(X0, pr.target(y0[::-1].copy()), sample_weight=w0, offset=off0)
    if q == "clone":
        from sklearn.base import clone

        return clone(est)
    if q == "repr":
        return repr(est), str(est)
    if q == "names":
        return est.feature_names_, getattr(est, "term_names_", None)
    if q == "categories":
        return est.categorical_levels_
    if q == "store_cov":
        return est.covariance_matrix(**inf, store_covariance_matrix=True)
    raise ValueError(q)


def execute(plan, st):
    sp = plan["spec"]
    r = np.random.default_rng(sp["seed"] + 5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            pr, twin = build(plan)
        except Exception as e:  # noqa: BLE001
            raise Vacuous(str(e)) from e
        _, est = build(plan)
    want = questions(twin, pr)
    # asking twice gives the same answers (in the reverse order as well)
    obs.compare(questions(twin, pr, reverse=plan["reverse"]), want, "asked a second time")
    from .. import boot

    dirs = list(C.DIRS)
    if plan["deepdirs"]:
        import formulaic
        import os
        import tabmat

        dirs += [os.path.dirname(tabmat.__file__) + os.sep, os.path.dirname(formulaic.__file__) + os.sep]
    stored = False
    hist = []
    for q, d, at, kind in plan["ops"]:
        X, y, w, off = variant(pr, d, r)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            site = None
            if at is None:
                o = obs.outcome(query, est, pr, q, X, y, w, off)[0]
            else:
                other = copy.deepcopy(est)
                try:
                    n = crash.count(lambda: query(other, pr, q, X, y, w, off), dirs)[1]
                except Exception:  # noqa: BLE001
                    n = 40
                X, y, w, off = variant(pr, d, r)
                o, _, site = crash.fire(lambda: query(est, pr, q, X, y, w, off), dirs, 1 + int(at * max(0, n - 1)), kind)
                if o in ("crash", "swallowed"):
                    st.fault("crash " + kind)
        if o == "raise":
            st.fault("rejected query")
        if q == "store_cov" and o in ("ok", "swallowed", "crash"):
            stored = True
        hist.append((q, d, o, site))
        st.state(sp["kind"], sp["storage"], sp["family"], q, o, site)
        st.count("query " + q)
        st.steps += 1
    ignore = ("attr covariance_matrix_", "cov stored", "table stored", "cov", "cov expected", "cov nonrobust", "table", "std", "wald") if stored else ()
    got = questions(est, pr)
    obs.compare(got, want, "after queries", ignore=[i for i in ignore if i in ("attr covariance_matrix_", "cov stored", "table stored")])
    st.nontrivial = bool(hist)


def shrink(plan):
    for ops in drop_items(plan["ops"]):
        yield {**plan, "ops": ops}
    for k, v in dict(store_cov=False, cat_missing="fail", reverse=False, deepdirs=False).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
    for j, (q, d, at, kind) in enumerate(plan["ops"]):
        if at is not None:
            yield {**plan, "ops": plan["ops"][:j] + [[q, d, None, kind]] + plan["ops"][j + 1 :]}
