"""C05: calls never modify what the caller owns, at any crash point."""
import copy
import warnings

import numpy as np
import scipy.sparse as sps

from .. import crash, obs, problems
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import common as C

PROP = "C05"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = "distinct (kind, storage, family, operation, outcome, crash site) tuples reached with every owned object fingerprinted before and after"
REAL = C.ENV
STUB = "the caller is simulated; crashes are exceptions raised at a simulator-chosen traced line of glum"

OPS = ["predict", "linear_predictor", "score", "cov", "cov_clusters", "table", "wald", "ic", "std", "get_params", "diag", "refit", "coef_table_nodata"]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "path", "cv"))
    if rng.random() < 0.3 and sp["storage"] not in ("formula",):
        sp["constraint"] = rng.choice(["ineq", "ineq"]) if not sp["f32"] else None
    if sp.get("constraint"):
        sp.update(lower=None, upper=None, l1_ratio=0.0, alpha=max(sp["alpha"], 0.05), solver="auto", l1_list=None, n=min(sp["n"], 40))
        if sp["kind"] != "single":
            sp["alphas"] = [0.5, 0.1]
    if 0 < sp["l1_ratio"] < 1 and not sp.get("constraint") and not sp.get("l1_list") and rng.random() < 0.25:
        # nothing left to multiply the caller's penalties with
        sp.update(l1_ratio=1.0, P1="vec")
    ops = [[rng.choice(OPS), rng.random() < 0.5, rng.random(), rng.choice(["interrupt", "memory"])] for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2 and sp["l1_ratio"] > 0 and not sp.get("constraint"):
        sp["max_iter"] = rng.choice([1, 2])
    return dict(
        spec=sp,
        start=rng.choice([None, None, "start", "warm"]),
        famobj=rng.random() < 0.5,
        fitcrash=[rng.random(), rng.choice(["interrupt", "memory"])] if rng.random() < 0.6 else None,
        bad=rng.choice([None] * 9 + ["short_y", "nan_w", "bad_off"]),
        copyx=rng.choice([None, None, True, False]),
        ops=ops,
        clusters=rng.random() < 0.3,
        readonly=rng.random() < 0.25 or plain_normal(rng, sp),
        noncontig=rng.random() < 0.2,
        context=rng.random() < 0.3,
        scalar_w=rng.random() < 0.1,
        selection=rng.choice(["cyclic", "cyclic", "random"]),
    )


def plain_normal(rng, sp):
    """Now and then what the closed form solves, with an offset and data nobody may write to."""
    if sp["kind"] != "single" or sp["f32"] or rng.random() > 0.1:
        return False
    sp.update(family="normal", link="auto", l1_ratio=0.0, solver="auto", lower=None, upper=None, offset=True, constraint=None)
    return rng.random() < 0.6


def ro(o):
    """Make the buffers of o read-only, as memory-mapped data would be."""
    if isinstance(o, np.ndarray):
        o.flags.writeable = False
    elif sps.issparse(o) and o.format in ("csc", "csr"):
        for a in (o.data, o.indices, o.indptr):
            a.flags.writeable = False
    return o


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    X, y, w, off = C.data(pr)
    if plan["copyx"] is not None:
        sp = {**sp, "copy_X": plan["copyx"]}
    if plan["noncontig"] and isinstance(X, np.ndarray) and sp["copy_X"] is not False:
        big = np.zeros((2 * X.shape[0], X.shape[1]), dtype=X.dtype)
        big[::2] = X
        X = big[::2]
    if plan["noncontig"]:
        yy = np.zeros(2 * len(y))
        yy[::2] = y
        y = yy[::2]
    over = dict(copy_X=sp["copy_X"], selection=plan["selection"] if sp["l1_ratio"] > 0 else "cyclic")
    k = pr.k
    r = np.random.default_rng(sp["seed"] + 1)
    if plan["famobj"]:
        from glum._glm import get_family, get_link

        fam = pr.kwargs()["family"]
        fam = get_family(fam) if isinstance(fam, str) else fam
        over["family"] = fam
        over["link"] = get_link(sp["link"], fam)
    if sp.get("constraint"):
        over["A_ineq"] = r.normal(size=(2, k))
        over["b_ineq"] = np.array([0.5, 0.7])
    if plan["start"]:
        over["start_params"] = r.normal(size=k + bool(sp["fit_intercept"])) * 0.05
        if plan["start"] == "warm":
            over["warm_start"] = True
    est = pr.estimator(**over)
    clusters = r.integers(0, 4, len(y)) if plan["clusters"] else None
    if plan["scalar_w"]:
        w = 1.0
    ctx = {"helper": np.arange(3.0)} if plan["context"] else None
    if plan["bad"] == "short_y":
        y = y[:-1].copy()
    elif plan["bad"] == "nan_w":
        w = np.ones(len(y))
        w[1] = np.nan
    elif plan["bad"] == "bad_off":
        off = np.ones(len(y) + 1)
    target = y if plan["bad"] == "short_y" else pr.target(y)
    if plan["readonly"]:
        for o in (X, y, w, off, clusters):
            ro(o)
        for v in est.get_params(deep=False).values():
            ro(v)
    owned = dict(X=X, y=y, sample_weight=w, offset=off, clusters=clusters, context=ctx)
    params0 = dict(est.get_params(deep=False))
    handed = {}

    def snap():
        d = {"arg " + n: obs.digest(v) for n, v in owned.items() if v is not None}
        d.update({"param " + n: obs.digest(v) for n, v in params0.items()})
        d.update({"param identity " + n: id(v) for n, v in est.get_params(deep=False).items()})
        d.update({"returned " + n: obs.digest(v) for n, v in handed.items()})
        d["random state"] = obs.digest(np.random.get_state())
        d["errstate"] = repr(np.geterr())
        d["filters"] = repr(warnings.filters)
        return d

    def guarded(label, fn, crash_at=None, kind=None, probe=None):
        before = snap()
        site = None
        if crash_at is None:
            o = _run(fn)
        else:
            try:
                n = crash.count(probe or (lambda: fn()), C.DIRS)[1]
            except Exception:  # noqa: BLE001
                n = None
            after_probe = snap()
            _check(label + " (failed)" if n is None else label, before, after_probe)
            if n is None:
                return None
            out, val, site = crash.fire(fn, C.DIRS, 1 + int(crash_at * (n - 1)), kind)
            if out in ("crash", "swallowed"):
                st.fault("crash " + kind)
            o = (out, val)
        _check(f"{label}" + (f" crashed at {site}" if site else "") + (f" ({o[0]})" if o[0] == "raise" else ""), before, snap())
        st.state(sp["kind"], sp["storage"], sp["family"], label, o[0], site)
        st.count("op " + label)
        st.steps += 1
        return o[1] if o[0] == "ok" else None

    def _check(label, a, b):
        for n in a:
            if a[n] != b.get(n):
                raise Violation(f"{label} modified {n}", key=f"{label.split(' ')[0]} modified {n}")

    def _run(fn):
        try:
            return ("ok", fn())
        except Exception as e:  # noqa: BLE001
            # ("buffer source array is read-only" is a compiled routine declining
            # to take the buffer at all, which modifies nothing)
            if plan["readonly"] and "read-only" in str(e) and "buffer source" not in str(e):
                raise Violation(f"a call wrote to a read-only input: {e}", key="read-only") from e
            return ("raise", e)

    fitkw = dict(sample_weight=w, offset=off)
    if ctx is not None:
        fitkw["context"] = ctx
    seeded = not (plan["selection"] == "random" and est.random_state is None)
    assert seeded
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if plan["fitcrash"]:
            def probe():
                est2 = type(est)(**params0)
                return est2.fit(X, target, **fitkw)

            guarded("fit", lambda: est.fit(X, target, **fitkw), *plan["fitcrash"], probe=probe)
            st.nontrivial = True
        guarded("fit", lambda: est.fit(X, target, **fitkw))
        if not hasattr(est, "coef_"):
            if plan["bad"]:
                st.fault("rejected fit")
                return
            raise Vacuous("fit failed")
        handed["coef_"] = est.coef_
        for a in ("coef_path_", "covariance_matrix_", "deviance_path_", "alphas_", "feature_names_"):
            if isinstance(getattr(est, a, None), (np.ndarray, list)):
                handed[a] = getattr(est, a)
        X2 = pr.X()
        owned["X2"] = X2
        y2, w2, off2 = pr.yw()
        owned.update(y2=y2, w2=w2, off2=off2)
        if plan["readonly"]:
            for o in (X2, y2, w2, off2):
                ro(o)
        names = {
            "predict": lambda: est.predict(X2, offset=off2, sample_weight=w2),
            "linear_predictor": lambda: est.linear_predictor(X2, offset=off2),
            "score": lambda: est.score(X2, y2, sample_weight=w2, offset=off2),
            "cov": lambda: est.covariance_matrix(X=X2, y=y2, sample_weight=w2, offset=off2),
            "cov_clusters": lambda: est.covariance_matrix(X=X2, y=y2, sample_weight=w2, offset=off2, clusters=np.arange(len(y2)) % 5),
            "table": lambda: est.coef_table(X=X2, y=y2, sample_weight=w2, offset=off2),
            "wald": lambda: est.wald_test(R=np.eye(k + bool(sp["fit_intercept"]))[:1], X=X2, y=y2, sample_weight=w2, offset=off2),
            "ic": lambda: est.aic(X2, y2, sample_weight=w2),
            "std": lambda: est.std_errors(X=X2, y=y2, sample_weight=w2, offset=off2),
            "get_params": lambda: copy.deepcopy(est.get_params()),
            "diag": lambda: C.silent(est.report_diagnostics),
            "coef_table_nodata": lambda: est.coef_table(),
        }
        for j, (op, crashing, at, kind) in enumerate(plan["ops"]):
            if op == "refit":
                # a refit may replace what the model holds, but not what it handed out
                def refit():
                    return est.fit(X2, pr.target(y2), sample_weight=w2, offset=off2, clusters=clusters, store_covariance_matrix=True)

                def probe():
                    est2 = copy.deepcopy(est)
                    return est2.fit(X2, pr.target(y2), sample_weight=w2, offset=off2, clusters=clusters, store_covariance_matrix=True)

                o = guarded("refit", refit, at if crashing else None, kind, probe)
            else:
                o = guarded(op, names[op], at if crashing else None, kind)
                if isinstance(o, np.ndarray):
                    handed[f"{op}#{j}"] = o
                if op == "table" or op == "cov":
                    if o is not None:
                        handed[f"{op}#{j}"] = o
        st.nontrivial = st.nontrivial or bool(plan["ops"])


def shrink(plan):
    for ops in drop_items(plan["ops"]):
        yield {**plan, "ops": ops}
    for k, v in dict(start=None, famobj=False, fitcrash=None, bad=None, copyx=None, clusters=False, readonly=False, noncontig=False, context=False, scalar_w=False, selection="cyclic").items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
