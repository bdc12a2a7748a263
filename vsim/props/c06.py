"""C06: what a fit produces does not depend on the estimator's history."""
import numpy as np

from .. import obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import common as C

PROP = "C06"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 40000}
RULE = (
    "a state is the digest of (estimator class, history operations with their outcomes and crash sites, "
    "final problem's family/storage/solver); distinct states are counted"
)
REAL = C.ENV
STUB = "the caller: a simulated client issues the history; crashes are exceptions raised at a simulator-chosen traced line of glum"
ASSUME = ["a crash is an exception delivered between two Python lines of glum; process death without unwinding is C08's subject"]

OPS = ["fit", "fit", "crash", "crash", "bad", "ask", "cov", "trip", "params", "clone_params"]
SETTINGS = ["solver", "solver", "alpha", "l1_ratio", "P1", "P2", "family", "fit_intercept", "lower", "upper", "gradient_tol", "scale_predictors", "hessian_approx", "selection", "max_iter", "weights"]
ALTER = {
    "solver": ["lbfgs", "irls-cd", "irls-ls", "auto"],
    "alpha": [0.0, 0.01, 0.3],
    "l1_ratio": [0.0, 0.0, 0.5],
    "P1": [None, "identity", "mask", "vec"],
    "P2": [None, "vec"],
    "fit_intercept": [True, False],
    "lower": [None, -0.2, 0.0],
    "upper": [None, 0.3],
    "gradient_tol": [None, 1e-3, 1e-6],
    "scale_predictors": [True, False],
    "hessian_approx": [0.0, 0.1],
    "selection": ["cyclic", "random"],
    "max_iter": [1, 3, 300],
    "weights": [None, "float", "int"],
}
BAD = ["nan_X", "nan_y", "range_y", "short_y", "neg_w", "bad_P1", "bad_bounds", "bad_start"]


def generate(rng, i, tier):
    cls = rng.choice(["glr", "glr", "cv"])
    kinds = ("cv",) if cls == "cv" else ("single", "single", "path")
    specs = [C.draw_spec(rng, kinds, fn=True) for _ in range(rng.randint(2, 3))]
    if rng.random() < 0.3:  # same data, changed parameters
        specs[1] = {**specs[0], "alpha": 0.2, "fit_intercept": specs[0]["fit_intercept"]}
    for s in specs:
        if rng.random() < 0.3:
            s["gradient_tol"] = None
    if rng.random() < 0.5:
        # the same problem but for one or two settings
        for j in range(1, len(specs)):
            other = C.draw_spec(rng, kinds, fn=True)
            s = {**specs[0]}
            for k in rng.sample(SETTINGS, rng.randint(1, 2)):
                if k == "family":
                    s.update({x: other[x] for x in ("family", "link", "offset")})
                elif k in ALTER:
                    s[k] = rng.choice(ALTER[k])
            if s["f32"]:
                s["P1"] = None
            if not s["fit_intercept"]:
                s["scale_predictors"] = s["drop_first"] = False
            specs[j] = s
    ops = []
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(OPS)
        t = rng.randrange(len(specs))
        if op == "fit":
            ops.append(["fit", t, rng.random() < 0.3])
        elif op == "crash":
            ops.append(["crash", t, rng.random(), rng.choice(["interrupt", "memory", "interrupt"])])
        elif op == "bad":
            ops.append(["bad", t, rng.choice(BAD)])
        elif op == "ask":
            ops.append(["ask", t])
        elif op == "cov":
            ops.append(["cov", t])
        elif op == "trip":
            ops.append(["trip", rng.choice(["pickle", "deepcopy", "copy", "pickle2"])])
        elif op == "params":
            ops.append(["params", t])
        else:
            ops.append(["clone_params"])
    store_cov, warm = rng.random() < 0.25, rng.random() < 0.4
    if warm and rng.random() < 0.7:
        # the last fit before it is of a problem of the same size
        last = [j for j in range(len(specs)) if specs[j]["kind"] == specs[0]["kind"]]
        ops = ops[:3] + [["fit", rng.choice(last), False]] + [["cov", 0]] * (rng.random() < 0.5) + [["trip", "pickle"]] * (rng.random() < 0.2)
    return dict(specs=specs, ops=ops, store_cov=store_cov, warm=warm)


def _bad_fit(est, pr, what):
    X, y, w, off = C.data(pr)
    if what == "nan_y":
        y[0] = np.nan
    elif what == "range_y":
        y[0] = -5.0
    elif what == "short_y":
        y = y[:-1]
    elif what == "neg_w":
        w = -np.ones(len(y))
    elif what == "bad_P1":
        est.set_params(P1=np.ones(pr.k + 3))
    elif what == "bad_bounds":
        est.set_params(lower_bounds=np.zeros(pr.k + 2))
    elif what == "bad_start":
        est.set_params(start_params=np.zeros(pr.k + 5))
    elif what == "nan_X":
        X = np.full((len(y), pr.k), np.nan)
    return est.fit(X, y, sample_weight=w, offset=off)


def _ask(est, pr):
    # what it answers from what the fit has stored comes first: the other
    # questions bring the data along
    out = {
        "stored cov": obs.outcome(est.covariance_matrix),
        "stored std errors": obs.outcome(est.std_errors),
        "stored table": obs.outcome(est.coef_table),
    }
    out.update(C.ask(est, pr))
    return out


def execute(plan, st):
    prs = [problems.Problem(s) for s in plan["specs"]]
    final = prs[0]
    # what a fresh estimator answers
    ref = final.estimator()
    r = obs.outcome(lambda: C.fit(ref, final, **({"store_covariance_matrix": True} if plan["store_cov"] else {})))
    if r[0] != "ok":
        raise Vacuous(r[1])
    want_warn = r[2]
    want = _ask(ref, final)
    est = prs[-1].estimator()
    hist = []
    for op in plan["ops"]:
        kind = op[0]
        if kind == "fit":
            pr = prs[op[1]]
            C.retarget(est, pr)
            if op[2]:
                est.set_params(warm_start=False)
            o = obs.outcome(C.fit, est, pr)
            hist.append(("fit", o[0]))
            st.fault("earlier fit")
        elif kind == "crash":
            pr = prs[op[1]]
            C.retarget(est, pr)
            o, where = C.crash_fit(est, pr.estimator, pr, op[2], op[3], st)
            hist.append(("crash", o, where))
        elif kind == "bad":
            pr = prs[op[1]]
            C.retarget(est, pr)
            o = obs.outcome(_bad_fit, est, pr, op[2])
            hist.append(("bad", op[2], o[0]))
            st.fault("rejected fit" if o[0] == "raise" else "odd fit")
        elif kind in ("ask", "cov"):
            pr = prs[op[1]]
            if hasattr(est, "coef_"):
                X, y, w, off = C.data(pr)
                o = obs.outcome(C.ask, est, pr)
                if kind == "cov":
                    obs.outcome(est.covariance_matrix, X=X, y=y, sample_weight=w, offset=off, store_covariance_matrix=True)
                hist.append((kind, o[0]))
                st.fault("queries between fits")
        elif kind == "trip":
            est = must("round trip", C.roundtrip, est, op[1])
            hist.append(("trip", op[1]))
            st.fault("copy/pickle between fits")
        elif kind == "params":
            C.retarget(est, prs[op[1]])
            hist.append(("params",))
        elif kind == "clone_params":
            from sklearn.base import clone

            est2 = clone(est)
            est.set_params(**est2.get_params(deep=False))
            hist.append(("clone_params",))
    C.retarget(est, final)
    if plan["warm"] and np.shape(getattr(est, "coef_", None)) == (final.k,) and np.all(np.isfinite(est.coef_)):
        # a warm start may take over the coefficients and nothing else
        start = np.array(est.coef_)
        if final.spec["fit_intercept"]:
            start = np.concatenate([[est.intercept_], start])
        est.set_params(warm_start=True)
        ref = final.estimator()
        ref.set_params(start_params=start)
        r = obs.outcome(lambda: C.fit(ref, final, **({"store_covariance_matrix": True} if plan["store_cov"] else {})))
        if r[0] != "ok":
            raise Vacuous(r[1])
        want_warn = r[2]
        want = _ask(ref, final)
        st.count("warm refits")
        hist.append(("warm",))
    o = obs.outcome(lambda: C.fit(est, final, **({"store_covariance_matrix": True} if plan["store_cov"] else {})))
    if o[0] != "ok":
        raise Violation(f"refit fails after {hist}: {o[1]}", key="refit fails")
    if sorted(set(map(tuple, o[2]))) != sorted(set(map(tuple, want_warn))):
        raise Violation(f"refit warns {o[2]} instead of {want_warn}", key="refit warnings")
    got = _ask(est, final)
    obs.compare(got, want, "refit")
    s = plan["specs"][0]
    st.state(s["kind"], tuple(map(str, hist)), s["family"], s["storage"], est._solver if hasattr(est, "_solver") else "")
    st.nontrivial = bool(hist)
    st.steps += len(hist)
    for h in hist:
        st.count("op " + h[0])
    st.count("family " + s["family"])
    st.count("storage " + s["storage"])


def shrink(plan):
    for ops in drop_items(plan["ops"]):
        yield {**plan, "ops": ops}
    if plan["store_cov"]:
        yield {**plan, "store_cov": False}
    if plan["warm"]:
        yield {**plan, "warm": False}
    for j, s in enumerate(plan["specs"]):
        for v in shrink_spec(s):
            yield {**plan, "specs": plan["specs"][:j] + [v] + plan["specs"][j + 1 :]}
