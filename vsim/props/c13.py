"""C13: every point of a regularization path is that penalty's own solution."""
import numpy as np

from .. import faults, obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import c09
from . import common as C

PROP = "C13"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 150000}
LIVENESS = True
RULE = "distinct (family, link, storage, kind, order of penalties, budget, outcome, number of points) tuples"
REAL = C.ENV
STUB = "failing linear solves are injected; the optimality conditions, the null model and the predictions are computed by independent code"
ASSUME = [
    "the start of a generated path is judged where the null model's intercept has the closed form glum documents: normal/identity and Tweedie/log with any offset, logit and negative binomial without",
]

GRID = [3.0, 1.0, 0.5, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("path", "path", "path", "cv"), convex=rng.random() < 0.85)
    sp["f32"] = False
    sp["gradient_tol"] = rng.choice([1e-3, 1e-4, 1e-6])
    l1 = sp["l1_ratio"]
    if l1 > 0 and rng.random() < 0.4:
        sp["alphas"] = None
        sp["n_alphas"] = rng.randint(2, 7)
    else:
        seq = [rng.choice(GRID) for _ in range(rng.randint(1, 7))]
        how = rng.choice(["any", "down", "up", "repeat"])
        if how == "down":
            seq.sort(reverse=True)
        elif how == "up":
            seq.sort()
        elif how == "repeat":
            seq = seq + seq[:2]
        sp["alphas"] = seq
        plain = sp["storage"] in ("dense_c", "dense_f") and not sp["levels"] and sp["family"] in ("normal", "gamma") and sp["link"] != "tweedie"
        if plain and not sp.get("const") and sp["P2"] != "block" and rng.random() < 0.5:
            # no penalty at all somewhere on the path
            for _ in range(rng.randint(1, 2)):
                seq.insert(rng.randint(0, len(seq)), 0.0)
    return dict(
        spec=sp,
        max_iter=rng.choice([300, 300, 300, 300, 1, 2, 4]),
        ratio=rng.choice([0.05, 0.01, 0.5, 0.05, 0.01, None]),
        min_alpha=rng.random() < 0.2,
        null=rng.choice([0, 0, 0, 2.0, -1.0]),
        fault=[[rng.randint(0, 6), rng.choice(["noise", "scale"]), rng.choice([0.1, 0.5, 3.0])]] if rng.random() < 0.15 else [],
        warm=rng.random() < 0.2,
        as_list=rng.random() < 0.3,
        pick=rng.randrange(1000),
    )


def null_intercept(pr):
    """Newton's method for the intercept-only model (float64, no glum code)."""
    off = 0.0 if pr.offset is None else pr.offset
    w = pr._wn()
    if not pr.spec["fit_intercept"]:
        return 0.0
    b = 0.0
    if pr.link == "log":
        b = np.log(max(w @ pr.y, 1e-8)) - np.mean(off)
    elif pr.link == "logit":
        m = w @ pr.y
        b = np.log(m / (1 - m)) - np.mean(off)

    def g(b):
        mu, d = problems.link_inv(pr.link, b + off + np.zeros(len(pr.y)))
        return w @ ((mu - pr.y) / problems.variance(pr.spec["family"], mu) * d)

    for _ in range(200):
        h = 1e-5
        s = (g(b + h) - g(b - h)) / (2 * h)
        d = g(b) / s
        d = np.clip(d, -1, 1)
        b -= d
        if abs(d) < 1e-12:
            break
    return b


def alpha_max(pr, l1):
    b = null_intercept(pr)
    off = 0.0 if pr.offset is None else pr.offset
    mu, d = problems.link_inv(pr.link, b + off + np.zeros(len(pr.y)))
    rows = pr._wn() * (mu - pr.y) / problems.variance(pr.spec["family"], mu) * d
    g = np.abs(rows @ pr.D)
    p1, _ = pr.penalties(1.0, l1)
    return float(np.max(g / p1)), b


def exact_null(pr):
    f = pr.spec["family"]
    if f == "normal":
        return pr.link == "identity"
    if pr.link == "log" and problems.power_of(f) is not None:
        return True
    return pr.offset is None and pr.spec["fit_intercept"] and (pr.link == "logit" or f.startswith("negative")) or not pr.spec["fit_intercept"]


def check_generated(pr, alphas, l1, plan, coef0, n_alphas):
    alphas = np.asarray(alphas, float)
    if len(alphas) != n_alphas:
        raise Violation(f"the generated path has {len(alphas)} points instead of {n_alphas}", key="length")
    if np.any(np.diff(alphas) >= 0):
        raise Violation(f"the generated path does not decrease: {alphas}", key="not decreasing")
    if plan["min_alpha"]:
        end = MIN_ALPHA
    else:
        end = alphas[0] * (plan["ratio"] or (1e-6 if len(pr.y) >= pr.k else 1e-2))
    if not np.isclose(alphas[-1], end, rtol=1e-6):
        raise Violation(f"the generated path ends at {alphas[-1]:.8g} instead of {end:.8g}", key="wrong end")
    if np.any(pr.penalties(1.0, l1)[0] == 0):
        if coef0 is not None:
            _, sd = pr.moments()
            pen = pr.penalties(1.0, l1)[0] > 0
            if np.abs((coef0 * sd)[pen]).max(initial=0) > 1e-5:
                raise Violation(f"penalised coefficients at the start of the generated path are not zero: {coef0}", key="start not zero: unpenalised columns")
        return False
    if exact_null(pr):
        want, _ = alpha_max(pr, l1)
        if not np.isclose(alphas[0], want, rtol=1e-5):
            raise Violation(f"the generated path starts at {alphas[0]:.8g}; the smallest penalty that keeps all coefficients zero is {want:.8g}", key="wrong start")
        if coef0 is not None:
            _, sd = pr.moments()
            if np.abs(coef0 * sd).max(initial=0) > 1e-5:
                raise Violation(f"coefficients at the start of the generated path are not zero: {coef0}", key="start not zero")
        return True
    return False


MIN_ALPHA = 1e-4


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    if plan["null"] and pr.offset is not None:
        pr.offset = pr.offset * plan["null"]
    over = dict(max_iter=plan["max_iter"], warm_start=plan["warm"])
    if sp["alphas"] is None:
        if plan["min_alpha"]:
            over.update(min_alpha=MIN_ALPHA, min_alpha_ratio=None)
        else:
            over["min_alpha_ratio"] = plan["ratio"]
    elif plan["as_list"]:
        over["alpha" if sp["kind"] == "path" else "alphas"] = list(sp["alphas"])
    est = pr.estimator(**over)
    closed = sp["family"] == "normal" and pr.link == "identity" and sp["l1_ratio"] == 0
    with faults.LinalgFaults([] if closed else [tuple(f) for f in plan["fault"]], sp["seed"], st):
        o = obs.outcome(C.fit, est, pr)
    if o[0] != "ok":
        if st.faults or not problems.well_posed(pr):
            raise Vacuous(o[1])
        if plan["min_alpha"] and "min_alpha would generate all zeros" in o[1]:
            raise Vacuous("the demanded smallest penalty is above the largest one")
        raise Violation(f"the path fit fails: {o[1]}", key="fails:" + o[1].split(":")[0])
    bad = len([m for c, m in o[2] if "failed to converge" in m])
    if plan["max_iter"] < 50:
        st.fault("tight iteration budget")
    cv = sp["kind"] == "cv"
    l1 = float(est.l1_ratio_) if cv else sp["l1_ratio"]
    points = []
    if not cv:
        alphas = np.asarray(est._alphas, float)
        want = alphas if sp["alphas"] is None else np.asarray(sp["alphas"], float)
        if alphas.shape != want.shape or not np.allclose(alphas, want):
            raise Violation(f"the path visits {alphas} instead of {want}", key="wrong penalties")
        points = [(a, np.asarray(c, float), float(b)) for a, c, b in zip(alphas, est.coef_path_, np.broadcast_to(est.intercept_path_, alphas.shape))]
        if not (obs.same(est.coef_, est.coef_path_[-1]) and np.isclose(est.intercept_, points[-1][2])):
            raise Violation("coef_/intercept_ are not the last point of the path", key="last point")
        if sp["alphas"] is None:
            st.count("generated exact" if check_generated(pr, alphas, l1, plan, points[0][1] if not bad else None, sp["n_alphas"]) else "generated")
    else:
        A = np.atleast_2d(np.asarray(est.alphas_, float))
        l1s = np.atleast_1d(sp["l1_list"] if sp["l1_list"] else sp["l1_ratio"])
        for row, l in zip(A, l1s):
            if sp["alphas"] is None:
                check_generated(pr, row, float(l), plan, None, sp["n_alphas"])
            elif not np.allclose(row, np.sort(sp["alphas"])[::-1]):
                raise Violation(f"the path visits {row}", key="wrong penalties")
        row = A[int(np.argmin(np.abs(l1s - l1)))]
        if sp["storage"] in problems.ARRAY_STORAGE and not sp["levels"]:
            E = np.eye(pr.k)
            for j, a in enumerate(row):
                b = float(np.ravel(est.linear_predictor(np.zeros((1, pr.k)), alpha_index=j))[0])
                c = np.ravel(est.linear_predictor(E, alpha_index=j)) - b
                points.append((a, c, b))
            cand = [q[1] for q, a in zip(points, row) if np.isclose(a, est.alpha_)]
            if not any(np.allclose(c, est.coef_, rtol=1e-6, atol=1e-8) for c in cand):
                raise Violation("coef_ is not the point of the refit path at alpha_", key="selected point")
    # optimality of every point for its own penalty
    off = []
    for j, (a, c, b) in enumerate(points):
        if not pr.feasible(c):
            raise Violation(f"point {j} of the path leaves the bounds", key="infeasible")
        res, scale = pr.kkt(c, b, alpha=a, l1_ratio=l1)
        if not res <= c09.tolerance(pr, est, scale) + (1e-7 * scale if cv else 0):
            off.append((j, a, res))
    if len(off) > bad:
        j, a, res = off[0]
        raise Violation(
            f"point {j} of the path is not the optimum for its penalty {a:.4g} (residual {res:.3g}, gradient_tol {sp['gradient_tol']:g}); {len(off)} such points, {bad} convergence warnings",
            key="point not optimal", alphas=[p[0] for p in points], solver=est._solver,
        )
    # predictions select exactly one point
    X, y, w, offv = C.data(pr)
    if points:
        eta = [pr.D @ c + b + (0 if pr.offset is None else pr.offset) for _, c, b in points]
        n = len(points)
        j = plan["pick"] % n
        uniq = [q for q in range(n) if np.isclose([p[0] for p in points], points[q][0]).sum() == 1]
        idx = [(plan["pick"] * 7 + q * 3) % n for q in range(1 + plan["pick"] % 3)]

        def agree(got, want, how):
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-8):
                raise Violation(f"linear_predictor({how}) does not use that point of the path", key="selection " + how.split("=")[0])

        agree(must("linear_predictor", est.linear_predictor, X, offset=offv, alpha_index=j), eta[j], f"alpha_index={j}")
        agree(must("linear_predictor", est.linear_predictor, X, offset=offv, alpha_index=idx), np.stack([eta[q] for q in idx], axis=1), f"alpha_index={idx}")
        true = np.asarray(est._alphas if not cv else row)
        if uniq:
            q = uniq[plan["pick"] % len(uniq)]
            agree(must("linear_predictor", est.linear_predictor, X, offset=offv, alpha=true[q]), eta[q], "alpha=...")
            agree(must("linear_predictor", est.linear_predictor, X, offset=offv, alpha=[true[q]]), eta[q][:, None], "alpha=[...]")
            mu = must("predict", est.predict, X, offset=offv, alpha=true[q])
            if not np.allclose(mu, problems.link_inv(pr.link, eta[q])[0], rtol=1e-6, atol=1e-8):
                raise Violation("predict(alpha=...) does not use that point of the path", key="selection predict")
        gap = np.abs(true / (true[j] * 1.37) - 1).min()
        if gap > 1e-3:
            try:
                est.predict(X, offset=offv, alpha=true[j] * 1.37)
            except IndexError:
                pass
            else:
                raise Violation("a penalty that is not on the path is served with another one", key="unknown alpha served")
        try:
            est.predict(X, offset=offv, alpha=true[j], alpha_index=j)
        except ValueError:
            pass
        else:
            raise Violation("alpha and alpha_index are accepted together", key="both")
    order = "none" if sp["alphas"] is None else "down" if sp["alphas"] == sorted(sp["alphas"], reverse=True) else "up" if sp["alphas"] == sorted(sp["alphas"]) else "mixed"
    st.state(sp["family"], pr.link, sp["storage"], sp["kind"], order, plan["max_iter"], bool(bad), len(points), len(off))
    st.steps += len(points)
    st.count("order " + order)
    st.nontrivial = bool(points)


def shrink(plan):
    if plan["spec"]["alphas"]:
        for v in drop_items(plan["spec"]["alphas"]):
            if v:
                yield {**plan, "spec": {**plan["spec"], "alphas": v}}
    for k, v in dict(max_iter=300, fault=[], warm=False, as_list=False, null=0, min_alpha=False, pick=0).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        if v["alphas"] is None and v["l1_ratio"] == 0:
            continue
        yield {**plan, "spec": v}
