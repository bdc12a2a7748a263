"""C19: the cross-validated choice agrees with the recorded fold results."""
import numpy as np

from .. import faults, obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import c09
from . import common as C

PROP = "C19"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 100000}
LIVENESS = True
RULE = "distinct (family, link, storage, splitter, penalties, faults, outcome, selected point) tuples"
REAL = C.ENV
STUB = "failing linear solves are injected into fold fits; deviances, optimality conditions and the choice are recomputed by independent code"
ASSUME = [
    "a deviance that is not a number is no candidate for the smallest one",
    "penalties whose mean deviances differ by less than 1e-9 relative are ties, and any of them may be selected",
]

GRID = [3.0, 1.0, 0.5, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("cv",), convex=rng.random() < 0.85)
    odd = rng.random() < 0.1
    if odd:
        # a fold that lies outside the range of the others, so that means (and
        # deviances) may be undefined there for the weaker penalties
        sp = C.draw_spec(rng, ("cv",), families=[("gamma", "identity"), ("poisson", "identity"), ("gamma", "identity")], small=True, bounds=False)
        sp["p"], sp["levels"], sp["formula_inter"], sp["scale"] = rng.choice([1, 1, 2]), [], False, 0
    l1 = sp["l1_ratio"]
    if l1 > 0 and rng.random() < 0.35:
        sp["alphas"], sp["n_alphas"] = None, rng.randint(2, 5)
    else:
        sp["alphas"] = [rng.choice(GRID + [30.0] * 3 * odd) for _ in range(rng.randint(1 + odd, 5))]
        if rng.random() < 0.2:
            # penalties close to each other: their deviances differ late
            sp["alphas"] += [a * (1 + rng.choice([1e-3, 1e-4, -1e-4, 1e-5])) for a in sp["alphas"][:2]]
    sp["l1_list"] = rng.choice([None, [0.3, 0.8], [0.9, 0.1, 0.5], [0.5]]) if l1 > 0 else None
    sp["gradient_tol"] = 1e-3 if sp["f32"] else rng.choice([1e-3, 1e-4, 1e-6])
    return dict(
        spec=sp,
        folds=rng.choice(["int", "kfold", "list", "list", "overlap", "partial", "bootstrap", "uneven", "shuffle", "repeat", "loo", "predefined", "generator", "timeseries"] if not odd else ["sorted", "sorted", "list"]),
        k=rng.randint(2, 5),
        fseed=rng.randrange(2**20),
        order=rng.random() < 0.4,
        max_iter=rng.choice([300, 300, 300, 300, 2, 5]),
        start=rng.choice([None, None, "warm", "start"]),
        fault=[[rng.randint(0, 12), rng.choice(["noise", "scale"]), rng.choice([0.1, 0.5, 3.0])]] if rng.random() < 0.15 else [],
        spread=rng.choice([1, 1, 1, 3, 8]),
        fitted=rng.random() < 0.15,
        tiny=rng.choice([1e-3, 1e-6]) if rng.random() < 0.12 and not sp["f32"] else None,
    )


def splits(plan, n, x0):
    """[(train, test)] rows and the object handed to glum."""
    from sklearn import model_selection as ms

    r = np.random.default_rng(plan["fseed"])
    k, how = plan["k"], plan["folds"]
    idx = np.arange(n)
    if how in ("int", "kfold", "shuffle", "repeat", "loo", "predefined", "timeseries"):
        s = int(r.integers(1000))
        cv = {
            "int": k,
            "kfold": ms.KFold(k, shuffle=True, random_state=s),
            "shuffle": ms.ShuffleSplit(k, test_size=0.3, random_state=s),
            "repeat": ms.RepeatedKFold(n_splits=2, n_repeats=2, random_state=s),
            "loo": ms.LeaveOneOut(),
            "predefined": ms.PredefinedSplit(np.where(r.random(n) < 0.1, -1, idx % k)),
            "timeseries": ms.TimeSeriesSplit(2),
        }[how]
        sp = ms.KFold(k) if how == "int" else cv
        return [(a, b) for a, b in sp.split(np.zeros((n, 1)))], cv
    lab = r.permutation(idx % k)
    if how == "sorted":
        lab = np.empty(n, int)
        lab[np.argsort(x0)] = idx * k // n
    out = []
    for f in range(k):
        te = idx[lab == f]
        tr = idx[lab != f]
        if how == "overlap":
            tr = r.permutation(idx)
        elif how == "partial":
            tr, te = tr[: max(8, 2 * len(tr) // 3)], te[: max(1, len(te) // 2)]
        elif how == "bootstrap":
            tr = r.choice(tr, len(tr))
        elif how == "uneven":
            m = 1 + int(r.integers(n // 2))
            q = r.permutation(n)
            te, tr = q[:m], q[m:]
        out.append((tr, te))
    if how == "generator":
        return out, (p for p in list(out))
    return out, out


def dev(pr, coef, b):
    """(mean deviance, size of the terms it sums)"""
    eta = pr._eta(coef, b)
    fam = pr.spec["family"]
    with np.errstate(all="ignore"):
        mu, _ = problems.link_inv(pr.link, eta)
        d = float(pr._wn() @ problems.unit_deviance(fam, pr.y, mu))
        p = problems.power_of(fam)
        y = np.abs(pr.y)
        m = np.abs(mu)
        if p is not None and p not in (0, 1, 2):
            t = y ** (2 - p) / abs((1 - p) * (2 - p)) + y * m ** (1 - p) / abs(1 - p) + m ** (2 - p) / abs(2 - p)
        elif p == 0:
            t = (y + m) ** 2
        elif p == 2:
            t = y / m + np.abs(np.log(m)) + np.abs(np.log(y))
        elif fam == "binomial":
            # rounding of mu close to 0 or 1 enters through 1 - mu
            e = np.minimum(np.abs(eta), 700)
            far = np.exp(np.minimum(np.exp(e), 700)) if pr.link == "cloglog" else np.exp(e)
            t = np.abs(problems.unit_deviance(fam, pr.y, mu)) + 1 + far
        else:
            t = (y + m + 1) * (1 + np.abs(np.log(np.maximum(y, 1e-300))) + np.abs(np.log(np.maximum(m, 1e-300))))
            t = np.where(y == 0, m + 1, t)
        return d, float(pr._wn() @ t), eta


def execute(plan, st):
    sp = dict(plan["spec"])
    if plan["folds"] == "loo":
        sp["n"] = min(sp["n"], 14)
    pr = problems.Problem(sp)
    if pr.offset is not None and plan["spread"] > 1:
        pr.offset = pr.offset * plan["spread"] / 2
    n = sp["n"]
    rows, cv = splits(plan, n, pr.D[:, 0])
    if plan.get("tiny"):
        # hardly any weight on what one fold is scored by
        pr.w = np.ones(n) if pr.w is None else pr.w
        pr.w[rows[-1][1]] *= plan["tiny"]
    over = dict(cv=cv, max_iter=plan["max_iter"])
    r = np.random.default_rng(plan["fseed"] + 1)
    if plan["start"] == "warm":
        over["warm_start"] = True
    elif plan["start"] == "start":
        c = r.normal(size=pr.k) * 0.2 / pr.moments()[1]
        over["start_params"] = np.concatenate([[r.normal()], c]) if sp["fit_intercept"] else c
    est = pr.estimator(**over)
    if plan["fitted"] and plan["folds"] != "generator":
        obs.outcome(C.fit, est, pr)
    closed = sp["family"] == "normal" and pr.link == "identity" and sp["l1_ratio"] == 0
    with faults.LinalgFaults([] if closed else [tuple(f) for f in plan["fault"]], sp["seed"], st):
        o = obs.outcome(C.fit, est, pr)
    if plan["max_iter"] < 50:
        st.fault("tight iteration budget")
    how = f"{plan['folds']} folds"
    if o[0] != "ok":
        if st.faults or not problems.well_posed(pr) or plan["start"] is not None or sp["family"] == "binomial":
            raise Vacuous(o[1])
        if plan["folds"] == "loo" and sp["family"].startswith("tweedie") or plan["folds"] in ("timeseries", "partial", "uneven", "bootstrap"):
            # a training fold may hold too little to fit anything
            if any(len(np.unique(pr.y[tr])) < 2 or pr.y[tr].sum() == 0 for tr, _ in rows):
                raise Vacuous(o[1])
        raise Violation(f"the cross-validated fit fails with {how}: {o[1]}", key="fails:" + o[1].split(":")[0])
    bad = len(obs.convergence_warnings(o[2]))
    l1s = np.atleast_1d(sp["l1_list"] if sp["l1_list"] else sp["l1_ratio"]).astype(float)
    K, L = len(rows), len(l1s)
    A = np.atleast_2d(np.asarray(est.alphas_, float))
    P = A.shape[1]
    if sp["alphas"] is not None:
        want = np.sort(np.asarray(sp["alphas"], float))[::-1]
        if A.shape[0] != L or not np.allclose(A, want):
            raise Violation(f"the penalties tried are {A} instead of {want}", key="penalties")
    co, ic = np.asarray(est.coef_path_, float), np.asarray(est.intercept_path_, float)
    te, tr = np.asarray(est.deviance_path_, float), np.asarray(est.train_deviance_path_, float)
    if co.shape != (K, L, P, pr.k) or te.shape != (K, L, P) or tr.shape != (K, L, P) or ic.reshape(K, L, P, -1).shape[-1] != 1:
        raise Violation(f"records have shapes {co.shape}, {ic.shape}, {te.shape}, {tr.shape} for {K} folds, {L} mixing parameters, {P} penalties and {pr.k} coefficients", key="shapes")
    ic = ic.reshape(K, L, P)
    eps = 3e-4 if sp["f32"] else 1e-9
    worst = []
    for f, (a, b) in enumerate(rows):
        qa, qb = pr.sub(a), pr.sub(b)
        for l in range(L):
            for j in range(P):
                c, b0 = co[f, l, j], ic[f, l, j]
                if not np.all(np.isfinite(c)) or np.abs(c).max(initial=0) > 1e30:
                    continue
                for rec, q, what in ((te, qb, "out-of-fold"), (tr, qa, "in-fold")):
                    d, size, eta = dev(q, c, b0)
                    got = rec[f, l, j]
                    amp = 1 + np.abs(q.D @ np.abs(c)).max() + abs(b0) + np.abs(eta).max()
                    if not np.isfinite(d) or not np.isfinite(size) or not np.isfinite(got) or np.abs(eta).max() > 200:
                        if pr.link == "identity" or np.abs(eta).max() > 25 or not np.isfinite(d) and not np.isfinite(got):
                            continue
                    tol = eps * (size * amp + abs(d) + 1)
                    if not abs(got - d) <= tol:
                        raise Violation(
                            f"the recorded {what} deviance of fold {f}, mixing parameter {l1s[l]}, penalty {A[l, j]:.4g} is {got!r}; the recorded coefficients give {d!r} ({how})",
                            key=what + " deviance",
                        )
                    st.steps += 1
                res, scale = qa.kkt(c, b0, alpha=A[l, j], l1_ratio=l1s[l])
                if not res <= c09.tolerance(qa, est, scale):
                    worst.append((f, l, j, res))
                if not qa.feasible(c):
                    raise Violation(f"fold {f} leaves the bounds", key="fold bounds")
    if worst and not bad:
        f, l, j, res = worst[0]
        raise Violation(
            f"fold {f} recorded coefficients that are not the optimum on its training rows for penalty {A[l, j]:.4g}, mixing parameter {l1s[l]} (residual {res:.3g}), without a warning; {len(worst)} such records ({how})",
            key="fold optimum", solver=est._solver,
        )
    # the choice
    avg = te.mean(axis=0)
    l1, al = float(est.l1_ratio_), float(est.alpha_)
    cell = [(l, j) for l in range(L) for j in range(P) if np.isclose(l1s[l], l1, rtol=1e-6) and np.isclose(A[l, j], al, rtol=1e-6)]
    if not cell:
        raise Violation(f"the selected pair ({l1}, {al}) was not tried", key="selected not tried")
    ok = ~np.isnan(avg)
    if ok.any():
        best = avg[ok].min()
        mine = min([avg[c] for c in cell if ok[c]], default=np.nan)
        if not mine <= best + (1e-9 * abs(best) if np.isfinite(best) else 0):
            raise Violation(f"selected penalty {al:.4g} (mixing {l1}) has mean out-of-fold deviance {mine!r}; {best!r} was recorded: {avg.tolist()}", key="selection")
        if (~ok).any():
            st.count("undefined deviances")
        st.nontrivial = avg[ok].size > 1
    # the final model
    if not bad and np.all(np.isfinite(est.coef_)):
        res, scale = pr.kkt(est.coef_, est.intercept_, alpha=al, l1_ratio=l1)
        if not res <= c09.tolerance(pr, est, scale):
            raise Violation(f"the final model is not the optimum on all rows for the selected penalty {al:.4g}, mixing parameter {l1} (residual {res:.3g}), without a warning ({how})", key="final optimum", solver=est._solver)
    # another order of the folds permutes the records and changes nothing else
    if plan["order"] and K > 1 and not st.faults:
        perm = r.permutation(K)
        est2 = pr.estimator(**{**over, "cv": [rows[q] for q in perm]})
        if plan["fitted"] and plan["start"] == "warm":
            est2 = None
        if est2 is not None:
            must("fit with reordered folds", obs.quiet, C.fit, est2, pr)
            t = dict(rtol=1e-2, atol=1e-2) if sp["f32"] else dict(rtol=1e-6, atol=1e-8)
            for nm in ("coef_path_", "intercept_path_", "deviance_path_", "train_deviance_path_"):
                u, v = np.asarray(getattr(est, nm), float)[perm], np.asarray(getattr(est2, nm), float)
                if not bad and not np.allclose(u, v, equal_nan=True, **t):
                    raise Violation(f"{nm} of a fold depends on the order of the folds", key="order " + nm)
            st.count("reordered folds")
            if not np.isclose(est2.alpha_, al) or not np.isclose(est2.l1_ratio_, l1):
                gap = np.sort(avg[ok].ravel())
                if not bad and len(gap) > 1 and gap[1] - gap[0] > 1e-6 * (1 + abs(gap[0])):
                    raise Violation(f"the choice depends on the order of the folds: {al} or {est2.alpha_}", key="order choice")
    st.count("folds " + plan["folds"])
    st.state(sp["family"], pr.link, sp["storage"], plan["folds"], L, P, sorted(st.faults), bool(bad), cell[0])


def aggregate(agg, tier):
    c = agg["cover"]
    n = sum(v for k, v in c.items() if k.startswith("folds "))
    if n >= 200 and agg["nontrivial"] < 0.5 * n:
        raise Violation(f"only {agg['nontrivial']} of {n} runs compare penalties", key="vacuous")


def shrink(plan):
    sp = plan["spec"]
    for k, v in dict(fault=[], order=False, max_iter=300, start=None, spread=1, fitted=False, folds="list", k=2).items():
        if plan[k] != v:
            yield {**plan, k: v}
    if sp["alphas"]:
        for v in drop_items(sp["alphas"]):
            if v:
                yield {**plan, "spec": {**sp, "alphas": v}}
    if sp["l1_list"]:
        yield {**plan, "spec": {**sp, "l1_list": None}}
    for v in shrink_spec(sp):
        if v["alphas"] is None and v["l1_ratio"] == 0:
            continue
        yield {**plan, "spec": v}
