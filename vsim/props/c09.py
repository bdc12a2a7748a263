"""C09: an un-warned fit is optimal, whatever happened inside the solver."""
import contextlib
import warnings

import numpy as np

from .. import faults, obs, problems
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import common as C

PROP = "C09"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 150000}
LIVENESS = True
RULE = "distinct (family, link, solver, storage, kind of fault, outcome, iterations) tuples"
REAL = C.ENV
STUB = "scipy.linalg's solvers, tabmat's sandwich product and numpy's uninitialised allocations are wrapped by the fault injector; the optimality oracle is independent code (vsim/problems.py)"
ASSUME = [
    "closed-form fits are judged under raising solvers only: a direct solve that is silently wrong cannot be noticed by its caller",
    "step_size_tol is left at None (the documented default) or so small that only a step that changes nothing meets it, so the gradient tolerance decides",
]

KINDS = ["raise", "nomem", "noise", "scale", "flip", "zero", "garbage", "nan"]


INTERNAL = ("AttributeError", "NameError", "UnboundLocalError", "IndexError", "KeyError", "TypeError", "ZeroDivisionError", "AssertionError")


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "single", "path"), loose=rng.random() < 0.5, convex=rng.random() < 0.75, bounds=True if rng.random() < 0.12 else None)
    sp["offset"] = sp["offset"] and sp["link"] not in ("identity",)
    width = sp["p"] + sum(L - int(sp["drop_first"]) + (sp.get("na") == "convert") for L in sp["levels"]) + int(sp["formula_inter"])
    if width > 3 and not sp["storage"].endswith("_cat") and not sp["f32"] and rng.random() < 0.12:
        sp["P2"] = "block"
        if sp["family"] == "normal" and sp["link"] in ("auto", "identity") and sp["lower"] is None and sp["upper"] is None and sp["kind"] == "single" and rng.random() < 0.5:
            sp["l1_ratio"], sp["solver"] = 0.0, rng.choice(["auto", "closed-form"])
    if sp["P2"] != "block" and not sp["f32"] and rng.random() < 0.15:
        # no curvature from the penalty: lasso, or none at all
        if rng.random() < 0.6:
            sp["l1_ratio"], sp["solver"] = 1.0, "auto"
        elif sp["kind"] == "single":
            sp["alpha"] = 0.0
    fl = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            fl.append([rng.choice([0, 0, 1, 2, 3, 5, -1]), rng.choice(KINDS), rng.choice([1e-8, 1e-3, 0.1, 0.5, 3.0, 30.0])])
    plain = rng.random() < 0.25
    if plain:
        fl = []
    plan = dict(
        spec=sp,
        faults=fl,
        hessian=rng.choice([0.05, 0.5, 3.0]) if rng.random() < 0.2 and not plain else None,
        dirty=rng.random() < 0.2 and not plain,
        max_iter=rng.choice([1, 2, 3, 5, 8]) if rng.random() < 0.25 and not plain else 300,
        max_inner=rng.choice([1, 2, 5, 50]) if rng.random() < 0.2 and not plain else 100000,
        start=rng.choice([0.3, 1.0, 3.0]) if rng.random() < 0.3 and not plain else None,
        at_bound=rng.choice([0.5, 1.0]) if (sp["lower"] is not None or sp["upper"] is not None) and rng.random() < 0.6 else None,
        dirtyseed=rng.randrange(1000),
    )
    if rng.random() < 0.12:
        sp["gradient_tol"] = None
    elif not fl and rng.random() < 0.1:
        # so small that it can only stop where nothing moves any more
        sp.setdefault("extra", {})["step_size_tol"] = 1e-13
    return plan


def gtol(sp, s):
    """The gradient tolerance in force; the defaults are the documented ones."""
    if sp["gradient_tol"] is not None:
        return sp["gradient_tol"]
    return 1e-8 if s == "trust-constr" else 1e-4


def tolerance(pr, est, scale):
    sp = pr.spec
    s = est._solver
    tol = gtol(sp, s)
    if sp["f32"]:
        # scipy's trust region shrinks to nothing where single precision hides the descent
        return 5 * tol + (2e-2 if s == "trust-constr" else 3e-4) * scale
    if s in ("lbfgs", "trust-constr"):
        # its own stopping rule also looks at the decrease of the objective
        return tol * (pr.k + 2) + 3e-5 * scale
    if s == "closed-form":
        return 1e-8 * scale
    return 1.01 * tol + 1e-9 * scale


def judge(pr, est, what):
    """Safety: raise unless the fitted model is optimal for its penalties."""
    sp = pr.spec
    points = [(est.coef_, est.intercept_, sp["alpha"])]
    if sp["kind"] == "path":
        points = list(zip(est.coef_path_, est.intercept_path_, est._alphas))
    for c, b, a in points:
        if not (np.all(np.isfinite(c)) and np.isfinite(b)):
            raise Violation(f"{what}: coefficients are not finite, without a warning", key="not finite")
        if not pr.feasible(c):
            raise Violation(f"{what}: coefficients leave the bounds, without a warning", key="infeasible")
        res, scale = pr.kkt(c, b, alpha=float(a), l1_ratio=sp["l1_ratio"])
        tol = tolerance(pr, est, scale)
        if not res <= tol:
            raise Violation(
                f"{what}: not optimal: residual {res:.3g} of the optimality conditions exceeds {tol:.3g} (gradient_tol {sp['gradient_tol']}), without a warning",
                key="not optimal", solver=est._solver, family=sp["family"], alpha=float(a),
            )


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    over = dict(max_iter=plan["max_iter"], max_inner_iter=plan["max_inner"])
    if plan["start"] is not None:
        r = np.random.default_rng(sp["seed"] + 11)
        sd = pr.moments()[1]
        b = r.normal(size=pr.k) * plan["start"] / sd
        over["start_params"] = np.concatenate([[r.normal()], b]) if sp["fit_intercept"] else b
        st.fault("poor start")
    if plan["at_bound"] is not None:
        # some coefficients start exactly at one of their bounds
        r = np.random.default_rng(sp["seed"] + 12)
        lo = np.broadcast_to(-np.inf if pr.lower is None else pr.lower, (pr.k,))
        hi = np.broadcast_to(np.inf if pr.upper is None else pr.upper, (pr.k,))
        b = np.zeros(pr.k) if plan["start"] is None else b
        side = np.where(r.random(pr.k) < 0.5, lo, hi)
        side = np.where(np.isfinite(side), side, np.where(np.isfinite(lo), lo, hi))
        b = np.where(np.isfinite(side) & (r.random(pr.k) < plan["at_bound"]), side, np.clip(b, lo, hi))
        over["start_params"] = np.concatenate([[r.normal() * 0.2], b]) if sp["fit_intercept"] else b
        st.fault("start at a bound")
    est = pr.estimator(**over)
    fl = [tuple(f) for f in plan["faults"]]
    closed = problems.linkname(sp["family"], sp["link"]) == "identity" and sp["family"] == "normal" and sp["solver"] in ("auto", "closed-form") and (sp["l1_ratio"] == 0 or sp["kind"] == "single" and sp["alpha"] == 0)
    if closed:
        fl = [f for f in fl if f[1] in ("raise", "nomem")]
    with contextlib.ExitStack() as stack:
        stack.enter_context(faults.LinalgFaults(fl, sp["seed"], st))
        if plan["hessian"] and not closed:
            stack.enter_context(faults.inexact_hessian(plan["hessian"], sp["seed"], st))
        if plan["dirty"]:
            stack.enter_context(faults.dirty_memory(plan["dirtyseed"], st))
        if plan["max_iter"] < 50:
            st.fault("tight iteration budget")
        if plan["max_inner"] < 100:
            st.fault("tight inner budget")
        o = obs.outcome(C.fit, est, pr)
    injected = bool(st.faults)
    kinds = sorted(st.faults)
    warned = o[0] == "ok" and bool(obs.convergence_warnings(o[2]))
    res = "raise" if o[0] != "ok" else "warned" if warned else "ok"
    n_iter = getattr(est, "n_iter_", None)
    st.state(sp["family"], sp["link"], sp["solver"], sp["storage"], kinds, res, n_iter)
    st.count("outcome " + res)
    st.steps += n_iter or 0
    if o[0] == "ok" and sp["kind"] == "single" and str(getattr(est, "_solver", "")).startswith("irls") and n_iter > max(1, plan["max_iter"]):
        raise Violation(f"{n_iter} iterations took place with a budget of {plan['max_iter']}", key="over budget")
    if not injected and problems.well_posed(pr):
        for k in (sp["family"].split(" ")[0], getattr(est, "_solver", None)):
            st.count(f"clean {k}")
            if res != "ok":
                st.count(f"clean not converged {k}")
    if o[0] != "ok":
        if not injected and o[1].split(":")[0] in INTERNAL:
            raise Violation(f"a fit fails without any fault: {o[1]}", key="clean fit fails")
        if problems.well_posed(pr) and not any(k.startswith("linalg") or k in ("inexact hessian", "dirty allocation") for k in kinds):
            raise Violation(f"a well-posed fit fails ({', '.join(kinds) or 'no fault'}): {o[1]}", key="clean fit fails")
        return
    if est._solver in ("irls-ls", "irls-cd") and n_iter > plan["max_iter"]:
        raise Violation(f"{n_iter} iterations with a budget of {plan['max_iter']}", key="budget")
    if warned:
        return
    judge(pr, est, "fit with " + ", ".join(kinds) if injected else "fit")
    st.nontrivial = True


def aggregate(agg, tier):
    """Liveness: without faults, well-posed problems converge."""
    c = agg["cover"]
    for k, n in c.items():
        if k.startswith("clean ") and not k.startswith("clean not"):
            fam = k[6:]
            bad = c.get("clean not converged " + fam, 0)
            if n >= 20 and bad > 0.2 * n:
                raise Violation(f"{bad} of {n} well-posed problems ({fam}) do not converge without any fault", key=f"liveness {fam}")


def shrink(plan):
    for f in drop_items(plan["faults"]):
        yield {**plan, "faults": f}
    for k, v in dict(hessian=None, dirty=False, max_iter=300, max_inner=100000, start=None, at_bound=None).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
