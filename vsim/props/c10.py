"""C10: an interrupted optimisation can be resumed and reaches the same optimum."""
import pickle

import numpy as np

from .. import crash, obs, problems, zygote
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import c09
from . import common as C

PROP = "C10"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 150000}
LIVENESS = True
RULE = "distinct (family, link, storage, sequence of segment kinds, solvers and outcomes) tuples"
REAL = C.ENV
STUB = "crashes are injected at traced lines of glum; restarts are pickles restored in a fresh process; the objective and the optimality conditions are evaluated by independent code"
ASSUME = ["strictly convex problems only (canonical or log links, positive ridge part), so that the optimum is unique"]

RESUMES = 6


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "single", "single", "path"), loose=False, convex=True)
    if sp["f32"]:
        sp["f32"] = False
    sp["gradient_tol"] = rng.choice([1e-3, 1e-4, 1e-5, 1e-6])
    sp["hessian_approx"] = rng.choice([0.0, 0.0, 0.05])
    segs = []
    for _ in range(rng.randint(1, 6)):
        segs.append(
            dict(
                op=rng.choice(["fit", "fit", "fit", "crash", "restart", "copy"]),
                mode=rng.choice(["warm", "warm", "warm", "start", "cold"]),
                budget=rng.choice([1, 1, 2, 3, 5, 100]),
                inner=rng.choice([1, 3, 100000, 100000]),
                solver=rng.randrange(12),
                alpha=rng.choice([1.0, 1.0, 1.0, 0.1, 20.0]),
                bounds=rng.choice([None, None, None, "lower", "upper"]),
                at=round(rng.random(), 4),
                kind=rng.choice(sorted(crash.KINDS)),
                wild=rng.choice([0.0, 0.0, 0.5, 2.0]),
            )
        )
    return dict(spec=sp, segs=segs, last=rng.choice(["warm", "warm", "start"]), last_solver=rng.randrange(12), last_budget=rng.choice([4, 10, 100]))


def solvers(pr, bounds):
    sp = pr.spec
    if bounds or sp["lower"] is not None or sp["upper"] is not None or sp["kind"] != "single":
        return ["auto", "irls-cd"]
    if sp["l1_ratio"] > 0:
        return ["auto", "irls-cd"]
    out = ["auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]
    if sp["family"] == "normal" and pr.link == "identity" and sp["kind"] == "single":
        out.append("closed-form")
    return out


def params(pr, est, seg, r):
    """Constructor parameters of one segment."""
    sp = pr.spec
    opts = solvers(pr, seg["bounds"])
    over = dict(max_iter=seg["budget"], max_inner_iter=seg["inner"], solver=opts[seg["solver"] % len(opts)])
    if sp["kind"] == "single":
        over["alpha"] = sp["alpha"] * seg["alpha"]
    if seg["bounds"]:
        b = np.full(pr.k, 0.05 if seg["bounds"] == "upper" else -0.05)
        over[seg["bounds"] + "_bounds"] = b
    over["warm_start"] = seg["mode"] == "warm"
    over["start_params"] = None
    if seg["mode"] == "start" and hasattr(est, "coef_") and hasattr(est, "intercept_") and np.ndim(est.coef_) == 1:
        c, b = np.array(est.coef_, float), est.intercept_
        if seg["wild"]:
            m, sd = pr.moments()
            d = seg["wild"] * r.normal(size=c.size) / (sd if sp["fit_intercept"] else np.hypot(m, sd))
            c, b = c + d, b - m @ d
        over["start_params"] = np.concatenate([[b], c]) if sp["fit_intercept"] else c
    return over


def start_of(pr, est, over):
    """Where the documentation says the fit starts (None: not comparable)."""
    if over["start_params"] is not None:
        s = over["start_params"]
        return (s[1:], s[0]) if pr.spec["fit_intercept"] else (s, 0.0)
    if over["warm_start"] and hasattr(est, "coef_"):
        return np.array(est.coef_, float), float(est.intercept_)
    return None


class Oracle:
    """The problem a segment solves (its bounds may differ from the spec's)."""

    def __init__(self, pr, over):
        self.pr, self.over = pr, over

    def __enter__(self):
        pr = self.pr
        self.keep = pr.lower, pr.upper
        pr.lower = self.over.get("lower_bounds", pr.lower)
        pr.upper = self.over.get("upper_bounds", pr.upper)

    def __exit__(self, *a):
        self.pr.lower, self.pr.upper = self.keep


def feasible_start(pr, over, c):
    lo, hi = over.get("lower_bounds", pr.lower), over.get("upper_bounds", pr.upper)
    lo = -np.inf if lo is None else lo
    hi = np.inf if hi is None else hi
    return bool(np.all(c >= lo) and np.all(c <= hi))


def inspect(pr, est, over, start, ws, st):
    """Safety of one completed segment."""
    sp = pr.spec
    conv = obs.convergence_warnings(ws)
    a = over.get("alpha", sp["alpha"])
    solver = est._solver
    if sp["kind"] == "single":
        rows = getattr(est, "diagnostics_", None)
        searched = any("Line search" in m for m in conv)
        if isinstance(rows, list) and rows and not searched:
            f = [row["objective_fct"] for row in rows]
            for u, v in zip(f, f[1:]):
                if v > u + 1e-9 * (1 + abs(u)):
                    raise Violation(f"the objective increases from {u!r} to {v!r} within a fit that reports no failed line search", key="objective increases", solver=solver)
            if start is not None and feasible_start(pr, over, start[0]):
                F0 = pr.objective(*start, alpha=a)
                F1 = pr.objective(est.coef_, est.intercept_, alpha=a)
                if np.isfinite(F0) and np.isfinite(F1):
                    d, want = f[0] - f[-1], F0 - F1
                    st.count("start compared")
                    if abs(d - want) > 1e-6 * (1 + abs(F0) + abs(F1) + abs(f[0])):
                        raise Violation(f"the fit does not continue from where the earlier one stopped: it improves the objective by {d:.8g}, from the requested start the improvement is {want:.8g}", key="wrong start", solver=solver, mode="start" if over["start_params"] is not None else "warm")
        onestep = sp["family"] == "normal" and pr.link == "identity"
        out = any("maximum number of iterations" in m or "lbfgs failed to converge" in m for m in conv)
        if out and solver in ("irls-ls", "irls-cd", "lbfgs") and not any("not finite" in m for m in conv) and not (onestep and solver != "lbfgs"):
            # a fit that gives up has used the iterations it was given, whatever earlier fits used
            st.count("budget used up")
            if est.n_iter_ < over["max_iter"]:
                raise Violation(f"the fit gives up after {est.n_iter_} of the {over['max_iter']} iterations it was given", key="budget not used", solver=solver)
        if solver in ("irls-ls", "irls-cd") and est.n_iter_ >= over["max_iter"] and not conv:
            # the budget was used up; silence is only right if it sufficed
            st.count("silent at the budget")
    if conv:
        return True
    with Oracle(pr, over):
        keep = sp["alpha"]
        sp["alpha"] = a
        try:
            c09.judge(pr, est, f"segment with budget {over['max_iter']} and solver {solver}")
        finally:
            sp["alpha"] = keep
    return False


def fit_elsewhere(payload):
    """Restore the estimator in a process without history, fit, store it."""
    sp, blob = payload
    est = pickle.loads(blob)
    o = obs.outcome(C.fit, est, problems.Problem(sp))
    return ("ok", pickle.dumps(est), o[2]) if o[0] == "ok" else o


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    r = np.random.default_rng(sp["seed"] + 5)
    ref = pr.estimator(max_iter=1000, solver="auto")
    o = obs.outcome(C.fit, ref, pr)
    if o[0] != "ok" or obs.convergence_warnings(o[2]):
        raise Vacuous("the uninterrupted fit does not converge")
    base = pr.estimator().get_params(deep=False)
    est = pr.estimator()
    log = []
    for seg in plan["segs"]:
        over = params(pr, est, seg, r)
        est.set_params(**{**base, **over})
        start = start_of(pr, est, over)
        if seg["op"] == "crash":
            out, where = C.crash_fit(est, lambda: pr.estimator(**over), pr, seg["at"], seg["kind"], st)
            log.append(("crash", out))
            continue
        if seg["op"] == "restart":
            st.fault("process restart")
            rep = zygote.call("vsim.props.c10", "fit_elsewhere", (sp, pickle.dumps(est)))
            if rep[0] == "ok" and rep[1][0] == "ok":
                est = pickle.loads(rep[1][1])
                o = ("ok", None, rep[1][2])
            else:
                o = rep[1] if rep[0] == "ok" else ("raise", str(rep[1]), [])
        elif seg["op"] == "copy":
            est = C.roundtrip(est, "deepcopy")
        if seg["op"] != "restart":
            o = obs.outcome(C.fit, est, pr)
        st.steps += 1
        if o[0] != "ok":
            if seg["wild"] and seg["mode"] == "start":
                st.count("wild start failed")
                log.append("raise")
                continue
            raise Violation(f"resuming fails: {o[1]}", key="resume fails:" + o[1].split(":")[0], params={k: str(v) for k, v in over.items()})
        warned = inspect(pr, est, over, start, o[2], st)
        if warned:
            st.fault("budget exhausted")
        log.append((seg["op"], seg["mode"], est._solver, warned))
    # faults stop: bounded liveness
    opts = solvers(pr, None)
    for k in range(RESUMES):
        over = params(pr, est, dict(budget=plan["last_budget"], inner=100000, solver=plan["last_solver"], alpha=1.0, bounds=None, mode=plan["last"], wild=0.0), r)
        if k >= RESUMES - 2:
            over.update(max_iter=1000, solver="auto")
        est.set_params(**{**base, **over})
        start = start_of(pr, est, over)
        o = obs.outcome(C.fit, est, pr)
        if o[0] != "ok":
            raise Violation(f"resuming fails: {o[1]}", key="resume fails:" + o[1].split(":")[0])
        if not inspect(pr, est, over, start, o[2], st):
            break
    else:
        F = pr.objective(est.coef_, est.intercept_)
        F0 = pr.objective(ref.coef_, ref.intercept_)
        if sp["kind"] == "single" and not F <= F0 + 1e-7 * (1 + abs(F0)):
            raise Violation(f"{RESUMES} resumptions do not reach the optimum that an uninterrupted fit reaches (objective {F:.10g} instead of {F0:.10g})", key="no progress")
        st.count("optimal but still warning")
    if sp["kind"] == "single":
        F, F0 = pr.objective(est.coef_, est.intercept_), pr.objective(ref.coef_, ref.intercept_)
        _, sd = pr.moments()
        gap = np.abs((est.coef_ - ref.coef_) * sd).max(initial=0) + abs(est.intercept_ - ref.intercept_) + 1
        tol = 3 * max(c09.tolerance(pr, e, 1.0) for e in (est, ref)) * gap + 1e-8 * (1 + abs(F0))
        if abs(F - F0) > tol:
            raise Violation(f"the resumed fit ends at objective {F:.10g}, an uninterrupted one at {F0:.10g}", key="other optimum", solver=est._solver)
    st.state(sp["family"], pr.link, sp["storage"], log, k)
    st.nontrivial = bool(plan["segs"])


def shrink(plan):
    for s in drop_items(plan["segs"]):
        yield {**plan, "segs": s}
    plain = dict(op="fit", mode="warm", inner=100000, solver=0, alpha=1.0, bounds=None, wild=0.0)
    for j, s in enumerate(plan["segs"]):
        for k, v in plain.items():
            if s[k] != v:
                yield {**plan, "segs": plan["segs"][:j] + [{**s, k: v}] + plan["segs"][j + 1 :]}
    for k, v in dict(last="warm", last_solver=0, last_budget=100).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
