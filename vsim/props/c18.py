"""C18: bounds and constraints hold in every returned model."""
import pickle

import numpy as np

from .. import crash, obs, problems
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import c09
from . import common as C

PROP = "C18"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 120000}
LIVENESS = True
RULE = "distinct (family, link, storage, kind, sequence of restrictions, starts, solvers and outcomes) tuples"
REAL = C.ENV
STUB = "crashes are injected at traced lines of glum; feasibility and optimality are evaluated by independent code (non-negative least squares for the multipliers)"
ASSUME = ["constraint violations up to 1e-6 (the solver's own documented threshold) plus rounding count as satisfied"]

BOUNDS = ["nonneg", "nonpos", "box", "vec", "pinned", "shifted", "one", "scalar", "crossing"]
INEQ = ["cone", "general", "tight", "contradictory"]


def generate(rng, i, tier):
    ineq = rng.random() < 0.45
    mono = ineq and rng.random() < 0.4
    sp = C.draw_spec(
        rng,
        ("single", "single", "single", "path", "cv") if not ineq else ("single", "single", "single", "path", "cv"),
        loose=False,
        convex=rng.random() < 0.9,
        **({"storage": ["formula"]} if mono else {}),
    )
    sp["lower"] = sp["upper"] = None
    sp["gradient_tol"] = 1e-3 if sp["f32"] else rng.choice([1e-3, 1e-4, 1e-6])
    sp["hessian_approx"] = rng.choice([0.0, 0.0, 0.05])
    if ineq:
        sp["l1_ratio"] = 0.0
        sp["l1_list"] = None
        if sp["kind"] != "single" and not sp["alphas"]:
            sp["alphas"] = [1.0, 0.1, 0.02]
        sp["f32"] = False
        if sp["storage"] == "formula" and not sp["levels"]:
            sp["levels"] = [3]
    if sp["kind"] == "cv":
        sp["f32"] = False
    sp["const"] = rng.choice([1.0, -0.7, 3.0, 0.1]) if rng.random() < 0.12 and sp["fit_intercept"] and sp["density"] == 1 else None
    evs = []
    for j in range(rng.randint(1, 5)):
        if ineq:
            what = "mono" if mono else rng.choice(INEQ)
            if rng.random() < 0.2:
                what = None
        else:
            what = rng.choice(BOUNDS + [None])
        evs.append(
            dict(
                what=what,
                seed=rng.randrange(2**20),
                op=rng.choice(["fit", "fit", "fit", "fit", "crash", "restart"]),
                start=rng.choice(["cold", "warm", "warm", "start", "start"]),
                wild=rng.choice([1e-12, 0.1, 1.0, 5.0]),
                budget=rng.choice([1, 2, 5, 200, 200, 200]),
                inner=rng.choice([1, 2, 100000, 100000]),
                solver=rng.randrange(4),
                loose=rng.random() < 0.15,
                scale=rng.random() < 0.3,
                random=rng.random() < 0.2,
                at=round(rng.random(), 4),
                kind=rng.choice(sorted(crash.KINDS)),
            )
        )
    return dict(spec=sp, events=evs)


def bounds(pr, ev):
    r = np.random.default_rng(ev["seed"])
    k, w = pr.k, ev["what"]
    sd = pr.moments()[1]
    lo, hi = np.full(k, -np.inf), np.full(k, np.inf)
    s = 0.3 / sd
    if w == "nonneg":
        lo[:] = 0
    elif w == "nonpos":
        hi[:] = 0
    elif w == "box":
        lo, hi = -s * r.uniform(0.05, 1, k), s * r.uniform(0.05, 1, k)
    elif w == "vec":
        m = r.random(k)
        lo[m < 0.5] = -(s * r.uniform(0, 1, k))[m < 0.5]
        hi[m > 0.3] = (s * r.uniform(0, 1, k))[m > 0.3]
    elif w == "pinned":
        lo, hi = -s, s.copy()
        j = r.integers(k)
        lo[j] = hi[j] = s[j] * r.uniform(-1, 1)
    elif w == "shifted":
        lo = s * r.uniform(0.2, 1, k)
        hi = lo + s
        m = r.random(k) < 0.5
        lo, hi = np.where(m, -hi, lo), np.where(m, -lo, hi)
    elif w == "one":
        j = r.integers(k)
        (hi if r.random() < 0.5 else lo)[j] = 0.0
    elif w == "scalar":
        v = 0.1 * float(r.uniform())
        return dict(lower_bounds=-v, upper_bounds=v), np.full(k, -v), np.full(k, v)
    elif w == "crossing":
        lo, hi = np.full(k, -1.0), np.full(k, 1.0)
        j = r.integers(k)
        lo[j], hi[j] = 0.5, 0.2
    out = {}
    if np.any(np.isfinite(lo)):
        out["lower_bounds"] = lo.copy()
    if np.any(np.isfinite(hi)):
        out["upper_bounds"] = hi.copy() if w != "box" else list(map(float, hi))
    return out, lo, hi


def constraints(pr, ev):
    r = np.random.default_rng(ev["seed"])
    k, w = pr.k, ev["what"]
    sd = pr.moments()[1]
    m = int(r.integers(1, 4))
    if w == "mono":
        spec, rows = {}, []
        lo = 1 if pr.spec["drop_first"] else 0
        pos = pr.spec["p"]
        for j, L in enumerate(pr.spec["levels"]):
            cols = list(range(pos, pos + L - lo))
            pos += L - lo
            if j and r.random() < 0.5:
                continue
            up = bool(r.random() < 0.5)
            spec[f"c{j}"] = "increasing" if up else "decreasing"
            if len(cols) == 1:
                a = np.zeros(k)
                a[cols[0]] = -1
                rows.append(a if up else -a)
            for u, v in zip(cols, cols[1:]):
                a = np.zeros(k)
                a[u], a[v] = 1, -1
                rows.append(a if up else -a)
        if not pr.spec["formula_inter"] and r.random() < 0.4 or not rows:
            up = bool(r.random() < 0.5)
            spec["x0"] = "increasing" if up else "decreasing"
            a = np.zeros(k)
            a[0] = -1
            rows.append(a if up else -a)
            if pr.spec["formula_inter"]:
                a = np.zeros(k)
                a[k - 1] = -1
                rows.append(a if up else -a)
        A = np.array(rows)
        return dict(monotonic_constraints=spec), A, np.zeros(len(A))
    A = r.normal(size=(m, k)) * (r.random((m, k)) < 0.7) * sd
    A[:, 0] = np.where(np.abs(A).sum(axis=1) == 0, sd[0], A[:, 0])
    if w == "cone":
        b = np.zeros(m)
    elif w == "general":
        x = r.normal(size=k) * 0.2 / sd
        b = A @ x + r.uniform(0, 0.3, m)
    elif w == "tight":
        x = r.normal(size=k) * 0.2 / sd
        A = np.vstack([A, -A[:1]])
        b = A @ x
    else:
        A = np.vstack([A[:1], -A[:1]])
        b = np.array([-0.5, -0.5])
    if r.random() < 0.3:
        return dict(A_ineq=A.tolist(), b_ineq=b.tolist()), A, b
    return dict(A_ineq=A.copy(), b_ineq=b.copy()), A, b


def params(pr, est, ev):
    sp = pr.spec
    r = np.random.default_rng(ev["seed"] + 1)
    over = dict(max_iter=ev["budget"], max_inner_iter=ev["inner"], start_params=None, warm_start=False, scale_predictors=ev["scale"] and sp["fit_intercept"], selection="random" if ev["random"] and ev["what"] in BOUNDS else "cyclic", solver="auto")
    lo = hi = A = b = None
    if ev["what"] in BOUNDS:
        kw, lo, hi = bounds(pr, ev)
        over.update(kw)
        over["solver"] = ["auto", "irls-cd"][ev["solver"] % 2]
    elif ev["what"] is not None:
        kw, A, b = constraints(pr, ev)
        over.update(kw)
        opts = ["auto", "trust-constr"]
        if not b.any():
            opts += ["irls-ls-monotonic", "irls-ls-monotonic"]
        over["solver"] = opts[ev["solver"] % len(opts)]
    if ev["loose"] and sp["kind"] != "cv":
        # satisfied with anything: restrictions still hold
        over["gradient_tol"] = 1e3
    if ev["start"] == "warm" and sp["kind"] != "cv":
        over["warm_start"] = True
    if ev["start"] == "start":
        c = r.normal(size=pr.k) * ev["wild"] / pr.moments()[1]
        over["start_params"] = np.concatenate([[r.normal()], c]) if sp["fit_intercept"] else c
    return over, lo, hi, A, b


def points(est, sp):
    if sp["kind"] == "single":
        return [(est.coef_, est.intercept_, float(sp["alpha"]))]
    if sp["kind"] == "path":
        return list(zip(est.coef_path_, np.broadcast_to(est.intercept_path_, len(est.coef_path_)), np.asarray(est._alphas, float)))
    return [(est.coef_, est.intercept_, float(est.alpha_))]


def execute(plan, st):
    sp = dict(plan["spec"])
    pr = problems.Problem(sp)
    base = pr.estimator().get_params(deep=False)
    base.update(lower_bounds=None, upper_bounds=None)
    est = pr.estimator()
    log = []
    for ev in plan["events"]:
        over, lo, hi, A, b = params(pr, est, ev)
        est.set_params(**{**base, **over})
        sp["scale_predictors"] = over["scale_predictors"]
        pr.lower, pr.upper = lo, hi
        if ev["loose"]:
            st.fault("stops at once")
        if ev["op"] == "restart":
            st.fault("restart")
            est = pickle.loads(pickle.dumps(est))
        if ev["op"] == "crash":
            out, where = C.crash_fit(est, lambda: pr.estimator(**over), pr, ev["at"], ev["kind"], st)
            log.append(("crash", ev["what"]))
            continue
        o = obs.outcome(C.fit, est, pr)
        st.steps += 1
        conv = o[0] == "ok" and obs.convergence_warnings(o[2])
        log.append((ev["what"], ev["start"], over["solver"], o[0], bool(conv)))
        st.count(f"{ev['what']} {'raise' if o[0] != 'ok' else 'warned' if conv else 'converged'}")
        if ev["budget"] < 100:
            st.fault("tight budget")
        if ev["start"] == "start" and ev["what"]:
            st.fault("start outside the restrictions")
        how = f"{ev['what']} restrictions, {ev['start']} start, solver {getattr(est, '_solver', over['solver'])}, budget {ev['budget']}, history {log[:-1]}"
        if o[0] != "ok":
            if ev["what"] in ("crossing", "contradictory") or ev["start"] == "start" or not problems.well_posed(pr):
                continue
            if est._solver in ("trust-constr",) or (ev["start"] == "warm" and len(log) > 1):
                # a warm start may itself come from a fit that ran away
                st.count("failing " + est._solver)
                continue
            raise Violation(f"the fit fails: {o[1]}; {how}", key="fails:" + o[1].split(":")[0])
        irls = str(getattr(est, "_solver", "")).startswith("irls")
        if irls and sp["kind"] == "single" and est.n_iter_ > ev["budget"]:
            raise Violation(f"{est.n_iter_} iterations took place with a budget of {ev['budget']}: {how}", key="over budget")
        if irls and sp["kind"] == "single" and ev["what"] != "contradictory" and ev["budget"] >= 200 and ev["inner"] >= 10000 and ev["start"] == "cold" and not ev["loose"] and sp["gradient_tol"] >= (1e-4 if ev["what"] == "mono" else 1e-8) and "gradient_tol" not in over and problems.well_posed(pr):
            st.count("clean " + est._solver)
            if conv:
                st.count("clean not converged " + est._solver)
        if ev["what"] == "crossing":
            raise Violation(f"bounds nothing can satisfy are accepted: {how}, coefficients {est.coef_}", key="crossing")
        if ev["what"] == "contradictory":
            if not conv and not any("bound" in m.lower() or "constraint" in m.lower() for _, m in o[2]):
                raise Violation(f"restrictions nothing can satisfy are accepted silently: {how}, coefficients {est.coef_}", key="silent " + ev["what"])
            st.nontrivial = True
            continue
        for c, b0, alpha in points(est, sp):
            c = np.asarray(c, float)
            if ev["what"] in BOUNDS:
                if not pr.feasible(c):
                    j = int(np.argmax(np.maximum(lo - c, c - hi)))
                    raise Violation(f"coefficient {j} is {c[j]!r}, its bounds are [{lo[j]!r}, {hi[j]!r}]: {how}", key="outside the bounds")
                st.nontrivial = True
            if A is not None and not conv:
                v = A @ c - b
                tol = (1e-6 if est._solver == "irls-ls-monotonic" else 1e-5) * 1.01 + 1e-8 * (np.abs(A) @ np.abs(c) + np.abs(b))
                if np.any(v > tol):
                    raise Violation(f"a constraint is violated by {v.max():.3g}, without a warning: {how}", key="constraint violated")
                st.nontrivial = True
            if conv or not np.all(np.isfinite(c)):
                if not conv:
                    raise Violation(f"coefficients are not finite: {how}", key="not finite")
                continue
            if sp["kind"] == "cv" or est._solver == "trust-constr" or "gradient_tol" in over:
                continue
            res, scale = pr.kkt(c, b0, alpha=alpha, A=A, b=b)
            tol = c09.tolerance(pr, est, scale)
            if A is not None:
                tol += 1e-6 * scale
            if not res <= tol:
                raise Violation(f"not optimal among the models that satisfy the restrictions: residual {res:.3g} exceeds {tol:.3g}, without a warning: {how}", key="not optimal " + ("constrained" if A is not None else "bounded"))
    st.state(sp["family"], pr.link, sp["storage"], sp["kind"], log)


def aggregate(agg, tier):
    c = agg["cover"]
    for k in BOUNDS:
        n = sum(c.get(f"{k} {o}", 0) for o in ("raise", "warned", "converged"))
        if k not in ("crossing",) and n >= 60 and c.get(f"{k} converged", 0) < 0.2 * n:
            raise Violation(f"only {c.get(f'{k} converged', 0)} of {n} fits with restrictions '{k}' converge", key="liveness " + k)
    for k, n in c.items():
        if k.startswith("clean irls") and n >= 30 and c.get("clean not converged" + k[5:], 0) > 0.4 * n:
            raise Violation(f"{c['clean not converged' + k[5:]]} of {n} undisturbed restricted fits by {k[6:]} do not converge", key="liveness" + k[5:])


def shrink(plan):
    for v in drop_items(plan["events"]):
        yield {**plan, "events": v}
    plain = dict(op="fit", start="cold", budget=200, inner=100000, scale=False, random=False, loose=False, solver=0, wild=0.1)
    for j, e in enumerate(plan["events"]):
        for k, v in plain.items():
            if e[k] != v:
                yield {**plan, "events": plan["events"][:j] + [{**e, k: v}] + plan["events"][j + 1 :]}
    for v in shrink_spec(plan["spec"]):
        if v["storage"] != plan["spec"]["storage"] and any(e["what"] == "mono" for e in plan["events"]):
            continue
        if v["levels"] != plan["spec"]["levels"] and plan["spec"]["storage"] == "formula":
            continue
        yield {**plan, "spec": v}
