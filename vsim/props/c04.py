"""C04: concurrent fits of separate models do not influence each other."""
import warnings

import numpy as np

from .. import crash, obs, problems, threads
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import common as C

PROP = "C04"
LEVEL = "exploration"
RUNS = {"quick": 650, "thorough": 60000}
RULE = "distinct (kinds, storages, shared objects, executed schedule of baton transfers, fault, outcomes) tuples"
REAL = C.ENV
STUB = "the clients are simulated threads that hand over one baton at Python lines and C calls of glum"
ASSUME = [
    "preemption happens between Python lines of glum and, in some runs, before and after each C call they make; compiled code runs without interruption",
    "a shared RandomState instance is shared state by design and is not covered",
]

SHARE = ["data", "penalty", "bounds", "family", "link", "start", "cv"]


def generate(rng, i, tier):
    T = rng.choice([2, 2, 3, 4])
    fits = []
    base = None
    for t in range(T):
        if base is None or rng.random() < 0.25:
            sp = C.draw_spec(rng, ("single", "single", "path", "cv"), convex=rng.random() < 0.9)
            sp["n"] = min(sp["n"], 40)
            if sp["gradient_tol"] < 1e-6:
                sp["gradient_tol"] = 1e-6
            if sp["kind"] != "single" and sp["alphas"] and len(sp["alphas"]) > 2:
                sp["alphas"] = sp["alphas"][:2]
        else:
            sp = dict(base)
            sp["alpha"] = rng.choice([0.003, 0.05, 0.5])
            sp["fit_intercept"] = sp["fit_intercept"] or rng.random() < 0.2
            if sp["fit_intercept"]:
                sp["scale_predictors"] = rng.random() < 0.5
            sp["hessian_approx"] = rng.choice([0.0, 0.05])
        base = base or sp
        fits.append(
            dict(
                spec=sp,
                own=sp is base or any(sp[k] != base[k] for k in ("seed",)),
                start=rng.random() < 0.3,
                warm=rng.random() < 0.2,
                cov=rng.random() < 0.15,
                twice=rng.random() < 0.2,
            )
        )
    return dict(
        fits=fits,
        share=sorted(s for s in SHARE if rng.random() < 0.7),
        preempts=[[rng.randrange(T), round(rng.random(), 5), rng.randrange(4), rng.random() < 0.4] for _ in range(rng.choice([1, 1, 2, 3, 4, 8, 20]))],
        order=[rng.randrange(8) for _ in range(rng.randint(1, 4))],
        fine=rng.random() < 0.2,
        kill=[rng.randrange(T), round(rng.random(), 4), rng.choice(sorted(crash.KINDS))] if rng.random() < 0.25 else None,
    )


def family_object(name):
    import glum

    if name == "ghs":
        return glum.GeneralizedHyperbolicSecant()
    if name.startswith("tweedie"):
        return glum.TweedieDistribution(float(name.split("(")[1].rstrip(")")) if "(" in name else 1.5)
    if name.startswith("negative"):
        return glum.NegativeBinomialDistribution(problems.theta_of(name))
    return {
        "normal": glum.NormalDistribution, "poisson": glum.PoissonDistribution, "gamma": glum.GammaDistribution,
        "inverse.gaussian": glum.InverseGaussianDistribution, "binomial": glum.BinomialDistribution,
    }[name]()


def link_object(name):
    import glum

    if name.startswith("tweedie"):
        return glum.TweedieLink(float(name.split("(")[1].rstrip(")")) if "(" in name else 1.5)
    return {"identity": glum.IdentityLink, "log": glum.LogLink, "logit": glum.LogitLink, "cloglog": glum.CloglogLink}[name]()


class World:
    """Argument objects of all fits; equal problems share what the plan says."""

    def __init__(self, plan, only=None):
        self.shared = {}
        self.jobs = []
        share = set(plan["share"])
        for j, f in enumerate(plan["fits"]):
            if only is not None and j != only:
                self.jobs.append(None)
                continue
            sp = f["spec"]
            pr = problems.Problem(sp)
            kw = pr.kwargs(family=family_object(sp["family"]), link=link_object(pr.link), warm_start=f["warm"])
            if f["start"]:
                r = np.random.default_rng(sp["seed"] + 3)
                c = r.normal(size=pr.k) * 0.2 / pr.moments()[1]
                kw["start_params"] = np.concatenate([[r.normal()], c]) if sp["fit_intercept"] else c
            key = (sp["seed"], sp["storage"], sp["kind"], pr.k)

            def common(kind, value, extra=()):
                if kind not in share or value is None:
                    return value
                return self.shared.setdefault((kind, key, extra), value)

            for nm, kind in (("P1", "penalty"), ("P2", "penalty"), ("alpha", "penalty"), ("alphas", "penalty"), ("lower_bounds", "bounds"), ("upper_bounds", "bounds"), ("start_params", "start"), ("cv", "cv")):
                if nm in kw and not np.isscalar(kw[nm]):
                    kw[nm] = common(kind, kw[nm], (nm, np.shape(kw[nm])[:1] if nm != "cv" else 0))
            if "family" in share:
                kw["family"] = self.shared.setdefault(("family", sp["family"]), kw["family"])
            if "link" in share:
                kw["link"] = self.shared.setdefault(("link", pr.link), kw["link"])
            y, w, off = pr.yw()
            X = common("data", pr.X(), "X")
            y, w, off = common("data", y, "y"), common("data", w, "w"), common("data", off, "off")
            import glum

            cls = glum.GeneralizedLinearRegressorCV if sp["kind"] == "cv" else glum.GeneralizedLinearRegressor
            self.jobs.append((pr, cls(**kw), X, y, w, off))

    def run(self, j, f):
        pr, est, X, y, w, off = self.jobs[j]
        kw = dict(store_covariance_matrix=True) if f["cov"] else {}
        for _ in range(2 if f["twice"] else 1):
            est.fit(X, pr.target(y), sample_weight=w, offset=off, **kw)
        return est

    def digest(self):
        return {repr(k): obs.digest(v) for k, v in self.shared.items()}


def outcome(fn):
    try:
        fn()
        return "ok"
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:200]


def answers(world, j):
    pr, est, *_ = world.jobs[j]
    return obs.answers(est, *C.data(pr), inference=False)


def simulate(world, plan, preempts=(), record=False, inject=None, max_steps=500_000):
    sim = threads.ThreadSim(C.DIRS, preempts, plan["order"], plan["fine"], record=record, max_steps=max_steps)
    for j, f in enumerate(plan["fits"]):
        sim.add(lambda j=j, f=f: outcome(lambda: world.run(j, f)), inject=inject[1:] if inject and inject[0] == j else None)
    sim.run()
    return sim


def execute(plan, st):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = []
        for j, f in enumerate(plan["fits"]):
            wd = World(plan, only=j)
            o = outcome(lambda: wd.run(j, f))
            want.append((o, answers(wd, j) if o == "ok" else None))
        probe = World(plan)
        before = probe.digest()
        try:
            sim = simulate(probe, plan, record=True)
        except threads.StepBound as e:
            raise Vacuous(str(e)) from e
        if probe.digest() != before:
            bad = [k for k, v in probe.digest().items() if before[k] != v]
            raise Violation(f"fits changed objects they share: {bad}", key="shared objects changed")
        steps = [t.step for t in sim.tasks]
        hot = {}
        for t, s in sim.hot:
            hot.setdefault(t, []).append(s)
        pre = []
        for t, fr, pick, ishot in plan["preempts"]:
            t %= len(steps)
            if steps[t] < 2:
                continue
            s = hot[t][int(fr * (len(hot[t]) - 1) + 0.5)] if ishot and hot.get(t) else 1 + int(fr * (steps[t] - 1))
            pre.append([t, s, pick])
        inject = None
        if plan["kill"] is not None:
            t = plan["kill"][0] % len(steps)
            inject = (t, 1 + int(plan["kill"][1] * max(0, steps[t] - 1)), crash.KINDS[plan["kill"][2]]("injected"))
        world = World(plan)
        filters = list(warnings.filters)
        sim = simulate(world, plan, pre, inject=inject, max_steps=4 * sum(steps) + 10_000)
        if list(warnings.filters) != filters:
            raise Violation("concurrent fits leave other warning filters behind", key="filters")
    st.steps += sum(t.step for t in sim.tasks)
    if sim.switches:
        st.fault("preemption", sim.switches)
    kinds = [(f["spec"]["kind"], f["spec"]["storage"]) for f in plan["fits"]]
    for j, t in enumerate(sim.tasks):
        if inject and inject[0] == j:
            # it may have failed, or dealt with the fault
            st.fault("killed fit " + plan["kill"][2])
            continue
        o, a = want[j]
        got = t.result if t.exc is None else repr(t.exc)
        if got != o:
            raise Violation(f"fit {j} of {len(kinds)} ends with {got} beside others and with {o} alone", key="outcome")
        if o == "ok":
            f32 = plan["fits"][j]["spec"]["f32"]
            obs.compare(answers(world, j), a, f"fit {j} of {len(kinds)} beside others (sharing {plan['share']})", warns=False, rtol=1e-4 if f32 else 1e-8, atol=1e-6 if f32 else 1e-10)
    if world.digest() != before:
        bad = [k for k, v in world.digest().items() if before[k] != v]
        raise Violation(f"fits changed objects they share: {bad}", key="shared objects changed")
    st.state(kinds, plan["share"], sim.trace, inject and inject[:2], [w[0] for w in want])
    st.nontrivial = sim.switches > 0


def shrink(plan):
    for v in drop_items(plan["preempts"]):
        yield {**plan, "preempts": v}
    for v in drop_items(plan["fits"]):
        if len(v) >= 2:
            yield {**plan, "fits": v}
    for v in drop_items(plan["share"]):
        yield {**plan, "share": v}
    for k, v in dict(kill=None, fine=False, order=[0]).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for j, f in enumerate(plan["fits"]):
        for k in ("start", "warm", "cov", "twice"):
            if f[k]:
                yield {**plan, "fits": plan["fits"][:j] + [{**f, k: False}] + plan["fits"][j + 1 :]}
    # simplify every spec in the same way
    cands = [list(shrink_spec(f["spec"])) for f in plan["fits"]]
    keys = set()
    for j, cs in enumerate(cands):
        for c in cs:
            d = {k: v for k, v in c.items() if plan["fits"][j]["spec"].get(k) != v}
            if c["kind"] != "single" and c.get("alphas") is None and c["l1_ratio"] == 0:
                continue
            h = repr(d)
            if h in keys:
                continue
            keys.add(h)
            yield {**plan, "fits": [{**f, "spec": {**f["spec"], **d}} for f in plan["fits"]]}
