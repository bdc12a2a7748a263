"""C02: compiled parallel loops give team-size- and schedule-independent results."""
import numpy as np

from .. import obs, problems
from ..core import Vacuous, Violation, drop_items, shrink_spec
from ..omp import runtime
from . import common as C

PROP = "C02"
LEVEL = "exploration"
VARIANT = "omp"
RUNS = {"quick": 5000, "thorough": 400000}
RULE = "distinct (loop or fit, family, link, precision, team, executed schedule of the parallel regions) tuples"
REAL = C.ENV + "; gcc's OpenMP outlining of the kernels"
STUB = "libgomp is replaced by a simulated OpenMP runtime (vsim/omp/simgomp.cpp) that runs a team as coroutines and decides every switch; gcc's thread sanitizer instrumentation supplies the switching points and the accesses checked for races"
ASSUME = [
    "sequentially consistent memory: weak-memory effects only exist where there is a data race, and races are reported as such",
    "tabmat's own parallel loops run on one thread",
]

FAMS = problems.CONVEX + problems.ODD
METHODS = ["deviance", "log_likelihood", "dispersion", "dispersion_deviance", "eta_mu_deviance", "rowwise_gradient_hessian", "unit_deviance", "active_rows"]


def schedule(rng):
    return dict(
        seed=rng.randrange(2**31),
        team=rng.choice([2, 2, 3, 4, 4, 7, 8, 12, 16]),
        vary=rng.random() < 0.2,
        prob=rng.choice([0.0, 0.002, 0.02, 0.1, 0.4]),
        hot=rng.choice([0.0, 0.1, 0.5, 1.0]),
        stall=rng.randrange(4) if rng.random() < 0.2 else -1,
        upto=None,
    )


def generate(rng, i, tier):
    if rng.random() < 0.75:
        fam, link = rng.choice(FAMS)
        return dict(
            mode="kernel",
            family=fam,
            link=link,
            f32=rng.random() < 0.3,
            n=rng.choice([1, 2, 3, 5, 8, 17, 40, 64, 131]),
            seed=rng.randrange(2**31),
            layout=rng.choice(["plain", "plain", "plain", "strided", "readonly", "reversed"]),
            weights=rng.choice(["uniform", "random", "zeros"]),
            ops=rng.sample(METHODS, rng.randint(1, 4)),
            schedules=[schedule(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
        )
    sp = C.draw_spec(rng, ("single", "single", "path", "cv"), convex=rng.random() < 0.85, small=True)
    if sp["link"] == "identity" and sp["family"] != "normal":
        sp["max_iter"] = 20  # needs very many otherwise, each with many regions
    sp["n"] = min(sp["n"], 40)
    sp["gradient_tol"] = 1e-3 if sp["f32"] else rng.choice([1e-6, 1e-8])
    sp["hessian_approx"] = rng.choice([0.0, 0.05, 0.3])
    if sp["kind"] != "single":
        sp["f32"] = False
        sp["gradient_tol"] = 1e-6
    sch = schedule(rng)
    sch["prob"] = rng.choice([0.0, 0.002, 0.02])
    return dict(mode="fit", spec=sp, schedules=[sch], verbose=rng.random() < 0.15)


def configure(s):
    if s is None:
        runtime.config()
    else:
        runtime.config(s["seed"], s["team"], s["vary"], s["prob"], s["hot"], s["stall"], events=(0, runtime.ALL if s["upto"] is None else s["upto"]))


def racefree(what, s):
    r = runtime.races()
    if r:
        a = r[0]
        raise Violation(
            f"{what}: two members of a team of {s['team']} touch the same memory without synchronisation, {a['kinds'][0]} and {a['kinds'][1]}, in {a['function']} ({a['module']})",
            key="data race " + what.split(" ")[0], races=r[:4], switches=runtime.trace(60),
        )


def account(st, s):
    k = runtime.stats()
    st.steps += k["events"]
    if k["switches"]:
        st.fault("preemption in a parallel region", k["switches"])
    if s["stall"] >= 0 and k["regions"] > k["single_regions"]:
        st.fault("stalled team member")
    if k["shrunk"]:
        st.fault("smaller team than requested", k["shrunk"])
    st.count("regions", k["regions"])
    st.count("work-share chunks", k["shares"])
    return k


def distribution(family, link):
    import glum

    p = problems.power_of(family)
    if family == "ghs":
        d = glum.GeneralizedHyperbolicSecant()
    elif family == "binomial":
        d = glum.BinomialDistribution()
    elif family.startswith("negative"):
        d = glum.NegativeBinomialDistribution(problems.theta_of(family))
    else:
        d = {"normal": glum.NormalDistribution, "poisson": glum.PoissonDistribution, "gamma": glum.GammaDistribution, "inverse.gaussian": glum.InverseGaussianDistribution}.get(family, lambda: glum.TweedieDistribution(p))()
    if link.startswith("tweedie"):
        ln = glum.TweedieLink(1.5)
    else:
        ln = {"identity": glum.IdentityLink, "log": glum.LogLink, "logit": glum.LogitLink, "cloglog": glum.CloglogLink}[link]()
    return d, ln


class Data:
    def __init__(self, plan):
        r = np.random.default_rng(plan["seed"])
        n, fam, link = plan["n"], plan["family"], plan["link"]
        self.factor = float(r.uniform(0.1, 1.5))
        if link == "identity" and fam not in ("normal", "ghs") or link.startswith("tweedie"):
            eta = r.uniform(0.5, 2.0, n)
            step = r.uniform(0, 0.3, n)
        else:
            eta = r.normal(size=n) * r.choice([0.3, 1.0, 2.5])
            step = r.normal(size=n) * 0.5
        mu = problems.link_inv(link, eta)[0]
        if fam == "binomial":
            y = r.choice([0.0, 1.0, 0.0, 1.0, 0.25], n)
        elif fam in ("normal", "ghs"):
            y = mu + r.normal(size=n)
        elif fam == "poisson" or fam.startswith("negative"):
            y = r.poisson(np.minimum(mu, 50)).astype(float)
        else:
            y = mu * r.gamma(2.0, 0.5, n) + 0.05
            if fam.startswith("tweedie") and problems.power_of(fam) < 2:
                y = np.where(r.random(n) < 0.3, 0.0, y)
        w = {"uniform": np.full(n, 1.0 / n), "random": r.uniform(0.1, 2, n), "zeros": r.uniform(0.1, 2, n) * (r.random(n) < 0.6)}[plan["weights"]]
        self.h0, self.h1 = r.uniform(0, 1, n), r.uniform(0, 1, n)
        self.cut = float(r.uniform(0.05, 0.9))
        t = np.float32 if plan["f32"] else np.float64
        lay = plan["layout"]
        for k, v in dict(eta=eta, step=step, y=y, w=w, mu=mu, h0=self.h0, h1=self.h1).items():
            v = v.astype(t)
            if lay == "strided":
                b = np.zeros(2 * n, t)
                b[::2] = v
                v = b[::2]
            elif lay == "reversed":
                v = v[::-1].copy()[::-1]
            elif lay == "readonly":
                v.flags.writeable = False
            setattr(self, k, v)


def call(op, d, ln, x):
    if op == "deviance":
        return d.deviance(x.y, x.mu, sample_weight=x.w)
    if op == "log_likelihood":
        return d.log_likelihood(x.y, x.mu, sample_weight=x.w, dispersion=1.3)
    if op == "dispersion":
        return d.dispersion(x.y, x.mu, sample_weight=x.w)
    if op == "dispersion_deviance":
        return d.dispersion(x.y, x.mu, sample_weight=x.w, method="deviance")
    if op == "unit_deviance":
        return d.unit_deviance(x.y, x.mu)
    if op == "eta_mu_deviance":
        return d.eta_mu_deviance(ln, x.factor, x.eta, x.step, x.y, x.w)
    if op == "rowwise_gradient_hessian":
        return d.rowwise_gradient_hessian(link=ln, coef=None, dispersion=1.0, X=None, y=x.y, sample_weight=x.w, eta=x.eta, mu=x.mu)
    from glum._cd_fast import identify_active_rows

    h = np.array(x.h1)
    out = identify_active_rows(np.zeros_like(h), h, np.array(x.h0), x.cut)
    return (*out, h)


def guarded(fn):
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("raise", f"{type(e).__name__}: {e}"[:200])


def close(a, b, f32, n):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(close(u, v, f32, n) for u, v in zip(a, b))
    u, v = np.asarray(a), np.asarray(b)
    if u.shape != v.shape:
        return False
    if u.ndim:
        # one element per row: nothing to sum
        return bool(np.allclose(u, v, rtol=1e-5 if f32 else 1e-12, atol=1e-30, equal_nan=True))
    r = 2e-4 if f32 else 1e-10
    return bool(np.allclose(u, v, rtol=r, atol=r * (1 + n), equal_nan=True))


def kernel(plan, st):
    d, ln = distribution(plan["family"], plan["link"])
    x = Data(plan)
    f32, n = plan["f32"], plan["n"]
    with np.errstate(all="ignore"):
        for op in plan["ops"]:
            configure(None)
            want = guarded(lambda: call(op, d, ln, x))
            if want[0] != "ok":
                st.count("rejected " + op)
                continue
            for s in plan["schedules"]:
                configure(s)
                got = guarded(lambda: call(op, d, ln, x))
                k = account(st, s)
                what = f"{op} of {plan['family']} with {plan['link']} link, {n} rows, {'single' if f32 else 'double'} precision, {plan['layout']} arrays"
                st.count("loop " + op)
                st.state(op, plan["family"], plan["link"], f32, n, k["maxteam"], k["digest"])
                racefree(what, s)
                if got[0] != "ok":
                    raise Violation(f"{what} fails with a team of {s['team']}: {got[1]}", key="fails " + op)
                if not close(got[1], want[1], f32, n):
                    raise Violation(f"{what}: a team of {s['team']} computes {short(got[1])}, one thread {short(want[1])}", key="differs " + op, switches=runtime.trace(60))
                st.nontrivial |= k["maxteam"] > 1 and n > 1


def short(v):
    if isinstance(v, (tuple, list)):
        return "(" + ", ".join(short(u) for u in v) + ")"
    return np.array2string(np.asarray(v), threshold=6, edgeitems=3, precision=10)


def fit(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    s = plan["schedules"][0]
    over = dict(verbose=2) if plan["verbose"] else {}

    def run(sched):
        est = pr.estimator(**over)
        configure(sched)
        o = obs.outcome(lambda: C.silent(C.fit, est, pr))
        ans = obs.outcome(C.ask, est, pr, inference=False) if o[0] == "ok" else None
        return est, o, ans

    e1, o1, a1 = run(None)
    e2, o2, a2 = run(s)
    k = account(st, s)
    what = f"fit of {sp['family']} ({sp['kind']}, {sp['storage']}) with a team of {s['team']}"
    st.state("fit", sp["family"], pr.link, sp["f32"], k["maxteam"], k["digest"])
    st.count("fits")
    racefree(what, s)
    conv = [bool(obs.convergence_warnings(o[2])) for o in (o1, o2)]
    if o1[0] != o2[0]:
        if problems.well_posed(pr):
            raise Violation(f"{what}: {o2[1] if o2[0] != 'ok' else 'succeeds'}; on one thread: {o1[1] if o1[0] != 'ok' else 'succeeds'}", key="fit outcome")
        raise Vacuous("an ill-posed fit")
    if o1[0] != "ok" or any(conv) or not problems.well_posed(pr):
        # rounding may decide where such fits end
        st.count("fits not compared")
        st.nontrivial = k["maxteam"] > 1
        return
    tol = dict(rtol=5e-2, atol=2e-2) if sp["f32"] else dict(rtol=1e-4, atol=2e-5)
    for nm in ("coef_", "intercept_", "coef_path_", "intercept_path_", "alpha_", "deviance_path_"):
        u, v = getattr(e1, nm, None), getattr(e2, nm, None)
        if u is None and v is None:
            continue
        u, v = np.asarray(u, float), np.asarray(v, float)
        if nm in ("alpha_",) or u.shape != v.shape or not np.allclose(u, v, equal_nan=True, **tol):
            if nm == "alpha_" and np.allclose(u, v, rtol=1e-6):
                continue
            if sp["kind"] == "cv" and nm in ("alpha_", "coef_", "intercept_"):
                # a tie between penalties may be broken by rounding
                m = np.sort(np.asarray(e1.deviance_path_).mean(axis=0).ravel())
                if len(m) > 1 and m[1] - m[0] < 1e-6 * (1 + abs(m[0])):
                    continue
            raise Violation(f"{what}: {nm} is {short(v)}, on one thread {short(u)}", key="fit " + nm)
    st.nontrivial = k["maxteam"] > 1


def execute(plan, st):
    try:
        (kernel if plan["mode"] == "kernel" else fit)(plan, st)
    finally:
        runtime.config()


def aggregate(agg, tier):
    c = agg["cover"]
    for op in METHODS:
        if c.get("rejected " + op, 0) > 30 and c.get("loop " + op, 0) == 0 and op != "active_rows":
            raise Violation(f"no call of {op} succeeds", key="vacuous " + op)


def shrink(plan):
    for v in drop_items(plan["schedules"]):
        if v:
            yield {**plan, "schedules": v}
    if plan["mode"] == "kernel":
        for v in drop_items(plan["ops"]):
            if v:
                yield {**plan, "ops": v}
        for k, v in dict(layout="plain", f32=False, weights="uniform", n=2).items():
            if plan[k] != v:
                yield {**plan, k: v}
        if plan["n"] > 2:
            yield {**plan, "n": plan["n"] // 2}
    else:
        for v in shrink_spec(plan["spec"]):
            yield {**plan, "spec": v}
    for j, s in enumerate(plan["schedules"]):
        def put(**k):
            return {**plan, "schedules": plan["schedules"][:j] + [{**s, **k}] + plan["schedules"][j + 1 :]}  # noqa: B023

        for k, v in dict(stall=-1, vary=False, prob=0.0, hot=0.0, team=2).items():
            if s[k] != v:
                yield put(**{k: v})
        hi = s["upto"] or 1 << 14
        for u in (hi // 8, hi // 2, hi - 1):
            if 0 < u and u != s["upto"]:
                yield put(upto=u)
