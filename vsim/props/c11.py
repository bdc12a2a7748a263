"""C11: random coordinate selection never affects the answer beyond tolerance."""
import random
from types import SimpleNamespace

import numpy as np

from .. import obs, problems, zygote
from ..core import Vacuous, Violation, shrink_spec
from . import c09
from . import common as C

PROP = "C11"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 100000}
LIVENESS = True
RULE = "distinct (family, link, storage, kind of fit, random stream, cycles used) tuples"
REAL = C.ENV
STUB = "the random source is a RandomState subclass whose draws the simulator scripts; the optimality oracle is independent code"
ASSUME = ["convex problems; the kernel's own xorshift expansion of a drawn seed is real code, so adversarial streams act through the seeds it is given"]

STREAMS = ["fair", "constant", "zero", "one", "max", "alternate", "low bits", "repeat", "countdown"]
MAX = 0x7FFFFFFF


class Scripted(np.random.RandomState):
    """A RandomState whose integer draws come from a script."""

    def arm(self, kind, seed):
        self.kind, self.src, self.n = kind, random.Random(seed), 0
        self.base = self.src.randrange(1, MAX)
        return self

    def _draw(self, lo, hi):
        self.n += 1
        k = self.kind
        if k == "fair":
            v = self.src.randrange(MAX)
        elif k == "constant":
            v = self.base
        elif k == "zero":
            v = 0
        elif k == "one":
            v = 1
        elif k == "max":
            v = MAX - 1
        elif k == "alternate":
            v = self.base if self.n % 2 else 1
        elif k == "low bits":
            v = 1 << self.src.randrange(30)
        elif k == "repeat":
            if self.n % 7 == 1:
                self.base = self.src.randrange(MAX)
            v = self.base
        else:
            v = max(0, MAX - self.n)
        return lo + v % (hi - lo)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return self._draw(int(lo), int(hi))
        return np.array([self._draw(int(lo), int(hi)) for _ in range(int(np.prod(size)))], dtype=dtype).reshape(size)


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "single", "path", "cv"), loose=False, convex=True)
    sp["solver"] = rng.choice(["auto", "irls-cd", "irls-cd"])
    if sp["kind"] == "single" and sp["l1_ratio"] == 0 and rng.random() < 0.7:
        sp["l1_ratio"] = rng.choice([0.3, 0.9])
    if sp["l1_ratio"] == 0 or sp["l1_ratio"] == [0]:
        sp["solver"] = "irls-cd"
    if not sp["f32"]:
        sp["gradient_tol"] = rng.choice([1e-3, 1e-4, 1e-5, 1e-6])
    return dict(
        spec=sp,
        streams=rng.sample(STREAMS, 2 if sp["kind"] != "single" else 3),
        seed=rng.randrange(2**31),
        globals=[rng.randrange(2**31), rng.randrange(2**31)],
        inner=rng.choice([100000, 100000, 100000, 3, 10]),
        twice=rng.choice(["fresh", "refit", "interleaved", "other process", "none"]),
    )


def fitted(pr, **over):
    est = pr.estimator(**over)
    o = obs.outcome(C.fit, est, pr)
    return est, o, bool(o[0] == "ok" and obs.convergence_warnings(o[2]))


def coefs(est):
    return {k: getattr(est, k) for k in ("coef_", "intercept_", "coef_path_", "intercept_path_", "alpha_", "n_iter_") if hasattr(est, k)}


def gstate():
    return obs.digest(np.random.mtrand._rand), obs.digest(random.getstate())


def elsewhere(p):
    """Runs in another process."""
    e, o, _ = fitted(problems.Problem(p["spec"]), selection="random", max_inner_iter=p["inner"], random_state=p["seed"])
    if o[0] != "ok":
        raise RuntimeError(o[1])
    return coefs(e)


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    kind = sp["kind"]
    inner = plan["inner"]
    ref, o, warned = fitted(pr, selection="cyclic", max_inner_iter=inner)
    if o[0] != "ok" or warned:
        if inner > 1000:
            raise Vacuous("the cyclic fit does not converge")
    # cyclic selection ignores the random stream
    base = coefs(ref) if o[0] == "ok" else None
    g = gstate()
    e, oo, _ = fitted(pr, selection="cyclic", max_inner_iter=inner, random_state=plan["seed"] % (2**31))
    if gstate() != g:
        raise Violation("a cyclic fit with an integer seed changes the global random state", key="global state")
    if oo[0] != o[0] or (base is not None and not obs.same(coefs(e), base)):
        raise Violation("with cyclic selection the seed changes the fit", key="cyclic depends on stream")
    for k, s in enumerate(plan["streams"][:1]):
        e, oo, _ = fitted(pr, selection="cyclic", max_inner_iter=inner, random_state=Scripted(0).arm(s, plan["seed"]))
        if oo[0] != o[0] or (base is not None and not obs.same(coefs(e), base)):
            raise Violation(f"with cyclic selection the random stream ({s}) changes the fit", key="cyclic depends on stream")
    for s in plan["streams"]:
        st.fault("random stream: " + s)
        src = Scripted(0).arm(s, plan["seed"])
        g = gstate()
        e, oo, w = fitted(pr, selection="random", max_inner_iter=inner, random_state=src)
        if gstate() != g:
            raise Violation("a fit with an explicit random state changes the global random state", key="global state")
        st.steps += src.n
        if src.n == 0:
            st.count("stream unused")
        st.state(sp["family"], pr.link, sp["storage"], kind, s, getattr(e, "_n_cycles", None))
        if oo[0] != "ok":
            raise Violation(f"random selection with stream {s} fails: {oo[1]}", key="random fails")
        if w:
            # near the optimum the objective may be flat to rounding
            flat = any("Line search" in m for m in obs.convergence_warnings(oo[2]))
            if inner > 1000 and not warned and not sp["f32"] and not flat:
                raise Violation(f"random selection with stream {s} does not converge, cyclic selection does", key="random does not converge", warnings=oo[2][:3])
            continue
        if kind != "cv":
            c09.judge(pr, e, f"random selection, stream {s}")
        else:
            a, l1 = float(e.alpha_), float(e.l1_ratio_)
            res, scale = pr.kkt(e.coef_, e.intercept_, alpha=a, l1_ratio=l1)
            if not res <= c09.tolerance(pr, e, scale):
                raise Violation(f"random selection, stream {s}: refit of the cross-validated model is not optimal (residual {res:.3g})", key="cv not optimal")
            if base is not None and not warned:
                gap = np.abs(e.deviance_path_ - ref.deviance_path_).max()
                big = np.abs(ref.deviance_path_).max() + 1
                lim = 100 * (sp["gradient_tol"] if not sp["f32"] else 3e-3) * big
                if gap > lim:
                    raise Violation(f"random selection, stream {s}: the fold deviances move by {gap:.3g}", key="cv folds move")
        st.nontrivial = True
    # an integer seed is reproducible, whatever the global state
    if plan["twice"] != "none":
        seed = plan["seed"] % (2**31)
        kept = np.random.get_state()
        try:
            np.random.seed(plan["globals"][0])
            g = gstate()
            e1, o1, _ = fitted(pr, selection="random", max_inner_iter=inner, random_state=seed)
            if gstate() != g:
                raise Violation("a fit with an integer seed changes the global random state", key="global state")
            if o1[0] != "ok":
                raise Violation(f"random selection fails: {o1[1]}", key="random fails")
            first = {k: np.array(v, copy=True) for k, v in coefs(e1).items()}
            if plan["twice"] == "interleaved":
                fitted(pr, selection="random", max_inner_iter=inner, random_state=seed + 1)
            np.random.seed(plan["globals"][1])
            if plan["twice"] == "refit":
                C.silent(C.fit, e1, pr)
                e2 = e1
            elif plan["twice"] == "other process":
                st.fault("process restart")
                r = zygote.call(__name__, "elsewhere", dict(spec=sp, inner=inner, seed=seed))
                if r[0] != "ok":
                    raise Violation(f"random selection fails in another process: {r[1]}", key="random fails")
                e2 = SimpleNamespace(**r[1])
            else:
                e2, _, _ = fitted(pr, selection="random", max_inner_iter=inner, random_state=seed)
            second = coefs(e2)
            for k in first:
                if not obs.same(np.asarray(second[k]), first[k], 1e-9, 1e-11):
                    raise Violation(f"the same integer seed gives another {k} ({plan['twice']} fit)", key="seed not reproducible " + plan["twice"])
            st.fault("other global random state")
        finally:
            np.random.set_state(kept)


def shrink(plan):
    if len(plan["streams"]) > 1:
        for s in plan["streams"]:
            yield {**plan, "streams": [s]}
    for k, v in dict(twice="none", inner=100000, seed=1).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
