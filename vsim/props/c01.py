"""C01: the cross-validation result does not depend on how its jobs are executed."""
import numpy as np

from .. import boot, crash, jobs, obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import common as C

PROP = "C01"
LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 60000}
RULE = "distinct (backend kind, workers, batching, executed schedule of baton transfers or job order, fault, outcome) tuples"
REAL = C.ENV + ", joblib's dispatch, batching, callback and retrieval code, cloudpickle"
STUB = "joblib's worker pools: simulated threads that hand over one baton, and simulated worker processes that receive pickled batches"
ASSUME = [
    "preemption happens between Python lines of glum and, in some runs, before and after each C call they make; compiled code and the other libraries run without interruption",
    "a RandomState instance passed as random_state is shared state and is not covered; integers are",
]



class InjLinAlg(np.linalg.LinAlgError, crash.Injected):
    pass


class InjValue(ValueError, crash.Injected):
    pass


class InjFloat(FloatingPointError, crash.Injected):
    pass


# besides crashes: a job whose numerics fail
FAULTS = {**crash.KINDS, "singular": InjLinAlg, "value": InjValue, "float": InjFloat}

DENSE = ["dense_c", "dense_f", "tm_dense", "pandas", "polars"]


def generate(rng, i, tier):
    kind = rng.choice(["threads"] * 6 + ["procs"] * 2 + ["memmap"])
    sp = C.draw_spec(rng, ("cv",), convex=rng.random() < 0.9, **({"storage": DENSE} if kind == "memmap" else {}))
    sp["n"] = rng.randint(20, 40)
    sp["gradient_tol"] = 1e-3 if sp["f32"] else rng.choice([1e-3, 1e-4, 1e-6])
    sp["selection"] = "random" if rng.random() < 0.25 and sp["l1_ratio"] > 0 else "cyclic"
    sp["alphas"] = rng.choice([[0.5, 0.05], [0.1], [0.01, 0.3, 1.0]]) if sp["l1_ratio"] == 0 or rng.random() < 0.7 else None
    sp["n_alphas"] = 3
    ineq = sp["l1_ratio"] == 0 and rng.random() < 0.12 and sp["lower"] is None and sp["upper"] is None and not sp["f32"]
    sp["cv"] = rng.choice([2, 3, 4, ["kfold", 3, rng.randrange(100)], ["list", 3]])
    w = rng.randint(2, 4)
    pre = []
    if kind == "threads":
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5, 8, 20])):
            pre.append([rng.randrange(w), round(rng.random(), 5), rng.randrange(4), rng.random() < 0.5])
    fault = None
    if rng.random() < 0.25:
        fault = [rng.randrange(w if kind == "threads" else 4), round(rng.random(), 4), rng.choice(sorted(FAULTS) + ["singular"] * 2)]
    return dict(
        spec=sp,
        kind=kind,
        workers=w,
        batch=rng.choice([1, 1, 1, 2, 3]),
        order=[rng.randrange(8) for _ in range(rng.randint(1, 6))],
        preempts=pre,
        fine=rng.random() < 0.25,
        fault=fault,
        die=rng.randrange(3) if kind != "threads" and fault is None and rng.random() < 0.15 else None,
        fitted=rng.random() < 0.25,
        warm=rng.random() < 0.2,
        ineq=ineq,
        n_jobs=rng.choice([None, 2, -1, 4]),
        stop=rng.random() < 0.7,
        cov=rng.random() < 0.1,
    )


def results(est, pr):
    out = obs.answers(est, *C.data(pr), inference=False)
    X, y, w, off = C.data(pr)
    n = len(np.atleast_2d(est.alphas_)[0])
    out["predict all"] = obs.outcome(est.predict, X, offset=off, alpha_index=list(range(n)))
    return out


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    over = dict(n_jobs=None, warm_start=plan["warm"])
    if plan["ineq"]:
        over.update(A_ineq=np.eye(pr.k)[:1], b_ineq=np.zeros(1), solver="irls-ls-monotonic")
    kw = dict(store_covariance_matrix=True) if plan["cov"] else {}

    def fresh():
        est = pr.estimator(**over)
        if plan["fitted"]:
            q = problems.Problem({**sp, "seed": sp["seed"] + 1})
            obs.outcome(C.fit, est, q)
        return est.set_params(n_jobs=plan["n_jobs"])

    ref = fresh()
    ro = obs.outcome(lambda: C.fit(ref.set_params(n_jobs=None), pr, **kw))
    want = results(ref, pr) if ro[0] == "ok" else None

    def go(p, e=None):
        est = e or fresh()
        with jobs.backend(p):
            return est, obs.outcome(C.fit, est, pr, **kw)

    inject = None
    pre = []
    limit = 10_000
    if plan["kind"] == "threads":
        probe = jobs.Plan("threads", plan["workers"], plan["batch"], plan["order"], fine=plan["fine"], record=True, stop=plan["stop"], dirs=C.DIRS)
        est, o = go(probe)
        if o[0] != "ok" and o[1].startswith("StepBound"):
            raise Vacuous("too long for the step bound")
        if ro[0] == "ok":
            judge(est, o, want, pr, "unpreempted threads")
        if not probe.steps:
            raise Vacuous("no parallel call")
        steps = probe.steps[0]
        limit += 4 * sum(map(sum, probe.steps))
        hot = {}
        for t, s in probe.hot:
            hot.setdefault(t, []).append(s)
        for t, f, pick, ishot in plan["preempts"]:
            t %= len(steps)
            if steps[t] < 2:
                continue
            if ishot and hot.get(t):
                s = hot[t][int(f * (len(hot[t]) - 1) + 0.5)]
            else:
                s = 1 + int(f * (steps[t] - 1))
            pre.append([t, s, pick])
        if plan["fault"]:
            t = plan["fault"][0] % len(steps)
            inject = (t, 1 + int(plan["fault"][1] * max(0, steps[t] - 2)), FAULTS[plan["fault"][2]]("injected"))
    elif plan["fault"]:
        # count the traced lines of one batch
        n = [0]
        t = crash.Tracer(C.DIRS)
        est, o = fresh(), None
        obs.outcome(lambda: t.run(lambda: C.fit(est.set_params(n_jobs=None), pr, **kw)))
        per = max(2, t.n // (2 + (sp["cv"] if isinstance(sp["cv"], int) else 3)))
        inject = (plan["fault"][0], 1 + int(plan["fault"][1] * per), FAULTS[plan["fault"][2]]("injected"))
    p = jobs.Plan(plan["kind"], plan["workers"], plan["batch"], plan["order"], pre, plan["fine"], inject, plan["die"], stop=plan["stop"], dirs=C.DIRS, max_steps=limit)
    est = fresh()
    try:
        est, o = go(p, est)
    except KeyboardInterrupt as e:
        if not isinstance(e, crash.Injected):
            raise
        o = ("raise", f"{type(e).__name__}: {e}", [])
    st.steps += sum(sum(s) for s in p.steps) + p.batches
    how = f"{plan['kind']} backend, {plan['workers']} workers, batches of {plan['batch']}"
    if p.parallel_calls == 0 and ro[0] == "ok":
        st.count("no parallel call")
    st.count("kind " + plan["kind"])
    if p.switches:
        st.fault("preemption", p.switches)
    if plan["die"] is not None and "TerminatedWorkerError" in p.failed:
        st.fault("worker death")
    st.state(plan["kind"], plan["workers"], plan["batch"], p.trace, plan["order"], p.failed, o[0])
    if p.failed and ro[0] == "ok":
        if plan["kind"] == "threads" and inject:
            st.fault("worker " + plan["fault"][2])
        elif plan["fault"] and "TerminatedWorkerError" not in p.failed:
            st.fault("worker " + plan["fault"][2])
        if o[0] == "ok":
            if plan["fault"] or plan["die"] is not None:
                # the fault may have been handled by the solver (a failed solve)
                judge(est, o, want, pr, how + f" in spite of failed jobs {p.failed}")
                return
        elif inject is None and plan["die"] is None:
            raise Violation(f"a job fails under the {how} and not in sequence: {o[1]}", key="fails:" + o[1].split(":")[0])
        else:
            # no fitted model may come out of a failed cross-validation
            first = p.failed[0].split(":")[0]
            if not any(o[1].startswith(f) for f in p.failed):
                raise Violation(f"jobs failed with {p.failed}, the fit with {o[1]} ({how})", key="wrong error")
            if not plan["fitted"] and hasattr(est, "coef_"):
                raise Violation(f"the cross-validation failed ({first}) and left coefficients behind ({how})", key="fitted after failure")
            if plan["warm"] and plan["fitted"]:
                st.nontrivial = True
                return
            o2 = obs.outcome(lambda: C.fit(est.set_params(n_jobs=None), pr, **kw))
            judge(est, o2, want, pr, "the fit after a failed one (" + how + ")")
        st.nontrivial = True
        return
    if ro[0] != "ok":
        if o[0] == "ok":
            raise Violation(f"the fit fails in sequence ({ro[1]}) and succeeds with the {how}", key="succeeds")
        raise Vacuous(ro[1])
    judge(est, o, want, pr, how)
    st.nontrivial = plan["kind"] != "threads" or p.switches > 0


def judge(est, o, want, pr, how):
    if o[0] != "ok":
        raise Violation(f"the fit succeeds in sequence and fails with the {how}: {o[1]}", key="fails:" + o[1].split(":")[0])
    f32 = pr.spec["f32"]
    obs.compare(
        results(est, pr), want, how, warns=False, ignore=("diag",) if False else (),
        rtol=1e-4 if f32 else 1e-8, atol=1e-6 if f32 else 1e-10,
    )


def shrink(plan):
    for v in drop_items(plan["preempts"]):
        yield {**plan, "preempts": v}
    for k, v in dict(fault=None, die=None, fitted=False, warm=False, batch=1, workers=2, fine=False, order=[0], ineq=False, n_jobs=None, cov=False).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        if v["alphas"] is None and v["l1_ratio"] == 0:
            continue
        yield {**plan, "spec": v}
