"""C03: concurrent queries of a fitted model answer as if asked alone."""
import copy
import pickle
import warnings

import numpy as np

from .. import crash, obs, problems, threads
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import c07
from . import common as C

PROP = "C03"
LEVEL = "exploration"
RUNS = {"quick": 800, "thorough": 60000}
RULE = "distinct (storage, kind, queries per thread, executed schedule of baton transfers, outcomes) tuples"
REAL = C.ENV
STUB = "the clients are simulated threads that hand over one baton at Python lines and C calls of glum"
ASSUME = [
    "preemption happens between Python lines of glum and, in some runs, before and after each C call they make (in some runs also of tabmat and formulaic); compiled code runs without interruption",
    "storing a covariance matrix on request (store_covariance_matrix=True) is a write and not one of the concurrent queries",
]

QUERIES = [q for q in c07.QUERIES if q not in ("store_cov", "report", "repr")] + ["report", "table", "aic", "bic", "cov", "predict", "predict", "predict_index", "predict_last", "predict_alpha"]
DATA = ["train", "train", "rows", "shuffled", "shuffled", "backwards", "one", "other_cats", "unknown_cat", "missing_cat", "missing_col", "extra_col", "perm_cols", "objects", "no_weights", "double_weights"]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "path", "cv"), fn=True, storage=rng.choice([None, problems.DF_STORAGE]))
    T = rng.randint(2, 4)
    queries, data = QUERIES, DATA
    more = rng.choice([0, 0, 1, 3])
    if rng.random() < 0.25:
        # a service that answers one kind of request, with batches of one size
        queries = rng.choice([["predict", "linear_predictor", "predict_index"], ["score", "predict"], ["aic", "bic", "score"], ["cov", "std", "table"]])
        data = ["train", "shuffled", "shuffled", "backwards"]
        more = 14
    elif sp.get("na") and rng.random() < 0.5:
        queries, data, more = ["predict", "score", "linear_predictor", "cov"], ["train", "train", "rows", "shuffled", "other_cats"], 10
    return dict(
        spec=sp,
        tasks=[[[rng.choice(queries), rng.choice(data)] for _ in range(rng.randint(1, 3))] for _ in range(T)],
        preempts=[[rng.randrange(T), round(rng.random(), 5), rng.randrange(4), rng.random() < 0.5] for _ in range(rng.choice([1, 1, 2, 3, 4, 8, 20]))],
        more=[[[rng.randrange(T), round(rng.random(), 5), rng.randrange(4), rng.random() < 0.3] for _ in range(rng.choice([1, 1, 2, 3, 5]))] for _ in range(more)],
        order=[rng.randrange(8) for _ in range(rng.randint(1, 4))],
        fine=rng.random() < 0.3,
        share=rng.random() < 0.5,
        kill=[rng.randrange(T), round(rng.random(), 4), rng.choice(sorted(crash.KINDS))] if rng.random() < 0.15 else None,
        store_cov=rng.random() < 0.3,
        cat_missing=rng.choice(["fail", "zero", "convert"]),
        deep=rng.random() < 0.15,
        restart=rng.random() < 0.3,
        fresh=rng.random() < 0.6,
    )


def ask(est, pr, q, X, y, w, off):
    """A query whose answer can be compared, without process-wide side effects."""
    if q == "report":
        return c07._fmt(est)
    v = c07.query(est, pr, q, X, y, w, off)
    if q in ("pickle", "deepcopy", "copy", "clone"):
        out = {n: obs.digest(p) for n, p in v.get_params(deep=False).items()}
        if q != "clone":
            for a in obs.ATTRS:
                out[a] = getattr(v, a, None)
        return out
    if q == "params":
        return {n: obs.digest(p) for n, p in v.items()}
    if q == "diag":
        return obs.canon(v) if isinstance(v, str) else sorted(map(str, v.columns))
    return v


def outcome(fn):
    try:
        return ("ok", fn(), [])
    except Exception as e:  # noqa: BLE001
        return ("raise", f"{type(e).__name__}: {e}"[:300], [])


def run(est, pr, args, plan, preempts=(), record=False, inject=None, max_steps=600_000):
    dirs = list(C.DIRS)
    if plan["deep"]:
        import os

        import formulaic
        import tabmat

        dirs += [os.path.dirname(tabmat.__file__) + os.sep, os.path.dirname(formulaic.__file__) + os.sep]
    sim = threads.ThreadSim(dirs, preempts, plan["order"], plan["fine"], record=record, max_steps=max_steps)
    for t, qs in enumerate(args):
        out = []

        def body(qs=qs, out=out):
            for q, data in qs:
                out.append(outcome(lambda: ask(est, pr, q, *data)))
            return out

        task = sim.add(body, inject=inject[1:] if inject and inject[0] == t else None)
        task.out = out
    sim.run()
    return sim


def execute(plan, st):
    sp = plan["spec"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            pr, est = c07.build(plan)
        except Exception as e:  # noqa: BLE001
            raise Vacuous(str(e)) from e
        if plan["restart"]:
            est = pickle.loads(pickle.dumps(est))
        twin = pickle.loads(pickle.dumps(est))
        r = np.random.default_rng(sp["seed"] + 5)
        pool = {}
        args = []
        for t, qs in enumerate(plan["tasks"]):
            row = []
            for q, d in qs:
                if plan["share"] and d in pool:
                    data = pool[d]
                else:
                    data = pool[d] = c07.variant(pr, d, r)
                row.append((q, data))
            args.append(row)
        # alone: every client gets a model of its own
        want = []
        for row in args:
            mine = pickle.loads(pickle.dumps(twin))
            want.append([outcome(lambda: ask(mine, pr, q, *data)) for q, data in row])
        probe = pickle.loads(pickle.dumps(twin))
        try:
            sim = run(probe, pr, args, plan, record=True)
        except threads.StepBound as e:
            raise Vacuous(str(e)) from e
        steps = [t.step for t in sim.tasks]
        hot = {}
        for t, s in sim.hot:
            hot.setdefault(t, []).append(s)
        schedules = []
        for drawn in [*plan["more"], plan["preempts"]]:
            pre = []
            for t, f, pick, ishot in drawn:
                t %= len(steps)
                if steps[t] < 2:
                    continue
                s = hot[t][int(f * (len(hot[t]) - 1) + 0.5)] if ishot and hot.get(t) else 1 + int(f * (steps[t] - 1))
                pre.append([t, s, pick])
            schedules.append(pre)
        inject = None
        if plan["kill"] is not None:
            t = plan["kill"][0] % len(steps)
            inject = (t, 1 + int(plan["kill"][1] * max(0, steps[t] - 1)), crash.KINDS[plan["kill"][2]]("injected"))
        filters = list(warnings.filters)
        # one schedule after the other, with the faults in the last
        for pre in schedules[:-1]:
            if plan.get("fresh"):
                est = pickle.loads(pickle.dumps(twin))
            sim = run(est, pr, args, plan, pre, max_steps=4 * sum(steps) + 10_000)
            judge(plan, sim, want, None, st)
        if plan.get("fresh") and schedules[:-1]:
            est = pickle.loads(pickle.dumps(twin))
        sim = run(est, pr, args, plan, schedules[-1], inject=inject, max_steps=4 * sum(steps) + 10_000)
        judge(plan, sim, want, inject, st)
        if list(warnings.filters) != filters:
            raise Violation("concurrent queries leave other warning filters behind", key="filters")
        for row in plan["tasks"]:
            for q, _ in row:
                st.count("query " + q)
        alone = c07.questions(twin, pr)
        obs.compare(c07.questions(est, pr), alone, "after concurrent queries")


def judge(plan, sim, want, inject, st):
    sp = plan["spec"]
    st.steps += sum(t.step for t in sim.tasks)
    if sim.switches:
        st.fault("preemption", sim.switches)
    names = [[q for q, _ in row] for row in plan["tasks"]]
    killed = None
    for t, task in enumerate(sim.tasks):
        got = task.out
        if inject and inject[0] == t and sim.fired > len(sim.trace) or task.exc is not None:
            if inject is None or inject[0] != t:
                raise Violation(f"client {t} ({names[t]}) died of {task.exc!r}", key="client died")
            st.fault("killed client " + plan["kill"][2])
            killed = t
            continue
        for (q, d), a, b in zip(plan["tasks"][t], got, want[t]):
            obs.compare({q: a}, {q: b}, f"asked together with {[n for i, n in enumerate(names) if i != t]} (data: {d})", warns=False)
        if len(got) != len(want[t]):
            raise Violation(f"client {t} got {len(got)} of {len(want[t])} answers", key="missing answers")
    st.state(sp["storage"], sp["kind"], names, sim.trace, killed, [[o[0] for o in t.out] for t in sim.tasks])
    st.nontrivial = st.nontrivial or sim.switches > 0


def shrink(plan):
    for v in drop_items(plan["more"]):
        yield {**plan, "more": v}
    for v in plan["more"]:
        yield {**plan, "more": [], "preempts": v}
    for v in drop_items(plan["preempts"]):
        yield {**plan, "preempts": v}
    for v in drop_items(plan["tasks"]):
        if len(v) >= 2:
            yield {**plan, "tasks": v}
    for j, row in enumerate(plan["tasks"]):
        for v in drop_items(row):
            if v:
                yield {**plan, "tasks": plan["tasks"][:j] + [v] + plan["tasks"][j + 1 :]}
    for k, v in dict(kill=None, fine=False, share=False, store_cov=False, cat_missing="fail", deep=False, restart=False, order=[0]).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
