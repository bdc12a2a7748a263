"""C08: pickling and process restarts are invisible."""
import io
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from .. import crash, obs, problems, zygote
from ..core import Vacuous, Violation, drop_items, shrink_spec
from . import common as C

PROP = "C08"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = "distinct (kind, storage, family, life so far, way of storing, continuation) tuples"
REAL = C.ENV + "; pickle, copy and joblib's persistence; the restored process is a real, separate process"
STUB = "the process life cycle is simulated: every restart forks a process that has never fitted anything, and only the stored bytes reach it"
ASSUME = ["pickle protocols 0 and 1 are excluded: classes of third-party libraries with __slots__ reject them", "attributes that releases 3.0 to 3.3 did not store are those named in CHANGELOG.rst"]

STORES = ["pickle2", "pickle3", "pickle4", "pickle5", "joblib", "joblib_mmap", "nested"]
STEPS = ["fit", "fit", "warm", "ask", "cov", "crash", "params", "bad"]


def generate(rng, i, tier):
    cls = rng.choice(["glr", "glr", "cv"])
    kinds = ("cv",) if cls == "cv" else ("single", "single", "path")
    specs = [C.draw_spec(rng, kinds, fn=True) for _ in range(2)]
    if rng.random() < 0.6:
        specs[1] = {**specs[0], "alpha": rng.choice([0.02, 0.3]), "seed": specs[0]["seed"]}

    def steps(lo, hi, first):
        out = []
        for j in range(rng.randint(lo, hi)):
            k = rng.choice(STEPS if first else STEPS + ["restart", "restart"])
            if first and j == 0 and rng.random() < 0.85:
                k = "fit"
            out.append([k, rng.randrange(2), rng.random(), rng.choice(["interrupt", "memory"])])
        return out

    before = steps(0, 3, True)
    old = rng.choice([None, None, None, "3.0", "3.1", "3.2", "3.3"])
    return dict(specs=specs, before=before, after=steps(0, 3, False), store=rng.choice(STORES), again=rng.choice([None, None, "pickle5", "joblib"]), old=old, cat_missing=rng.choice(["fail", "fail", "zero", "convert"]))


def strip(est, release):
    """The attributes an older release would have stored."""
    d = est.__dict__
    drop = []
    v = float(release)
    if v < 3.4:
        drop += ["monotonic_constraints"]
    if v < 3.3:
        drop += ["train_deviance_path_"]
    if v < 3.2:
        drop += ["_align_info_logs_emitted"]
        if "_categorical_levels_" in d:
            lv = d.pop("_categorical_levels_")
            dt = d.pop("_feature_dtypes_", None) or {}
            d["feature_dtypes_"] = {**dt, **{c: pd.CategoricalDtype(x) for c, x in lv.items()}}
    if v < 3.1:
        drop += ["max_inner_iter", "col_means_", "col_stds_"]
    for k in drop:
        d.pop(k, None)
    return est


def step(est, prs, s, plan):
    """One step of a life; returns its observable outcome."""
    kind, t, at, ck = s
    pr = prs[t]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "fit":
            C.retarget(est, pr)
            est.set_params(cat_missing_method=pr.na or plan["cat_missing"])
            o = obs.outcome(C.fit, est, pr)
            return ("fit", o[0], None if o[0] == "ok" else o[1], o[2])
        if kind == "warm":
            C.retarget(est, pr)
            est.set_params(warm_start=True, cat_missing_method=pr.na or plan["cat_missing"])
            o = obs.outcome(C.fit, est, pr)
            est.set_params(warm_start=False)
            return ("warm", o[0], None if o[0] == "ok" else o[1], o[2])
        if kind == "ask":
            return ("ask", asked(est, pr))
        if kind == "cov":
            X, y, w, off = C.data(pr)
            o = obs.outcome(est.covariance_matrix, X=X, y=y, sample_weight=w, offset=off, store_covariance_matrix=True)
            return ("cov", o[0], o[1], o[2])
        if kind == "crash":
            C.retarget(est, pr)
            crash.fire(lambda: _try(C.fit, est, pr), C.DIRS, 1 + int(at * 1500), ck)
            return ("crash",)
        if kind == "params":
            C.retarget(est, pr)
            return ("params", {k: obs.digest(plain(v)) for k, v in est.get_params(deep=False).items()})
        if kind == "bad":
            X, y, w, off = C.data(pr)
            o = obs.outcome(est.fit, X, y[:-1])
            return ("bad", o[0], o[1] if o[0] == "raise" else None, [])
    raise ValueError(kind)


def _try(fn, *a):
    try:
        return fn(*a)
    except Exception:  # noqa: BLE001
        return None


def asked(est, pr):
    a = C.ask(est, pr) if hasattr(est, "coef_") else {"unfitted": obs.outcome(est.predict, pr.X())}
    a["params"] = ("ok", {k: obs.digest(plain(v)) for k, v in est.get_params(deep=False).items()}, [])
    a["unknown category"] = obs.outcome(lambda: est.predict(_unknown(pr)))
    for k in ("categorical_levels_",):
        a["stored " + k] = obs.outcome(lambda k=k: {str(c): str(v) for c, v in getattr(est, k).items()})
    a["class"] = ("ok", type(est).__name__, [])
    return a


def plain(v):
    return np.asarray(v) if isinstance(v, np.memmap) else v


def _unknown(pr):
    X = pr.X(np.arange(3))
    if not isinstance(X, pd.DataFrame):
        return X
    for c in X.columns:
        if c.startswith("c") and isinstance(X[c].dtype, pd.CategoricalDtype):
            X[c] = pd.Categorical(["a", None, "b"], categories=["b", "a", "zz"])
            break
    return X


def store(est, how, d):
    if how.startswith("pickle"):
        return ("bytes", pickle.dumps(est, protocol=int(how[6:])))
    if how == "nested":
        return ("nested", pickle.dumps({"models": [est, est], "name": "x"}))
    import joblib

    path = os.path.join(d, "model.joblib")
    joblib.dump(est, path, compress=0 if how == "joblib_mmap" else 3)
    return (how, path)


def load(stored):
    kind, data = stored
    if kind == "bytes":
        return pickle.loads(data)
    if kind == "nested":
        m = pickle.loads(data)["models"]
        if m[0] is not m[1]:
            raise Violation("one stored model became two")
        return m[0]
    import joblib

    return joblib.load(data, mmap_mode="r" if kind == "joblib_mmap" else None)


def resume(payload):
    """Runs in the restarted process."""
    plan = payload["plan"]
    prs = [problems.Problem(s) for s in plan["specs"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        est = load(payload["stored"])
        if plan["again"]:
            d = tempfile.mkdtemp(prefix="vsim")
            try:
                est = load(store(est, plan["again"], d))
            finally:
                shutil.rmtree(d)
    out = [("ask", asked(est, prs[payload["t"]]))]
    for s in plan["after"]:
        if s[0] == "restart":
            # stored and restored once more; what it does next is compared
            est = pickle.loads(pickle.dumps(est, protocol=2 + int(s[2] * 4)))
            out.append(("ask", asked(est, prs[s[1]])))
        else:
            out.append(step(est, prs, s, plan))
    out.append(("ask", asked(est, prs[payload["t2"]])))
    return out


def execute(plan, st):
    prs = [problems.Problem(s) for s in plan["specs"]]
    est = prs[0].estimator(cat_missing_method=prs[0].na or plan["cat_missing"])
    t = 0
    for s in plan["before"]:
        o = step(est, prs, s, plan)
        if s[0] in ("fit", "warm", "crash"):
            t = s[1]
        if s[0] == "crash":
            st.fault("crash before storing")
    t2 = t
    for s in plan["after"]:
        if s[0] in ("fit", "warm", "crash"):
            t2 = s[1]
            if s[0] == "crash":
                st.fault("crash after restart")
    d = tempfile.mkdtemp(prefix="vsim")
    try:
        import copy

        src = est
        if plan["old"]:
            src = copy.copy(est)
            src.__dict__ = dict(est.__dict__)
            strip(src, plan["old"])
            st.fault("model of release " + plan["old"])
        try:
            stored = store(src, plan["store"], d)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"the model cannot be stored with {plan['store']}: {type(e).__name__}: {e}", key="store:" + type(e).__name__) from e
        st.fault("process restart")
        r = zygote.call(__name__, "resume", dict(plan=plan, stored=stored, t=t, t2=t2))
    finally:
        shutil.rmtree(d)
    # storing does not disturb the original, which carries on in this process
    want = [("ask", asked(est, prs[t]))]
    for s in plan["after"]:
        if s[0] == "restart":
            st.fault("further restart")
            want.append(("ask", asked(est, prs[s[1]])))
        else:
            want.append(step(est, prs, s, plan))
    want.append(("ask", asked(est, prs[t2])))
    if r[0] == "died":
        raise Violation(f"the restored process died on signal {r[1]}", key="died")
    if r[0] == "raise":
        raise Violation(f"the restored model fails: {r[1]}", key="restored:" + r[1].split(":")[0], tb=r[2])
    ignore = []
    if plan["old"]:
        ignore += ["attr col_means_", "attr col_stds_", "attr train_deviance_path_"]
    for j, (a, b) in enumerate(zip(r[1], want)):
        where = "restored model" if j == 0 else f"restored model after {a[0]}"
        if a[0] == "ask":
            obs.compare(a[1], b[1], where, ignore=[] if any(o[0] in ("fit", "warm") and o[1] == "ok" for o in want[:j]) else ignore)
        elif a[:2] != b[:2] or (len(a) > 2 and not obs.same(a[2], b[2])):
            raise Violation(f"{where}: {obs.short(a)} instead of {obs.short(b)}", key=f"{where} outcome")
        elif len(a) > 3 and sorted(set(a[3])) != sorted(set(b[3])):
            raise Violation(f"{where}: warns {a[3]} instead of {b[3]}", key=f"{where} warnings")
    s = plan["specs"][t]
    st.state(s["kind"], s["storage"], s["family"], tuple(x[0] for x in plan["before"]), plan["store"], plan["old"], tuple(x[0] for x in plan["after"]))
    st.count("store " + plan["store"])
    st.steps += len(plan["before"]) + len(plan["after"]) + 1
    st.nontrivial = hasattr(est, "coef_")


def shrink(plan):
    for k in ("after", "before"):
        for v in drop_items(plan[k]):
            yield {**plan, k: v}
    for k, v in dict(again=None, old=None, store="pickle5", cat_missing="fail").items():
        if plan[k] != v:
            yield {**plan, k: v}
    for j, s in enumerate(plan["specs"]):
        for v in shrink_spec(s):
            yield {**plan, "specs": plan["specs"][:j] + [v] + plan["specs"][j + 1 :]}
