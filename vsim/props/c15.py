"""C15: served predictions do not depend on batching, order or replica."""
import copy
import io
import pickle

import formulaic
import joblib
import numpy as np
import pandas as pd
import scipy.sparse as sps

from .. import crash, obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import common as C

PROP = "C15"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 90000}
LIVENESS = True
RULE = "distinct (model's storage, kind, treatment of missing categories, container and encoding of the batch, defect of the batch, replica history) tuples"
REAL = C.ENV + "; pickle, joblib"
STUB = "the serving system (queue, batching, replicas, restarts, encodings) is simulated; the reference predicts row by row from the coefficients by feature name, with independent code"
ASSUME = ["the columns of a served data frame are in the order of the training frame, except for formula models"]

LET = "abcdefgh"
FRAMES = ("pandas", "polars", "pandas_cat", "polars_cat", "formula")
DEFECTS = ["unknown category", "missing category", "nan", "too few columns", "too many columns", "crash"]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "path", "cv"), loose=True, storage=rng.choice([["pandas_cat", "polars_cat", "formula"], ["pandas_cat", "polars_cat"], ["formula"], None]))
    sp["na"], sp["lhs"] = None, False
    sp["gradient_tol"] = 1e-2
    sp["hessian_approx"] = 0.0
    sp["l1_list"] = None
    sp["l1_ratio"] = 0.0
    if sp["kind"] != "single":
        sp["alphas"] = sp["alphas"] or [0.5, 0.1, 0.02]
    if sp["P2"] in ("mat", "sparse") or sp["storage"] in FRAMES:
        sp["P2"] = None
        sp["P1"] = None
        sp["lower"] = sp["upper"] = None
    cat = bool(sp["levels"]) and sp["storage"] in ("pandas_cat", "polars_cat", "formula")
    events = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["serve"] * 6 + ["restart", "copy"])
        if k == "serve":
            events.append(
                dict(
                    do="serve",
                    replica=rng.randrange(3),
                    rows=[rng.randrange(30) for _ in range(rng.choice([1, 1, 2, 3, 5, 12]))],
                    container=rng.randrange(12),
                    enc=rng.choice(["train", "reordered", "superset", "seen", "strings", "dictionary"]),
                    how=rng.choice(["predict", "predict", "linear_predictor", "weights", "index", "list", "alpha"]),
                    defect=rng.choice([None] * 3 + DEFECTS),
                    at=rng.random(),
                    seed=rng.randrange(2**20),
                )
            )
        else:
            events.append(dict(do=k, replica=rng.randrange(3), how=rng.choice(["pickle", "joblib", "deepcopy", "clone_state"])))
    terms = []
    if sp["storage"] == "formula" and rng.random() < 0.7:
        sp["f32"] = False
        for t in rng.sample(TERMS, rng.randint(1, 2)):
            if ("c0" in t and not sp["levels"]) or t in terms:
                continue
            if t[:2] in ("bs", "cr", "cs") and sp["density"] < 1:
                t = "center(x0)"
            terms.append(t)
    return dict(
        spec=sp,
        method=rng.choice(["fail", "zero", "convert"]) if cat else "fail",
        train_missing=cat and rng.random() < 0.6,
        unused=cat and sp["storage"] != "formula" and rng.random() < 0.3,
        name=rng.choice(["(MISSING)", "(MISSING)", "na"]),
        terms=terms,
        events=events,
        # names that need not tell the columns apart
        format=rng.choice([None, None, "{name}.{category}", "{category}", "{name}"]),
    )


TERMS = [
    "center(x0)",
    "scale(x0)",
    "scale(x0)",
    "poly(x0, degree=2)",
    "bs(x0, df=4, extrapolation='clip')",
    "cr(x0, df=4)",
    "cs(x0, df=3)",
    "np.log(x0 ** 2 + 1)",
    "I(x0 * 2)",
    "x0:c0",
    "center(x0):c0",
    "C(c0)",
    "bump(x0)",
    "I(x0 * k0)",
]


def bump(v):
    return v * v * 0.5 + v


def context():
    return {"bump": bump, "k0": 1.7}


class Rows:
    """The observations to be served."""

    def __init__(self, pr, plan):
        sp = pr.spec
        r = np.random.default_rng(sp["seed"] + 1)
        n = 30
        sd = pr.num.std(axis=0) + 1e-12
        num = r.normal(size=(n, sp["p"])) * sd
        num[: n // 3] = np.round(num[: n // 3] / sd) * np.maximum(np.round(sd), 1)
        num[r.random(num.shape) < 0.2] = 0.0
        num = num.astype(np.float32).astype(float)
        self.num = num
        self.cats = [r.integers(0, L, n) for L in sp["levels"]]
        self.pr, self.plan = pr, plan
        self.levels = [[*LET[:L]] + (["q"] if plan["unused"] else []) for L in sp["levels"]]
        if plan["unused"]:
            for c, lv in zip(self.cats, self.levels):
                c[r.random(n) < 0.1] = len(lv) - 1
        # what the terms of the formula are for these rows, by formulaic itself
        self.terms = {}
        for t in plan["terms"]:
            t = t.split(":")[0]
            if "(" not in t or t == "C(c0)":
                continue
            seen, here = (pd.DataFrame({f"x{j}": m[:, j] for j in range(sp["p"])}) for m in (pr.num, num))
            mm = formulaic.model_matrix(t + " - 1", seen, context=context())
            mm = mm.model_spec.get_model_matrix(here, context=context())
            for nm in mm.columns:
                self.terms[nm] = np.asarray(mm[nm], float)


def train(pr, plan, rows):
    sp = pr.spec
    over = dict(cat_missing_method=plan["method"], cat_missing_name=plan["name"], force_all_finite=True)
    kw = {}
    if plan.get("format") and sp["storage"] in ("pandas_cat", "polars_cat"):
        over["categorical_format"] = plan["format"]
    if plan["terms"]:
        over["formula"] = pr.formula() + "".join(" + " + t for t in plan["terms"])
        kw["context"] = context()
    est = pr.estimator(**over)
    y, w, off = pr.yw()
    X = pr.X()
    if sp["storage"] in ("pandas_cat", "polars_cat", "formula") and sp["levels"]:
        r = np.random.default_rng(sp["seed"] + 2)
        vals = []
        # missing values in some of the columns only
        some = np.random.default_rng(sp["seed"] + 3).random(len(pr.cats)) < 0.6
        for c, here in zip(pr.cats, some):
            v = [LET[q] for q in c]
            if plan["train_missing"] and (here or len(pr.cats) == 1) and plan["method"] != "fail":
                for q in np.flatnonzero(r.random(len(v)) < 0.15):
                    # formulas drop categories that don't occur
                    if sp["storage"] != "formula" or v.count(v[q]) > 1:
                        v[q] = None
            vals.append(v)
        X = frame("polars" if sp["storage"] == "polars_cat" else "pandas", pr.num, vals, rows.levels)
        plan_missing = [any(x is None for x in v) for v in vals]
    else:
        plan_missing = [False] * len(sp["levels"])
    est.fit(X, y, sample_weight=w, offset=off, **kw)
    return est, plan_missing


def frame(lib, num, vals, levels, enc="train", seed=0):
    r = np.random.default_rng(seed)
    cols = {f"x{j}": num[:, j] for j in range(num.shape[1])}
    out = {}
    if lib == "polars":
        import polars as pl

        out = {k: pl.Series(np.ascontiguousarray(v)) for k, v in cols.items()}
        for j, v in enumerate(vals):
            lv = encode(enc, levels[j], v, r)
            if enc == "strings":
                out[f"c{j}"] = pl.Series(v, dtype=pl.String)
            elif enc == "dictionary":
                out[f"c{j}"] = pl.Series(v, dtype=pl.Categorical)
            else:
                out[f"c{j}"] = pl.Series(v, dtype=pl.Enum(lv))
        return pl.DataFrame(out)
    df = pd.DataFrame(cols)
    for j, v in enumerate(vals):
        lv = encode(enc, levels[j], v, r)
        if enc == "strings":
            df[f"c{j}"] = pd.Series(v, dtype=object)
        elif enc == "dictionary":
            df[f"c{j}"] = pd.Categorical(v, categories=lv, ordered=True)
        else:
            df[f"c{j}"] = pd.Categorical(v, categories=lv)
    return df


def encode(enc, levels, vals, r):
    if enc == "train":
        lv = list(levels)
    elif enc == "reordered":
        lv = [levels[q] for q in r.permutation(len(levels))]
    elif enc == "superset":
        lv = list(levels) + ["new1", "new2"]
        lv = [lv[q] for q in r.permutation(len(lv))]
    else:
        lv = sorted({v for v in vals if v is not None}, reverse=bool(r.integers(2)))
    for v in vals:
        if v is not None and v not in lv:
            lv.append(v)
    return lv


def value(nm, q, row, num, vals, terms):
    """The value a feature has in a row."""
    out = 1.0
    for f in nm.split(":"):
        if f in terms:
            out *= terms[f][row]
        elif f.startswith("x"):
            out *= num[q, int(f[1:])]
        else:
            j, lv = f.replace("C(c0)", "c0")[1:-1].split("[")
            v = vals[int(j)][q]
            # C() names missing categories itself
            out *= 1.0 if lv == v or f.startswith("C(") and lv == "(MISSING)" and v == "na" else 0.0
    return out


def reference(est, k, pr, num, vals, off, offsets_by_name, which, kept):
    """Linear predictor and the size of its terms, row by row, by name."""
    coef = est.coef_ if k is None else est.coef_path_[k]
    b = float(est.intercept_ if k is None else np.broadcast_to(est.intercept_path_, len(est.coef_path_))[k])
    n = len(num)
    eta, size = np.zeros(n), np.zeros(n)
    for q in range(n):
        terms = [b]
        for nm, c in zip(offsets_by_name, np.asarray(coef, float)):
            terms.append(c * value(nm, q, which[q], num, vals, kept))
        if off is not None:
            terms.append(off[q])
        eta[q] = np.sum(terms)
        size[q] = np.sum(np.abs(terms)) + 1e-3
    return eta, size


def container(pr, plan, ev, num, vals, levels):
    """The batch as the client sends it, and what was chosen."""
    sp = pr.spec
    st = sp["storage"]
    sel = ev["container"]
    r = np.random.default_rng(ev["seed"])
    if st in ("pandas_cat", "polars_cat", "formula"):
        lib = ["pandas", "polars"][sel % 2]
        if st == "formula":
            lib = "pandas"
        enc = ev["enc"]
        if st == "formula" and enc == "dictionary":
            enc = "reordered"
        df = frame(lib, num, vals, levels, enc, ev["seed"])
        what = f"{lib} frame, categories {enc}"
        if lib == "pandas" and sel % 3 == 0:
            df.index = r.permutation(len(df)) + 17
            what += ", index shuffled"
        ints = [f"x{j}" for j in range(num.shape[1]) if np.all(num[:, j] == np.round(num[:, j])) and np.all(np.abs(num[:, j]) < 1e6)]
        if lib == "pandas" and sel % 4 == 1 and ints:
            df = df.astype({c: "int64" for c in ints})
            what += ", integers"
        if lib == "pandas" and sel % 5 == 2:
            df = df.astype({f"x{j}": "float32" for j in range(num.shape[1]) if f"x{j}" not in ints or sel % 4 != 1})
            what += ", float32"
        if st == "formula" and sel % 2:
            df = df[[df.columns[q] for q in r.permutation(df.shape[1])]].assign(unrelated=1.0)
            what += ", columns reordered"
        return df, what
    cols = [num]
    for j, v in enumerate(vals):
        lo = 1 if sp["drop_first"] else 0
        cols.append(np.array([[1.0 if x == lv else 0.0 for lv in levels[j][lo:]] for x in v]).reshape(len(v), -1))
    A = np.concatenate(cols, axis=1)
    if st in ("pandas", "polars"):
        names = pr.names
        if sel % 3 == 0:
            import polars as pl

            return pl.DataFrame({nm: A[:, q].copy() for q, nm in enumerate(names)}), "polars frame"
        if sel % 3 == 1:
            return pd.DataFrame(A, columns=names, index=r.permutation(len(A))), "pandas frame"
    import tabmat as tm

    k = ["dense", "fortran", "csr", "csc", "coo", "tm", "tmsparse", "f32", "list", "slice", "readonly", "dense"][sel]
    if k == "fortran":
        return np.asfortranarray(A), k
    if k in ("csr", "csc", "coo"):
        return getattr(sps, k + "_matrix")(A), k
    if k == "tm":
        return tm.DenseMatrix(np.asfortranarray(A)), k
    if k == "tmsparse":
        return tm.SparseMatrix(sps.csc_matrix(A)), k
    if k == "f32" and np.array_equal(A.astype(np.float32), A):
        return A.astype(np.float32), k
    if k == "list":
        return A.tolist(), k
    if k == "slice":
        B = np.full((2 * len(A), A.shape[1] + 2), np.nan)
        B[::2, 1:-1] = A
        return B[::2, 1:-1], k
    if k == "readonly":
        A = np.ascontiguousarray(A)
        A.setflags(write=False)
        return A, k
    return A, "dense"


def execute(plan, st):
    sp = plan["spec"]
    pr = problems.Problem(sp)
    rows = Rows(pr, plan)
    o = obs.outcome(train, pr, plan, rows)
    if o[0] != "ok":
        raise Vacuous("no model: " + o[1])
    est, trained_missing = o[1]
    frames = sp["storage"] in FRAMES
    if plan.get("format") and sp["storage"] in ("pandas_cat", "polars_cat"):
        # the same model with names that can be read back
        twin = obs.outcome(lambda: train(pr, dict(plan, format=None), rows))
        if twin[0] != "ok":
            raise Vacuous(f"twin: {twin[0]}")
        names = list(twin[1][0].feature_names_)
    else:
        names = list(est.feature_names_) if frames else list(pr.names)
    if len(names) != len(est.coef_):
        raise Violation(f"{len(est.coef_)} coefficients for features {names}", key="names")
    replicas = [est, C.roundtrip(est, "pickle"), C.roundtrip(est, "deepcopy")]
    history = ""
    for ev in plan["events"]:
        e = replicas[ev["replica"]]
        if ev["do"] != "serve":
            if ev["do"] == "restart":
                st.fault("replica restart")
                if ev["how"] == "joblib":
                    buf = io.BytesIO()
                    joblib.dump(e, buf)
                    buf.seek(0)
                    e = joblib.load(buf)
                else:
                    e = pickle.loads(pickle.dumps(e))
            else:
                st.fault("replica cloned from another")
                src = replicas[(ev["replica"] + 1) % 3]
                e = copy.deepcopy(src) if ev["how"] != "pickle" else pickle.loads(pickle.dumps(src))
            replicas[ev["replica"]] = e
            history += ev["do"][0]
            continue
        serve(e, pr, plan, rows, ev, names, trained_missing, st, history)
        history += "s" if not ev["defect"] else "d"
    st.steps += len(plan["events"])


def serve(est, pr, plan, rows, ev, names, trained_missing, st, history):
    sp = pr.spec
    num = rows.num[ev["rows"]]
    vals = [[rows.levels[j][q] for q in c[ev["rows"]]] for j, c in enumerate(rows.cats)]
    defect = ev["defect"]
    cat_model = sp["storage"] in ("pandas_cat", "polars_cat", "formula") and sp["levels"]
    verdict = "serve"
    q = int(ev["at"] * len(num))
    if defect == "unknown category":
        if not cat_model:
            defect = None
        else:
            vals[ev["seed"] % len(vals)][q] = "zz"
            verdict = "reject"
    elif defect == "missing category":
        if not cat_model:
            defect = None
        else:
            j = ev["seed"] % len(vals)
            vals[j][q] = None
            if plan["method"] == "fail" or plan["method"] == "convert" and not trained_missing[j]:
                verdict = "reject"
    elif defect == "nan":
        num = num.copy()
        num[q, 0] = np.nan
        verdict = "nan"
    X, what = container(pr, plan, ev, num, vals, rows.levels)
    if defect in ("too few columns", "too many columns"):
        if isinstance(X, np.ndarray) and X.dtype == float:
            X = X[:, :-1] if defect == "too few columns" else np.concatenate([X, X[:, :1]], axis=1)
            if X.shape[1] == 0:
                return
            verdict = "reject"
        else:
            defect = None
    idx = None
    path = sp["kind"] == "path"
    how = ev["how"]
    r = np.random.default_rng(ev["seed"])
    off = r.normal(size=len(num)) if pr.offset is not None or ev["seed"] % 3 == 0 else None
    kw = {"context": context()} if plan["terms"] else {}
    if off is not None:
        kw["offset"] = [off, pd.Series(off, index=r.permutation(len(off)) + 3), off.astype(object).astype(float)][ev["seed"] % 3]
    fn = est.linear_predictor if how == "linear_predictor" else est.predict
    w = None
    if how == "weights" or how in ("list", "index") and ev["seed"] % 2:
        w = r.uniform(0.5, 2, len(num))
        kw["sample_weight"] = w
    ks = [None]
    if how in ("index", "list", "alpha") and path:
        n = len(est.coef_path_)
        idx = [int(v) for v in r.integers(0, n, 3)]
        ks = idx if how == "list" else idx[:1]
        if how == "alpha":
            a = [float(v) for v in est._alphas]
            if len(set(a)) == len(a):
                kw["alpha"] = a[ks[0]]
            else:
                kw["alpha_index"] = ks[0]
        else:
            kw["alpha_index"] = list(ks) if how == "list" else ks[0]
    missing = plan["name"] if plan["method"] == "convert" else None
    ref_vals = [[missing if v is None else v for v in c] for c in vals]
    who = f"replica {ev['replica']} after {history or 'nothing'}, {len(num)} rows as {what}"
    if defect:
        st.fault("batch: " + defect)
    if defect == "crash":
        # the request is cut short; the replica is asked again
        def go():
            try:
                return fn(X, **kw)
            except Exception:  # noqa: BLE001
                return None

        crash.fire(go, C.DIRS, 1 + int(ev["at"] * 60), "interrupt")
    st.state(sp["storage"], sp["kind"], plan["method"], what, defect, history[-3:], how)
    o = obs.outcome(fn, X, **kw)
    if verdict == "reject":
        if o[0] == "ok":
            raise Violation(f"a batch with {defect} is served ({obs.short(o[1])}): {who}, missing categories: {plan['method']}", key="served " + defect)
        st.nontrivial = True
        return
    if o[0] != "ok":
        if verdict == "nan":
            return
        raise Violation(f"the batch is refused: {o[1]}; {who}, {defect or 'no defect'}", key="refused " + what.split(",")[0] + ":" + o[1].split(":")[0])
    got = np.asarray(o[1])
    want_shape = (len(num), len(ks)) if how == "list" and path else (len(num),)
    if got.shape != want_shape:
        raise Violation(f"{got.shape} predictions instead of {want_shape}: {who}", key="shape")
    if isinstance(o[1], pd.Series):
        raise Violation(f"predictions come as a Series: {who}", key="series")
    got = got.reshape(len(num), -1)
    for c, k in enumerate(ks):
        eta, size = reference(est, k, pr, num, ref_vals, off, names, ev["rows"], rows.terms)
        rt = 2e-4 if sp["f32"] or "f32" in what or "float32" in what else 1e-9
        if how == "linear_predictor":
            want, tol = eta, rt * size
        else:
            with np.errstate(all="ignore"):
                want, d = problems.link_inv(pr.link, eta)
                tol = rt * (np.abs(d) * size + np.abs(want) * (1 + size)) + (1e-12 if pr.link in ("logit", "cloglog") else 0.0)
                if w is not None:
                    want, tol = want * w, tol * w
        bad = ~np.isfinite(want)
        if verdict == "nan":
            if np.isfinite(got[q, c]) and not bad[q] or not np.isnan(num[q]).any():
                raise Violation(f"a missing number is served as {got[q, c]}: {who}", key="nan served")
            bad = bad | np.isnan(num).any(axis=1)
        err = np.abs(got[:, c] - want)
        wrong = ~bad & ~(err <= tol)
        if wrong.any():
            z = int(np.flatnonzero(wrong)[0])
            raise Violation(
                f"row {ev['rows'][z]} (number {z} of the batch) gets {got[z, c]!r}; from its own values the model predicts {want[z]!r}: {who}, asked by {how}, missing categories: {plan['method']}",
                key="wrong prediction",
                names=names, values=[list(map(str, v)) for v in vals],
            )
    st.nontrivial = True


def shrink(plan):
    for v in drop_items(plan["events"]):
        yield {**plan, "events": v}
    for j, e in enumerate(plan["events"]):
        if e["do"] != "serve":
            continue
        alts = [dict(rows=x) for x in drop_items(e["rows"]) if x] + [dict(enc="train"), dict(how="predict"), dict(defect=None)]
        for a in alts:
            if any(e[k] != v for k, v in a.items()):
                yield {**plan, "events": plan["events"][:j] + [{**e, **a}] + plan["events"][j + 1 :]}
    for v in drop_items(plan["terms"]):
        yield {**plan, "terms": v}
    for k in ("train_missing", "unused"):
        if plan[k]:
            yield {**plan, k: False}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
