"""C14: how the training data is delivered does not change the fit."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

from .. import obs, problems
from ..core import Vacuous, Violation, must, shrink_spec
from . import c09
from . import common as C

PROP = "C14"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 150000}
LIVENESS = True
RULE = "distinct (family, link, solver, container delivered, kinds of reordering/duplication/splitting, formats of target and weights) tuples"
REAL = C.ENV
STUB = "the delivery of the data (order, duplication, splitting, encoding) is the simulator's; the optimality conditions of the undisturbed problem are evaluated by independent code"
ASSUME = ["the delivered model is judged by the optimality conditions of the original problem, so agreement is up to the solver's own tolerance"]

ARRAYS = ["dense_c", "dense_f", "slice", "reversed", "csc", "csr", "coo", "csc_unsorted", "csc_zeros", "tm_dense", "tm_sparse", "split", "split2", "list", "f32", "float_frame"]
FRAMES = ["pandas_cat", "polars_cat", "pandas_index", "pandas_ordered"]


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "single", "path"), loose=False, convex=rng.random() < 0.8)
    sp["na"], sp["lhs"] = None, False
    sp["gradient_tol"] = 1e-3 if sp["f32"] else rng.choice([1e-4, 1e-6, 1e-7])
    sp["hessian_approx"] = 0.0
    if sp["P2"] in ("mat", "sparse") and sp["levels"]:
        sp["P2"] = "vec"
    opts = list(ARRAYS)
    if sp["levels"] and not sp["formula_inter"]:
        opts = opts + FRAMES * 3
    deliver = rng.choice(opts)
    if sp["f32"] and rng.random() < 0.4:
        deliver = "csc"
    if deliver in FRAMES:
        for q in ("P1", "P2"):
            if rng.random() < 0.4:
                sp[q] = "percol"
    if sp["f32"] or deliver == "f32":
        sp["f32"] = True
        sp["gradient_tol"] = 1e-3
        if sp["P1"] is None and sp["kind"] == "single" and sp["l1_ratio"] and rng.random() < 0.5:
            sp["P1"] = "vec"
    if sp["storage"] == "formula" and rng.random() < 0.5:
        deliver = "formula"
    con = None
    if sp["kind"] == "single" and sp["lower"] is None and sp["upper"] is None and sp["solver"] != "closed-form" and rng.random() < (0.7 if sp["f32"] and deliver == "csc" else 0.2):
        sp["l1_ratio"], sp["solver"] = 0.0, "trust-constr"
        con = [0 if sp["f32"] else rng.choice([0, 0, 1, 2]), rng.randrange(10**6)]
    return dict(
        spec=sp,
        con=con,
        deliver=deliver,
        rows=rng.random() < 0.7,
        split=rng.choice([0, 0, 0.3, 1.0]),
        zero=rng.choice([0, 0, 1, 7]),
        merge=rng.random() < 0.2,
        wscale=rng.choice([None, None, 1e-3, 7.0, 1e5]),
        columns=rng.random() < 0.5,
        categories=rng.random() < 0.5,
        yfmt=rng.choice(["array", "array", "series", "list", "column", "narrow"]),
        wfmt=rng.choice(["array", "array", "series", "list", "narrow"]),
        seed=rng.randrange(2**31),
    )


class Delivery:
    """The same weighted observations in another shape."""

    def __init__(self, pr, plan):
        self.pr, self.plan = pr, plan
        sp = pr.spec
        r = np.random.default_rng(plan["seed"])
        self.kind = plan["deliver"]
        n = len(pr.y)
        w = np.ones(n) if pr.w is None else np.asarray(pr.w, float)
        rows, ws = np.arange(n), w.copy()
        self.done = []
        if plan["merge"] and sp["weights"] == "int":
            # every unit of weight delivered as its own observation
            rows = np.repeat(rows, w.astype(int))
            ws = np.ones(len(rows))
            self.done.append("unmerged")
        elif plan["split"]:
            pick = r.random(n) < plan["split"]
            parts = [np.arange(n)]
            share = np.where(pick, r.uniform(0.1, 0.9, n), 1.0)
            parts.append(np.flatnonzero(pick))
            rows = np.concatenate(parts)
            ws = np.concatenate([w * share, (w * (1 - share))[pick]])
            self.done.append("split")
        bent = np.zeros(len(rows), bool)
        if plan["zero"]:
            extra = r.integers(0, n, plan["zero"])
            rows = np.concatenate([rows, extra])
            ws = np.concatenate([ws, np.zeros(plan["zero"])])
            bent = np.concatenate([bent, np.ones(plan["zero"], bool)])
            self.done.append("zero weight")
        if plan["rows"]:
            q = r.permutation(len(rows))
            rows, ws, bent = rows[q], ws[q], bent[q]
            self.done.append("reordered")
        self.scaled = plan["wscale"]
        if self.scaled:
            ws = ws * self.scaled
            self.done.append("weights scaled")
        self.rows, self.ws, self.bent = rows, ws, bent
        self.plain_weights = bool(np.all(ws == 1)) and pr.w is None
        # columns
        p, L = sp["p"], len(sp["levels"])
        terms = [("x", j) for j in range(p)] + [("c", j) for j in range(L)]
        if sp["formula_inter"]:
            terms.append(("i", 0))
        frames = self.kind in FRAMES or self.kind == "formula"
        if plan["columns"] and self.kind != "formula":
            terms = [terms[q] for q in r.permutation(len(terms))]
            self.done.append("columns reordered")
        self.terms = terms
        self.order = []
        for j, nl in enumerate(sp["levels"]):
            o = np.arange(nl)
            if plan["categories"] and not sp["drop_first"] and self.kind in FRAMES + ["split"]:
                o = r.permutation(nl)
            self.order.append(o)
        if any(np.any(np.diff(o) < 0) for o in self.order):
            self.done.append("categories reordered")
        lo = 1 if sp["drop_first"] else 0
        start, pos = {}, 0
        for t in [("x", j) for j in range(p)] + [("c", j) for j in range(L)] + ([("i", 0)] if sp["formula_inter"] else []):
            start[t] = pos
            pos += 1 if t[0] != "c" else sp["levels"][t[1]] - lo
        perm = []
        for t in terms:
            if t[0] == "c":
                perm += [start[t] + int(q) - lo for q in self.order[t[1]] if int(q) >= lo]
            else:
                perm.append(start[t])
        self.perm = np.array(perm, int)
        self.num = pr.num[rows].copy()
        self.num[bent] = self.num[bent] * 3 + 0.5 if not sp["f32"] else self.num[bent]
        self.cats = [c[rows] for c in pr.cats]

    def D(self):
        sp = self.pr.spec
        lo = 1 if sp["drop_first"] else 0
        parts = []
        for t in self.terms:
            if t[0] == "x":
                parts.append(self.num[:, [t[1]]])
            elif t[0] == "i":
                parts.append((self.num[:, 0] * self.num[:, 1])[:, None])
            else:
                oh = self.cats[t[1]][:, None] == self.order[t[1]][lo:][None, :]
                parts.append(oh.astype(float))
        return np.concatenate(parts, axis=1)

    def frame(self, lib):
        sp = self.pr.spec
        letters = np.array(list("abcdefgh"))
        cols = {}
        for t in self.terms:
            if t[0] == "i":
                continue
            if t[0] == "x":
                cols[f"x{t[1]}"] = self.num[:, t[1]]
            else:
                j = t[1]
                vals = [str(v) for v in letters[self.cats[j]]]
                levels = [str(v) for v in letters[self.order[j]]]
                if lib == "polars":
                    import polars as pl

                    cols[f"c{j}"] = pl.Series(vals, dtype=pl.Enum(levels))
                else:
                    cols[f"c{j}"] = pd.Categorical(vals, categories=levels, ordered=lib == "pandas_ordered")
        if lib == "polars":
            import polars as pl

            return pl.DataFrame(cols)
        df = pd.DataFrame(cols)
        if lib == "pandas_index":
            df.index = np.random.default_rng(3).permutation(len(df)) + 1000
        return df

    def X(self):
        import tabmat as tm

        k, sp = self.kind, self.pr.spec
        if k == "formula":
            df = self.frame("pandas")
            return df[list(df.columns)[::-1]]
        if k in FRAMES:
            return self.frame({"polars_cat": "polars", "pandas_cat": "pandas"}.get(k, k))
        A = self.D()
        if sp["f32"] and k in ("f32", "dense_f", "csc"):
            A = A.astype(np.float32)
        if k == "float_frame":
            return pd.DataFrame(A, columns=[f"v{j}" for j in range(A.shape[1])])
        if k == "list":
            return A.tolist()
        if k == "dense_f":
            return np.asfortranarray(A)
        if k == "slice":
            B = np.full((2 * A.shape[0], A.shape[1] + 1), np.nan)
            B[::2, :-1] = A
            return B[::2, :-1]
        if k == "reversed":
            return np.ascontiguousarray(A[::-1])[::-1]
        if k in ("csc", "csr", "coo"):
            return getattr(sps, k + "_matrix")(A)
        if k == "csc_unsorted":
            M = sps.csc_matrix(A)
            for j in range(M.shape[1]):
                s = slice(M.indptr[j], M.indptr[j + 1])
                M.indices[s] = M.indices[s][::-1].copy()
                M.data[s] = M.data[s][::-1].copy()
            M.has_sorted_indices = False
            return M
        if k == "csc_zeros":
            M = sps.csc_matrix(np.where(A == 0, 1e300, A))
            M.data[M.data == 1e300] = 0.0
            return M
        if k == "tm_dense":
            return tm.DenseMatrix(np.asfortranarray(A))
        if k == "tm_sparse":
            return tm.SparseMatrix(sps.csc_matrix(A))
        if k == "split2":
            h = A.shape[1] // 2
            if h == 0:
                return A
            return tm.SplitMatrix([tm.SparseMatrix(sps.csc_matrix(A[:, :h])), tm.DenseMatrix(np.asfortranarray(A[:, h:]))])
        if k == "split":
            mats = []
            lo = 0
            for t in self.terms:
                if t[0] == "c":
                    o = self.order[t[1]]
                    codes = np.argsort(o)[self.cats[t[1]]]
                    cat = pd.Categorical.from_codes(codes, categories=[str(q) for q in o])
                    mats.append(tm.CategoricalMatrix(cat, drop_first=sp["drop_first"], dtype=A.dtype))
                    lo += len(o) - int(sp["drop_first"])
                else:
                    mats.append(tm.DenseMatrix(np.asfortranarray(A[:, [lo]])))
                    lo += 1
            return tm.SplitMatrix(mats)
        return np.ascontiguousarray(A)

    def fmt(self, v, how, seed):
        if how == "series":
            return pd.Series(v, index=np.random.default_rng(seed).permutation(len(v)) + 5)
        if how == "list":
            return v.tolist()
        if how == "column":
            return v
        if how == "narrow":
            for t in (np.int32, np.int64, np.float32):
                if np.array_equal(v.astype(t).astype(float), v):
                    return v.astype(t)
        return v

    def args(self):
        pr = self.pr
        y = self.fmt(pr.y[self.rows], self.plan["yfmt"], 1)
        w = None if self.plain_weights else self.fmt(self.ws, self.plan["wfmt"], 2)
        off = None if pr.offset is None else self.fmt(pr.offset[self.rows], self.plan["wfmt"] if self.plan["wfmt"] != "narrow" else "array", 3)
        return self.X(), y, w, off

    def estimator(self):
        pr, q = self.pr, self.perm
        over = {}
        frames = self.kind in FRAMES
        seq = [t[1] + (pr.spec["p"] if t[0] == "c" else 0) for t in self.terms]
        if isinstance(pr.P1, np.ndarray):
            over["P1"] = pr.percol["P1"][seq] if frames and "P1" in pr.percol else pr.P1[q]
        if frames and "P2" in pr.percol:
            over["P2"] = pr.percol["P2"][seq]
        elif pr.P2 is not None:
            over["P2"] = pr.P2[q] if pr.P2.ndim == 1 else sps.csc_matrix(pr.P2.toarray()[np.ix_(q, q)]) if sps.issparse(pr.P2) else pr.P2[np.ix_(q, q)]
        for b in ("lower", "upper"):
            v = getattr(pr, b)
            if v is not None:
                over[b + "_bounds"] = np.broadcast_to(v, (pr.k,))[q].copy()
        A, b = constraints(pr, self.plan)
        if A is not None:
            over.update(A_ineq=A[:, q].copy(), b_ineq=b.copy())
        if self.kind == "formula":
            over["formula"] = pr.formula()
        elif pr.spec["storage"] == "formula":
            over["formula"] = None
        if self.kind not in FRAMES + ["formula"]:
            over["drop_first"] = False
        return pr.estimator(**over)


def constraints(pr, plan):
    """A coef <= b, or none."""
    if not plan.get("con") or not plan["con"][0]:
        return None, None
    r = np.random.default_rng(plan["con"][1])
    _, sd = pr.moments()
    return r.normal(size=(plan["con"][0], pr.k)) * sd, r.uniform(-0.1, 0.3, plan["con"][0])


def d2(pr, coef, b):
    """Share of deviance explained, from the documented definition."""
    mu, _ = problems.link_inv(pr.link, pr._eta(coef, b))
    w = pr._wn()
    f = pr.spec["family"]
    with np.errstate(all="ignore"):
        d = w @ problems.unit_deviance(f, pr.y, mu)
        d0 = w @ problems.unit_deviance(f, pr.y, np.full(len(pr.y), w @ pr.y))
    return 1 - d / d0


def execute(plan, st):
    sp = plan["spec"]
    if sp["storage"] == "formula" and plan["deliver"] != "formula":
        sp = {**sp, "storage": "dense_c"}
    pr = problems.Problem(sp)
    dl = Delivery(pr, plan)
    for d in dl.done:
        st.fault("rows " + d if d in ("split", "unmerged", "reordered") else d)
    est = dl.estimator()
    X, y, w, off = dl.args()
    what = f"delivered as {plan['deliver']}, {', '.join(dl.done) or 'unchanged'}, target as {plan['yfmt']}, weights as {plan['wfmt']}"
    o = obs.outcome(est.fit, X, y, sample_weight=w, offset=off)
    st.state(sp["family"], pr.link, getattr(est, "_solver", None), plan["deliver"], dl.done, plan["yfmt"], plan["wfmt"])
    conv = obs.convergence_warnings(o[2])
    if o[0] == "ok" and conv and sp["gradient_tol"] < 1e-5 and all("Line search" in m for m in conv):
        # close to the optimum the objective is flat to rounding; the answer is judged below
        st.count("flat objective")
        conv = []
    if o[0] == "ok" and sp["gradient_tol"] < 1e-5 and any("Line search" in m for m in conv):
        raise Vacuous("the objective is flat to rounding before the optimum is reached")
    if o[0] != "ok" or conv:
        A, b = constraints(pr, plan)
        ref = pr.estimator(**({} if A is None else dict(A_ineq=A, b_ineq=b)))
        oo = obs.outcome(C.fit, ref, pr)
        if oo[0] != "ok" and o[0] != "ok" and problems.well_posed(pr) and "infs or NaNs" not in o[1]:
            raise Violation(f"the fit fails, not only when {what}: {o[1]}", key="fails:" + o[1].split(":")[0])
        if oo[0] != "ok" or obs.convergence_warnings(oo[2]):
            raise Vacuous("the undisturbed fit does not converge either")
        if o[0] != "ok" and sp["solver"] == "trust-constr" and "infs or NaNs" in o[1]:
            # scipy's trial points overflow or not depending on the last bits
            raise Vacuous(o[1])
        if o[0] != "ok":
            raise Violation(f"the fit fails when {what}: {o[1]}", key=f"fails {plan['deliver']}:" + o[1].split(":")[0])
        if problems.well_posed(pr) and not sp["f32"] and sp["solver"] != "trust-constr":
            raise Violation(f"the fit does not converge when {what}: {obs.convergence_warnings(o[2])[0]}", key="does not converge")
        raise Vacuous("does not converge")
    inv = dl.perm
    if np.shape(est.coef_) != (pr.k,):
        raise Violation(f"{np.shape(est.coef_)} coefficients when {what}, {pr.k} expected", key="shape")
    pts = [(est.coef_, est.intercept_, sp["alpha"])]
    if sp["kind"] == "path":
        pts = list(zip(est.coef_path_, np.broadcast_to(est.intercept_path_, len(est.coef_path_)), est._alphas))
        ref = pr.estimator()
        if sp["alphas"] is None:
            oo = obs.outcome(C.fit, ref, pr)
            if oo[0] == "ok" and not np.allclose(np.asarray(ref._alphas, float), np.asarray(est._alphas, float), rtol=1e-2 if sp["f32"] else 1e-6):
                raise Violation(f"the generated path changes to {est._alphas} from {ref._alphas} when {what}", key="path changes")
    for c, b, a in pts:
        coef = np.empty(pr.k)
        coef[inv] = np.asarray(c, float)
        if not pr.feasible(coef):
            raise Violation(f"coefficients leave the bounds when {what}", key="infeasible")
        A, rhs = constraints(pr, plan)
        if A is not None and np.any(A @ coef > rhs + (1e-3 if sp["f32"] else 1e-5)):
            raise Violation(f"the constraints are violated when {what}: {A @ coef - rhs}", key="constraints")
        if A is not None:
            # scipy may stop while its barrier parameter is still large, which leaves the solution inside
            continue
        res, scale = pr.kkt(coef, b, alpha=float(a))
        tol = c09.tolerance(pr, est, scale)
        if not res <= tol + 1e-8 * scale:
            raise Violation(f"another model results when {what}: residual {res:.3g} of the original problem's optimality conditions (tolerance {tol:.3g})", key="another model", solver=est._solver, weights=str(w)[:80])
    if sp["kind"] == "single":
        want = d2(pr, coef, float(b))
        if np.isfinite(want) and plan["deliver"] != "f32" and not sp["f32"]:
            wa = w if w is None or isinstance(w, np.ndarray) else np.asarray(w, float)
            got = must("score", est.score, X, y if not isinstance(y, list) else np.asarray(y), sample_weight=wa, offset=off)
            if not np.isclose(got, want, rtol=1e-6, atol=1e-8):
                raise Violation(f"score of the data {what} is {got!r}, of the observations it describes {want!r}", key="score")
    if plan["deliver"] in FRAMES:
        names = [pr.names[q] for q in inv]
        if list(est.feature_names_) != names:
            raise Violation(f"feature names {list(est.feature_names_)} for columns {names}", key="names")
    st.steps += int(getattr(est, "n_iter_", 0) or 0)
    st.nontrivial = bool(dl.done) or plan["deliver"] != sp["storage"]


def shrink(plan):
    for k, v in dict(zero=0, split=0, merge=False, rows=False, wscale=None, columns=False, categories=False, yfmt="array", wfmt="array").items():
        if plan[k] != v:
            yield {**plan, k: v}
    if plan["con"] and plan["con"][0]:
        yield {**plan, "con": [plan["con"][0] - 1, plan["con"][1]]}
    for v in shrink_spec(plan["spec"]):
        if (not v["levels"] and plan["deliver"] in FRAMES) or plan["deliver"] == "formula" and v["storage"] != "formula":
            continue
        yield {**plan, "spec": v}
