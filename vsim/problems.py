"""Seeded GLM problems, and an oracle for them that shares no code with glum.

A problem is a JSON-able spec; `Problem(spec)` builds the user-facing inputs
(in the storage format the spec names) and, separately, the plain float64
design matrix the oracle uses.
"""
import numpy as np
import pandas as pd
import scipy.sparse as sps

CONVEX = [
    ("normal", "identity"),
    ("poisson", "log"),
    ("gamma", "log"),
    ("tweedie (1.5)", "log"),
    ("tweedie (1.2)", "log"),
    ("tweedie (1.8)", "log"),
    ("binomial", "logit"),
    ("negative.binomial", "log"),
    ("negative.binomial (0.3)", "log"),
]
ODD = [
    ("inverse.gaussian", "log"),
    ("normal", "log"),
    ("poisson", "identity"),
    ("gamma", "identity"),
    ("binomial", "cloglog"),
    ("tweedie (1.5)", "tweedie (1.5)"),
    ("tweedie (2.5)", "log"),
    ("ghs", "identity"),
]
AUTO = {
    "normal": "identity",
    "poisson": "log",
    "gamma": "log",
    "inverse.gaussian": "log",
    "binomial": "logit",
    "ghs": "identity",
}

ARRAY_STORAGE = ["dense_c", "dense_f", "csc", "csr", "tm_dense", "tm_sparse", "split"]
DF_STORAGE = ["pandas", "polars", "pandas_cat", "polars_cat", "formula"]


def power_of(family):
    if family == "normal":
        return 0.0
    if family == "poisson":
        return 1.0
    if family == "gamma":
        return 2.0
    if family == "inverse.gaussian":
        return 3.0
    if family.startswith("tweedie"):
        # glum keeps the power as a float32 number
        return float(np.float32(family.split("(")[1].rstrip(")"))) if "(" in family else 1.5
    return None


def theta_of(family):
    return float(np.float32(family.split("(")[1].rstrip(")"))) if "(" in family else 1.0


def linkname(family, link):
    if link != "auto":
        return link
    if family.startswith("tweedie"):
        return "log"
    if family.startswith("negative"):
        return "log"
    return AUTO[family]


def link_inv(link, eta):
    """(mu, dmu/deta)"""
    if link == "identity":
        return eta, np.ones_like(eta)
    if link == "log":
        m = np.exp(eta)
        return m, m
    if link == "logit":
        m = np.where(eta > 0, 1 / (1 + np.exp(-np.abs(eta))), np.exp(-np.abs(eta)) / (1 + np.exp(-np.abs(eta))))
        return m, m * (1 - m)
    if link == "cloglog":
        e = np.exp(eta)
        return -np.expm1(-e), e * np.exp(-e)
    if link.startswith("tweedie"):
        # eta = mu^(1-p)
        p = float(link.split("(")[1].rstrip(")")) if "(" in link else 1.5
        m = eta ** (1 / (1 - p))
        return m, eta ** (p / (1 - p)) / (1 - p)
    raise ValueError(link)


def link_fn(link, mu):
    if link == "identity":
        return mu
    if link == "log":
        return np.log(mu)
    if link == "logit":
        return np.log(mu) - np.log1p(-mu)
    if link == "cloglog":
        return np.log(-np.log1p(-mu))
    p = float(link.split("(")[1].rstrip(")")) if "(" in link else 1.5
    return mu ** (1 - p)


def variance(family, mu):
    if family == "binomial":
        return mu * (1 - mu)
    if family == "ghs":
        return 1 + mu**2
    if family.startswith("negative"):
        return mu + theta_of(family) * mu**2
    return mu ** power_of(family)


def _xlogy(x, y):
    with np.errstate(all="ignore"):
        return np.where(x == 0, 0.0, x * np.log(np.where(x == 0, 1.0, y)))


def unit_deviance(family, y, mu):
    if family == "binomial":
        return 2 * (_xlogy(y, y / mu) + _xlogy(1 - y, (1 - y) / (1 - mu)))
    if family == "ghs":
        return 2 * y * (np.arctan(y) - np.arctan(mu)) + np.log((1 + mu**2) / (1 + y**2))
    if family.startswith("negative"):
        r = 1 / theta_of(family)
        return 2 * (_xlogy(y, y / mu) - (y + r) * np.log((y + r) / (mu + r)))
    p = power_of(family)
    if p == 0:
        return (y - mu) ** 2
    if p == 1:
        return 2 * (_xlogy(y, y / mu) - y + mu)
    if p == 2:
        return 2 * (np.log(mu / y) + y / mu - 1)
    return 2 * (
        np.maximum(y, 0) ** (2 - p) / ((1 - p) * (2 - p)) - y * mu ** (1 - p) / (1 - p) + mu ** (2 - p) / (2 - p)
    )


def make_family(name):
    if name == "ghs":
        from glum import GeneralizedHyperbolicSecant

        return GeneralizedHyperbolicSecant()
    return name


def gen_spec(rng, convex=True, storage=None, strong=True, small=False, bounds=None, families=None, l1=None):
    """Draw a problem spec from a random.Random."""
    fam, link = rng.choice(families or (CONVEX if convex else CONVEX + ODD))
    st = rng.choice(storage or (ARRAY_STORAGE + DF_STORAGE))
    cats = st.endswith("_cat") or st in ("split", "formula")
    p_num = rng.randint(1, 3 if small else 6)
    ncat = rng.randint(1, 2) if cats and not (st in ("split", "formula") and rng.random() < 0.3) else 0
    levels = [rng.randint(2, 4) for _ in range(ncat)]
    l1r = l1 if l1 is not None else rng.choice([0.0, 0.0, 0.5, 1.0, 0.3])
    alpha = rng.choice([0.003, 0.01, 0.05, 0.1, 0.5]) if strong else rng.choice([0.0, 0.001, 0.05, 0.3])
    if strong and l1r == 1.0:
        l1r = 0.9  # keep some curvature
    auto_ok = linkname(fam, "auto") == link
    spec = dict(
        seed=rng.randrange(2**31),
        n=rng.randint(12, 30 if small else 70),
        p=p_num,
        levels=levels,
        storage=st,
        f32=st in ("dense_c", "dense_f", "csc", "split") and rng.random() < 0.12,
        density=rng.choice([0.3, 0.6, 1.0]) if st in ("csc", "csr", "tm_sparse") else 1.0,
        scale=rng.choice([0, 0, 1, 2, -3]),
        family=fam,
        link="auto" if auto_ok and rng.random() < 0.7 else link,
        fit_intercept=rng.random() < 0.75,
        alpha=alpha,
        l1_ratio=l1r,
        P1=rng.choice([None, None, "vec", "identity", "mask"] + (["percol", "percol"] if st.endswith("_cat") else [])),
        P2=rng.choice([None, None, "vec"] + (["percol"] if st.endswith("_cat") else ["mat", "sparse"])),
        scale_predictors=rng.random() < 0.3,
        weights=rng.choice([None, None, "float", "int", "series"]),
        offset=rng.random() < 0.35,
        drop_first=bool(levels) and rng.random() < 0.3,
        solver="auto",
        lower=None,
        upper=None,
        gradient_tol=1e-8,
        max_iter=300,
        hessian_approx=rng.choice([0.0, 0.0, 0.0, 0.01, 0.1]),
        selection="cyclic",
        formula_inter=st == "formula" and p_num >= 2 and rng.random() < 0.4,
        copy_X=rng.choice([None, None, True]),
    )
    if fam == "normal" and link == "identity":
        spec["offset"] = spec["offset"] and True
    if link in ("identity",) and fam in ("poisson", "gamma"):
        spec["offset"] = False
    if link.startswith("tweedie") or (fam == "binomial" and link == "log"):
        spec["offset"] = False
    if bounds or (bounds is None and rng.random() < 0.15):
        spec["lower"] = rng.choice([None, -0.2, 0.0, "vec"])
        spec["upper"] = rng.choice([None, 0.3, "vec"])
    if st.endswith("_cat") and rng.random() < 0.3:
        # some categories are missing
        spec["na"] = rng.choice(["zero", "convert", "convert"])
    # a two-sided formula: the target is a column of the data
    spec["lhs"] = st == "formula" and rng.random() < 0.35
    if not spec["fit_intercept"]:
        spec["scale_predictors"] = False
    if st == "formula" and not spec["fit_intercept"]:
        spec["drop_first"] = False
    if spec["f32"]:
        spec["gradient_tol"] = 1e-3
        spec["P1"] = None
    if (
        spec["lower"] is None
        and spec["upper"] is None
        and (l1r == 0 or alpha == 0)
        and not spec["f32"]
        and rng.random() < 0.4
    ):
        opts = ["irls-ls", "irls-cd", "lbfgs"]
        if fam == "normal" and link == "identity":
            opts.append("closed-form")
        spec["solver"] = rng.choice(opts)
    # settings that must not matter to what is fitted
    extra = {"check_input": False, "force_all_finite": False, "robust": False, "expected_information": True}
    spec["shift"] = 0 if spec["f32"] else rng.choice([0, 0, 0, 1, -3])
    spec["extra"] = {k: v for k, v in extra.items() if rng.random() < 0.08}
    return spec


def gen_search_spec(rng, kind, **k):
    """A spec for a regularization path or a cross-validated fit."""
    l1 = rng.choice([0.0, 0.5, 0.5, 0.9])
    s = gen_spec(rng, l1=l1, **k)
    s.update(kind=kind, n=rng.randint(36, 60), n_alphas=rng.randint(2, 5), gradient_tol=rng.choice([1e-4, 1e-6]), solver="auto")
    s["alphas"] = rng.choice([None, [0.5, 0.1, 0.01], [0.03, 0.3]])
    if kind == "path" and s["alphas"]:
        s["alphas"] = sorted(s["alphas"], reverse=True)
    if l1 == 0.0 and s["alphas"] is None:
        s["alphas"] = [1.0, 0.1, 0.02]
    if s["f32"] and kind == "path":
        s["f32"] = False
    if s["f32"]:
        s["gradient_tol"] = 1e-3
    if kind == "cv":
        s["cv"] = rng.choice([2, 3, ["kfold", 3, rng.randrange(100)], ["list", 2]])
        s["l1_list"] = rng.choice([None, None, [0.3, 0.8], [0.5]]) if l1 > 0 else None
    return s


class Problem:
    def __init__(self, spec, row_perm=None):
        self.spec = spec
        s = spec
        r = np.random.default_rng(s["seed"])
        n, p = s["n"], s["p"]
        # negative: columns of small values only
        scales = 10.0 ** r.uniform(-abs(s["scale"]), max(s["scale"], -1.5), size=p) if s["scale"] else np.ones(p)
        num = r.normal(size=(n, p))
        if s["density"] < 1:
            num = num * (r.random((n, p)) < s["density"])
            num[r.integers(0, n, p), np.arange(p)] = 1.0
            num[r.integers(0, n, p), np.arange(p)] = -0.7
        num = num * scales
        if s.get("shift") and s["density"] == 1:
            num = num + np.random.default_rng(s["seed"] + 78).normal(s["shift"], 1.0, p) * scales
        if s.get("const"):
            num[:, int(r.integers(p))] = s["const"]
        cats = [r.integers(0, L, n) for L in s["levels"]]
        for c, L in zip(cats, s["levels"]):
            c[:L] = np.arange(L)
        self.na = s.get("na")
        if self.na:
            q = np.random.default_rng(s["seed"] + 77)
            for c, L in zip(cats, s["levels"]):
                c[L:][q.random(n - L) < 0.2] = -1
                c[L] = -1
        if s["f32"]:
            num = num.astype(np.float32).astype(np.float64)
        # oracle's design
        parts = [num]
        names = [f"x{j}" for j in range(p)]
        for j, (c, L) in enumerate(zip(cats, s["levels"])):
            oh = np.zeros((n, L + (self.na == "convert")))
            seen = c >= 0 if self.na == "zero" else np.ones(n, bool)
            oh[np.flatnonzero(seen), c[seen]] = 1
            lo = 1 if s["drop_first"] else 0
            parts.append(oh[:, lo:])
            names += [f"c{j}[{chr(97 + q)}]" for q in range(lo, L)]
            if self.na == "convert":
                names.append(f"c{j}[(MISSING)]")
        if s["formula_inter"]:
            parts.append((num[:, 0] * num[:, 1])[:, None])
            names.append("x0:x1")
        self.num, self.cats = num, cats
        self.D = np.concatenate(parts, axis=1)
        self.names = names
        self.k = self.D.shape[1]
        self.link = linkname(s["family"], s["link"])
        # truth
        k = self.k
        sd = self.D.std(axis=0)
        sd = np.where(sd < 1e-7, 1, sd)
        beta = r.normal(size=k) * 0.5 / sd / np.sqrt(k)
        off = r.normal(size=n) * 0.3 if s["offset"] else None
        eta = (self.D - (self.D.mean(axis=0) if s.get("shift") else 0)) @ beta + (0 if off is None else off)
        mu = self._safe_mu(eta)
        self.y = self._sample(r, mu)
        self.offset = off
        w = s["weights"]
        if w is None:
            self.w = None
        elif w == "int":
            self.w = r.integers(1, 4, n).astype(float)
        else:
            self.w = r.uniform(0.2, 2.0, n)
        # what the penalties are per column of the design, and per column of the data
        self.percol = {}
        if s["P1"] == "vec":
            self.P1 = r.uniform(0.3, 2.0, k)
        elif s["P1"] == "mask":
            # columns without an l1 penalty
            self.P1 = np.where(r.random(k) < 0.4, 0.0, r.uniform(0.3, 2.0, k))
        elif s["P1"] == "percol":
            self.P1 = self._percol("P1", r)
        else:
            self.P1 = s["P1"]
        if s["P2"] == "vec":
            self.P2 = r.uniform(0.3, 2.0, k)
        elif s["P2"] == "percol":
            self.P2 = self._percol("P2", r)
        elif s["P2"] == "block":
            # few entries, and some of them off the diagonal
            B = r.uniform(0.5, 1.5, (2, 2))
            j = r.permutation(k)[:2]
            M = np.zeros((k, k))
            M[np.ix_(j, j)] = B @ B.T if len(j) == 2 else 1.0
            q = np.random.default_rng(s["seed"] + 91)
            if k > 4 and q.random() < 0.6:
                # as many entries as a diagonal has
                o = np.setdiff1d(np.arange(k), j)[: k - 4]
                M[o, o] = q.uniform(0.5, 1.5, k - 4)
            self.P2 = [sps.csc_matrix, sps.csr_matrix, sps.coo_matrix][int(r.integers(3))](M)
        elif s["P2"] in ("mat", "sparse"):
            B = r.normal(size=(k, k)) * 0.3
            M = B @ B.T + np.diag(r.uniform(0.5, 1.5, k))
            q = np.random.default_rng(s["seed"] + 92)
            if q.random() < 0.4:
                # only the symmetric part of a penalty matters
                K = q.normal(size=(k, k)) * 0.4
                M = M + K - K.T
            self.P2 = M if s["P2"] == "mat" else sps.csc_matrix(M)
        else:
            self.P2 = None
        self.lower = self._bound(r, s["lower"], -1)
        self.upper = self._bound(r, s["upper"], 1)
        if s["f32"]:
            self.y = self.y.astype(np.float32).astype(np.float64)
        self.r = r

    def _percol(self, name, r):
        """One penalty per column of the data, the same for every category."""
        v = self.percol[name] = r.uniform(0.3, 2.0, self.spec["p"] + len(self.cats))
        out = list(v[: self.spec["p"]])
        for u, L in zip(v[self.spec["p"] :], self.spec["levels"]):
            out += [u] * (L - int(self.spec["drop_first"]) + (self.na == "convert"))
        out += [1.0] * int(self.spec["formula_inter"])
        return np.array(out)

    def _bound(self, r, b, sign):
        if b is None:
            return None
        if b == "vec":
            v = sign * r.uniform(0.05, 0.5, self.k)
            v[r.random(self.k) < 0.4] = sign * np.inf
            return v
        return float(b)

    def _safe_mu(self, eta):
        f, link = self.spec["family"], self.link
        if link == "identity":
            return eta if f in ("normal", "ghs") else np.abs(eta) + 0.5
        if link in ("logit", "cloglog"):
            return np.clip(link_inv(link, np.clip(eta, -4, 1.5))[0], 0.02, 0.98)
        if link == "log":
            m = np.exp(np.clip(eta, -3, 3))
            return np.clip(m * 0.4, 0.02, 0.9) if f == "binomial" else m
        return np.abs(eta) + 0.7

    def _sample(self, r, mu):
        f = self.spec["family"]
        n = len(mu)
        if f == "normal":
            return mu + r.normal(size=n) * 0.5
        if f == "ghs":
            return mu + r.normal(size=n)
        if f == "binomial":
            y = (r.random(n) < mu).astype(float)
            y[0], y[1] = 0.0, 1.0
            return y
        if f == "poisson":
            y = r.poisson(mu).astype(float)
            y[0] += 1
            return y
        if f.startswith("negative"):
            th = theta_of(f)
            y = r.poisson(mu * r.gamma(1 / th, th, n)).astype(float)
            y[0] += 1
            return y
        p = power_of(f)
        if p >= 2:
            return mu * r.gamma(2.0, 0.5, n) + 0.05
        y = np.where(r.random(n) < 0.3, 0.0, mu * r.gamma(2.0, 0.7, n))
        y[0] += 1.0
        return y

    # -- user-facing objects ---------------------------------------------
    def frame(self, rows=None, lib="pandas", cat=True):
        rows = slice(None) if rows is None else rows
        d = {f"x{j}": self.num[rows, j] for j in range(self.spec["p"])}
        letters = np.array(list("abcdefgh"))
        order = -1 if self.spec.get("cat_rev") else 1
        if self.spec.get("lhs"):
            d["yy"] = self.y[rows]
        if lib == "polars":
            import polars as pl

            out = {k: pl.Series(v) for k, v in d.items()}
            for j, (c, L) in enumerate(zip(self.cats, self.spec["levels"])):
                out[f"c{j}"] = pl.Series([str(letters[v]) if v >= 0 else None for v in c[rows]], dtype=pl.Enum([str(v) for v in letters[:L]][::order]))
            return pl.DataFrame(out)
        df = pd.DataFrame(d)
        for j, (c, L) in enumerate(zip(self.cats, self.spec["levels"])):
            df[f"c{j}"] = pd.Categorical([str(letters[v]) if v >= 0 else None for v in c[rows]], categories=[str(v) for v in letters[:L]][::order])
        return df

    def X(self, rows=None, storage=None):
        import tabmat as tm

        st = storage or self.spec["storage"]
        sel = slice(None) if rows is None else rows
        A = np.array(self.D[sel])
        if self.spec["f32"] and st in ("dense_c", "dense_f", "csc", "split"):
            A = A.astype(np.float32)
        if st == "dense_c":
            return np.ascontiguousarray(A)
        if st == "dense_f":
            return np.asfortranarray(A)
        if st == "csc":
            return sps.csc_matrix(A)
        if st == "csr":
            return sps.csr_matrix(A)
        if st == "tm_dense":
            return tm.DenseMatrix(np.asfortranarray(A))
        if st == "tm_sparse":
            return tm.SparseMatrix(sps.csc_matrix(A))
        if st == "split":
            if not self.spec["levels"]:
                h = max(1, A.shape[1] // 2)
                if h == A.shape[1]:
                    return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(A))])
                return tm.SplitMatrix(
                    [tm.DenseMatrix(np.asfortranarray(A[:, :h])), tm.SparseMatrix(sps.csc_matrix(A[:, h:]))]
                )
            p = self.spec["p"]
            mats = [tm.DenseMatrix(np.asfortranarray(A[:, :p]))]
            for j, (c, L) in enumerate(zip(self.cats, self.spec["levels"])):
                codes = pd.Categorical.from_codes(c[sel], categories=list("abcdefgh"[:L]))
                mats.append(
                    tm.CategoricalMatrix(codes, drop_first=self.spec["drop_first"], dtype=A.dtype, column_name=f"c{j}", cat_missing_method=self.na or "fail")
                )
            return tm.SplitMatrix(mats)
        if st in ("pandas", "polars"):
            if st == "polars":
                import polars as pl

                return pl.DataFrame({nm: A[:, j].copy() for j, nm in enumerate(self.names)})
            return pd.DataFrame(np.array(A), columns=self.names)
        if st in ("pandas_cat", "formula"):
            return self.frame(rows)
        if st == "polars_cat":
            return self.frame(rows, lib="polars")
        raise ValueError(st)

    def yw(self, rows=None):
        sel = slice(None) if rows is None else rows
        y = self.y[sel].copy()
        w = None if self.w is None else self.w[sel].copy()
        if w is not None and self.spec["weights"] == "series":
            w = pd.Series(w)
        off = None if self.offset is None else self.offset[sel].copy()
        return y, w, off

    def formula(self):
        t = [f"x{j}" for j in range(self.spec["p"])]
        if self.spec.get("formula_fn"):
            # a transform with a state of its own, known only from the training data
            t[0] = self.spec["formula_fn"]
        t += [f"c{j}" for j in range(len(self.spec["levels"]))]
        if self.spec["formula_inter"]:
            t.append("x0:x1")
        return ("yy ~ " if self.spec.get("lhs") else "") + " + ".join(t)

    def target(self, y):
        """What is passed to fit as y."""
        return None if self.spec.get("lhs") and self.spec["storage"] == "formula" else y

    def kwargs(self, **over):
        s = self.spec
        P1 = self.P1
        P2 = self.P2
        kw = dict(
            family=make_family(s["family"]),
            link=s["link"],
            alpha=s["alpha"],
            l1_ratio=s["l1_ratio"],
            fit_intercept=s["fit_intercept"],
            scale_predictors=s["scale_predictors"],
            solver=s["solver"],
            gradient_tol=s["gradient_tol"],
            max_iter=s["max_iter"],
            hessian_approx=s["hessian_approx"],
            selection=s["selection"],
            drop_first=s["drop_first"],
            copy_X=s["copy_X"],
            random_state=7,
            **s.get("extra", {}),
        )
        if s["storage"].endswith("_cat"):
            P1, P2 = self.percol.get("P1", P1), self.percol.get("P2", P2)
        if self.na:
            kw["cat_missing_method"] = self.na
        if P1 is not None:
            kw["P1"] = P1.copy() if isinstance(P1, np.ndarray) else P1
        if P2 is not None:
            kw["P2"] = P2.copy()
        if self.lower is not None:
            kw["lower_bounds"] = np.copy(self.lower) if np.ndim(self.lower) else np.full(self.k, self.lower)
        if self.upper is not None:
            kw["upper_bounds"] = np.copy(self.upper) if np.ndim(self.upper) else np.full(self.k, self.upper)
        if s["storage"] == "formula":
            kw["formula"] = self.formula()
        kind = self.kind()
        if kind != "single":
            kw["n_alphas"] = s["n_alphas"]
            kw["min_alpha_ratio"] = 0.05
        if kind == "path":
            kw["alpha_search"] = True
            kw["alpha"] = None if s["alphas"] is None else np.array(s["alphas"])
            if s["alphas"] is not None:
                del kw["min_alpha_ratio"]
        if kind == "cv":
            del kw["alpha"]
            kw["alphas"] = None if s["alphas"] is None else np.array(s["alphas"])
            if s["alphas"] is not None:
                del kw["min_alpha_ratio"]
            if s.get("l1_list"):
                kw["l1_ratio"] = list(s["l1_list"])
            kw["cv"] = self.cv()
        kw.update(over)
        return kw

    def cv(self):
        from sklearn.model_selection import KFold

        c = self.spec["cv"]
        if isinstance(c, int):
            return c
        if c[0] == "kfold":
            return KFold(c[1], shuffle=True, random_state=c[2])
        n = self.spec["n"]
        idx = np.arange(n)
        return [(idx[idx % c[1] != f], idx[idx % c[1] == f]) for f in range(c[1])]

    def kind(self):
        return self.spec.get("kind", "single")

    def estimator(self, **over):
        import glum

        cls = glum.GeneralizedLinearRegressorCV if self.kind() == "cv" else glum.GeneralizedLinearRegressor
        return cls(**self.kwargs(**over))

    def fit(self, est=None, rows=None, storage=None, **over):
        est = est or self.estimator(**over)
        y, w, off = self.yw(rows)
        return est.fit(self.X(rows, storage), self.target(y) if storage is None else y, sample_weight=w, offset=off)

    def sub(self, rows):
        """The oracle's view of the problem on some of the rows (possibly repeated)."""
        import copy

        q = copy.copy(self)
        q.D, q.y = self.D[rows], self.y[rows]
        q.w = None if self.w is None else self.w[rows]
        q.offset = None if self.offset is None else self.offset[rows]
        return q

    # -- oracle ------------------------------------------------------------
    def _wn(self, w=None):
        w = self.w if w is None else w
        w = np.ones(len(self.y)) if w is None else np.asarray(w, float)
        return w / w.sum()

    def moments(self, D=None, w=None):
        D = self.D if D is None else D
        w = self._wn(w)
        m = w @ D
        sd = np.sqrt(np.maximum(w @ (D - m) ** 2, 0))
        return m, np.where(sd < 1e-6, 1.0, sd)

    def penalties(self, alpha=None, l1_ratio=None):
        s = self.spec
        a = s["alpha"] if alpha is None else alpha
        l1 = s["l1_ratio"] if l1_ratio is None else l1_ratio
        p1 = np.ones(self.k) if not isinstance(self.P1, np.ndarray) else self.P1
        if self.P2 is None:
            p2 = np.eye(self.k)
        elif sps.issparse(self.P2):
            p2 = self.P2.toarray()
        elif self.P2.ndim == 1:
            p2 = np.diag(self.P2)
        else:
            p2 = self.P2
        p2 = 0.5 * (p2 + p2.T)
        if s["scale_predictors"]:
            _, sd = self.moments()
            p1 = p1 * sd
            p2 = p2 * np.outer(sd, sd)
        return a * l1 * p1, a * (1 - l1) * p2

    def objective(self, coef, intercept, alpha=None, l1_ratio=None):
        mu, _ = link_inv(self.link, self._eta(coef, intercept))
        p1, p2 = self.penalties(alpha, l1_ratio)
        with np.errstate(all="ignore"):
            dev = self._wn() @ unit_deviance(self.spec["family"], self.y, mu)
        return 0.5 * dev + p1 @ np.abs(coef) + 0.5 * coef @ p2 @ coef

    def _eta(self, coef, intercept):
        eta = self.D @ coef + intercept
        return eta if self.offset is None else eta + self.offset

    def kkt(self, coef, intercept, alpha=None, l1_ratio=None, A=None, b=None, slack=1e-5, gap=None):
        """Residual of the first-order conditions in the standardized space the
        stopping rule is stated in, and the scale of the terms it sums."""
        coef = np.asarray(coef, float)
        intercept = float(intercept)
        mu, dmu = link_inv(self.link, self._eta(coef, intercept))
        with np.errstate(all="ignore"):
            if self.spec["family"] == "binomial" and self.link == "logit":
                rows = self._wn() * (mu - self.y)
            elif self.spec["family"] == "binomial" and self.link == "cloglog":
                # glum clips probabilities (with a warning), which makes the likelihood flat beyond
                if np.any(mu > 1 - 50 * np.finfo(float).eps):
                    return 0.0, 1.0
                e = np.exp(self._eta(coef, intercept))
                rows = self._wn() * (mu - self.y) * np.where(mu > 0, e / np.where(mu > 0, mu, 1), 1.0)
            else:
                rows = self._wn() * (mu - self.y) / variance(self.spec["family"], mu) * dmu
        if not np.all(np.isfinite(rows)):
            return np.inf, 1.0
        m, sd = self.moments()
        p1, p2 = self.penalties(alpha, l1_ratio)
        lo = -np.inf if self.lower is None else self.lower
        hi = np.inf if self.upper is None else self.upper
        lo = np.broadcast_to(lo, coef.shape)
        hi = np.broadcast_to(hi, coef.shape)
        g0 = rows.sum() if self.spec["fit_intercept"] else 0.0
        shift = m if self.spec["fit_intercept"] else 0.0
        g = (rows @ (self.D - shift) + p2 @ coef) / sd
        scale = np.abs(rows).sum() + np.abs(rows) @ np.abs(self.D - shift) @ (1 / sd) + np.abs(p2 @ coef).sum()
        if A is not None:
            from scipy.optimize import nnls

            # multipliers only where (nearly) nothing is left of the slack, or, for
            # interior point methods, where multiplier times slack is small
            left = b - A @ coef
            act = left < slack if gap is None else np.ones(len(b), bool)
            while act.any():
                lam, _ = nnls(-(A[act] / sd).T, g)
                loose = np.zeros(len(b), bool)
                if gap is not None:
                    loose[act] = lam * left[act] > gap
                if not loose.any():
                    g = g + (A[act] / sd).T @ lam
                    break
                act &= ~loose
        l1 = p1 / sd
        at0 = np.abs(coef) * sd <= 1e-10
        res = np.where(at0, np.sign(g) * np.maximum(np.abs(g) - l1, 0), g + np.sign(coef) * l1)
        tolb = 1e-6 * (1 + np.abs(coef))
        res = np.where((np.abs(coef - lo) <= tolb) & (res > 0), 0, res)
        res = np.where((np.abs(coef - hi) <= tolb) & (res < 0), 0, res)
        return abs(g0) + np.abs(res).sum(), scale + l1.sum()

    def feasible(self, coef, tol=None):
        if tol is None:
            tol = 1e-4 if self.spec["f32"] else 1e-8
        lo = -np.inf if self.lower is None else self.lower
        hi = np.inf if self.upper is None else self.upper
        t = tol * (1 + np.abs(coef))
        return bool(np.all(coef >= lo - t) and np.all(coef <= hi + t))


def well_posed(pr, alpha=None):
    """The mean stays in range everywhere and the objective is strictly convex."""
    if (pr.spec["family"], pr.link) not in CONVEX:
        return False
    if alpha is not None:
        no_ridge = alpha * (1 - pr.spec["l1_ratio"]) == 0
    else:
        no_ridge = pr.spec["l1_ratio"] == 1 or pr.kind() == "single" and pr.spec["alpha"] == 0
    if pr.spec["P2"] == "block" or no_ridge:
        # the penalty leaves some directions to the data
        if pr.kind() == "single" and pr.spec["alpha"] == 0 and pr.spec["family"] != "normal":
            return False  # e.g. separable: there need not be an optimum
        M = np.column_stack([np.ones(len(pr.y)), pr.D]) if pr.spec["fit_intercept"] else pr.D
        return np.linalg.matrix_rank(M / np.linalg.norm(M, axis=0)) == M.shape[1]
    return True
