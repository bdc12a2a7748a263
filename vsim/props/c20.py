"""C20: the data of a benchmark problem depend on the problem alone."""
import contextlib
import gc
import hashlib
import importlib
import io
import os
import pickle
import random
import shutil
import tempfile
import urllib.error
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sps

from .. import boot, disk, threads, zygote
from ..core import Violation, Vacuous, drop_items

BENCH = True

PROP = "C20"
LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 40000}
RULE = "distinct (mode, requests, history between them, faults that struck, executed schedule) tuples"
REAL = "glum_benchmarks.problems and glum_benchmarks.data, glum's families and links, tabmat, pandas, scikit-learn, joblib's Memory, pyarrow; a real scratch directory below the simulated disk; the reference comes from a real separate process with another hash seed"
STUB = "the downloads (synthetic raw tables instead of openml's), the global random streams' state, the schedule of threads, the disk below the scratch directory (crashes, torn and short writes, EIO, ENOSPC); processes that restart are simulated by reloading the module"
ASSUME = ["what reached the operating system before a crash of the process survives it (no power failures)", "the raw tables are synthetic, as the sandbox has no network"]

MODES = ["sequence", "sequence", "threads", "threads", "cache", "raw", "raw"]
N = 260


# -- raw tables -------------------------------------------------------------
def raw_housing():
    r = np.random.default_rng(11)
    d = pd.DataFrame({
        "bedrooms": r.integers(1, 6, N), "bathrooms": r.integers(1, 8, N) / 2, "sqft_living": r.integers(400, 5000, N), "floors": r.integers(1, 4, N) * 1.0,
        "waterfront": r.integers(0, 2, N), "view": r.integers(0, 5, N), "condition": r.integers(1, 6, N), "grade": r.integers(3, 12, N),
        "yr_built": r.integers(1900, 2015, N), "yr_renovated": r.integers(0, 2, N) * 2000, "id": np.arange(N),
    })

    class House:
        data = d
        target = pd.Series(r.lognormal(13, 0.5, N), name="price")

    return House


def raw_freq():
    r = np.random.default_rng(12)
    return pd.DataFrame({
        '"IDpol"': np.arange(1, N + 1) * 1.0, '"ClaimNb"': r.choice([0, 1, 2, 5], N, p=[0.5, 0.3, 0.15, 0.05]), '"Exposure"': r.uniform(0.05, 1.4, N),
        '"Area"': r.choice(list("ABCDEF"), N), '"VehPower"': r.integers(4, 13, N), '"VehAge"': r.integers(0, 20, N), '"DrivAge"': r.integers(18, 85, N),
        '"BonusMalus"': r.integers(50, 200, N), '"VehBrand"': r.choice(["B1", "B2", "B12", "B5"], N), '"VehGas"': r.choice(["Diesel", "Regular"], N),
        '"Density"': r.integers(1, 9000, N), '"Region"': r.choice(["R24", "R11", "R82", "R93"], N),
    })


def raw_sev():
    f = raw_freq()
    r = np.random.default_rng(13)
    ids = np.repeat(f['"IDpol"'].astype(int), f['"ClaimNb"'].clip(upper=2))
    return pd.DataFrame({"ClaimAmount": r.lognormal(7, 2, len(ids))}, index=pd.Index(ids, name="IDpol"))


def raw_real(root):
    r = np.random.default_rng(14)
    df = pd.DataFrame({"sample": r.choice(["train", "test"], N), "sanzkh02": r.poisson(0.4, N) * 1.0, "je": r.uniform(0.1, 1, N), "offset_kh_sach_frequenz": r.uniform(0.5, 2, N)})
    X = pd.DataFrame(r.normal(size=(N, 3)), columns=list("abc"))
    for name, d in (("outcomes", df), ("X", X)):
        d.to_parquet(os.path.join(root, "data", name + ".parquet"))


@contextlib.contextmanager
def world(root, fetch_fails=()):
    """The loaders read and write below root; downloads yield synthetic tables."""
    from glum_benchmarks.data import create_housing as h
    from glum_benchmarks.data import create_insurance as ins

    left = list(fetch_fails)

    def net(value):
        if left and left.pop(0):
            raise urllib.error.URLError("simulated")
        return value

    def read_csv(path, *a, **k):
        if isinstance(path, str) and path.startswith("http"):
            return net(raw_freq() if "freq" in path else raw_sev())
        return csv(path, *a, **k)

    def to_parquet(self, path=None, *a, **k):
        if not isinstance(path, (str, os.PathLike)):
            return parquet(self, path, *a, **k)
        b = io.BytesIO()
        parquet(self, b, *a, **k)
        data = b.getvalue()
        with open(path, "wb", buffering=0) as f:
            q = max(1, len(data) // 3)
            while data:
                n = f.write(data[:q])
                data = data[n:]

    csv, parquet, saved = pd.read_csv, pd.DataFrame.to_parquet, (h.git_root, ins.git_root, h.fetch_openml)
    h.git_root = ins.git_root = lambda *a: os.path.join(root, *a)
    h.fetch_openml = lambda *a, **k: net(raw_housing())
    pd.read_csv, pd.DataFrame.to_parquet = read_csv, to_parquet
    try:
        yield
    finally:
        h.git_root, ins.git_root, h.fetch_openml = saved
        pd.read_csv, pd.DataFrame.to_parquet = csv, parquet


def make_raw(root, real=True):
    os.makedirs(os.path.join(root, "data"), exist_ok=True)
    from glum_benchmarks.data import create_housing_raw_data, create_insurance_raw_data

    create_housing_raw_data()
    create_insurance_raw_data()
    if real:
        raw_real(root)


# -- requests ---------------------------------------------------------------
def gen_request(rng, raw=False):
    kind = rng.choice(["housing", "housing", "narrow", "intermediate", "wide", "formula"] + ([] if raw else ["sim", "sim", "simcat", "mixed", "mixed", "real"]))
    rows = rng.choice([None, 15, 60, 400]) if kind != "simcat" else rng.choice([15, 60])
    if kind == "sim":
        rows = rng.choice([15, 40, 120])
    q = dict(kind=kind, rows=rows, noise=rng.choice([None, None, 0.0, 0.1, 0.5]), storage=rng.choice(["dense", "dense", "csr", "csc", "auto", "cat", "split0.1"]), standardize=rng.random() < 0.7)
    q["dist"] = rng.choice({"housing": ["gaussian", "gamma", "binomial"]}.get(kind, ["gaussian", "poisson", "gamma", "binomial"] + (["tweedie-p=1.5"] if kind not in ("sim", "simcat", "mixed") else [])))
    q["setup"] = rng.choice(["no-weights", "offset"] if kind == "housing" else ["no-weights", "weights", "offset"] if kind in ("narrow", "wide", "intermediate") else ["no-weights", "weights"] if kind == "formula" else ["no-weights"])
    if kind == "sim":
        q["ratio"] = rng.choice([None, 0.1, 0.5, 1.5])
    if kind == "mixed":
        q["dist"] = rng.choice([q["dist"], q["dist"], "tweedie_p=1.5"])
        q.update(rows=rng.choice([15, 60]), sparse=rng.choice([0, 2, 5]), cats=rng.choice([1, 3]), seed=rng.choice([1, 1, 7]), ohe=rng.random() < 0.5)
    if kind == "real":
        q.update(rows=rng.choice([None, 15, 60]), dist="poisson")
    return q


def load(q):
    import glum_benchmarks.data as d
    import glum_benchmarks.problems as p

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = q["kind"]
        if k == "mixed":
            fam = "normal" if q["dist"] == "gaussian" else q["dist"]
            return d.simulate_mixed_data(family=fam, n_rows=q["rows"], sparse_features=q["sparse"], categorical_features=q["cats"], ohe_categorical=q["ohe"], random_seed=q["seed"])
        if k == "real":
            return d.generate_real_insurance_dataset(num_rows=q["rows"], distribution="poisson")
        if k == "formula":
            return p.load_formula_data(num_rows=q["rows"], distribution=q["dist"], data_setup=q["setup"])
        fn = {
            "housing": d.generate_housing_dataset, "narrow": d.generate_narrow_insurance_dataset, "intermediate": d.generate_intermediate_insurance_dataset,
            "wide": d.generate_wide_insurance_dataset, "sim": d.simulate_glm_dataset, "simcat": d.simulate_categorical_dataset,
        }[k]
        return p.load_data(fn, num_rows=q["rows"], storage=q["storage"], noise=q["noise"], distribution=q["dist"], data_setup=q["setup"], standardize=q["standardize"], k_over_n_ratio=q.get("ratio"))


def canon(v, h):
    import tabmat as tm

    def put(*a):
        h.update(repr(a).encode())

    if isinstance(v, dict):
        put("dict", sorted(v))
        for k in sorted(v):
            canon(v[k], h)
    elif isinstance(v, (tuple, list)):
        put(type(v).__name__, len(v))
        for x in v:
            canon(x, h)
    elif isinstance(v, pd.DataFrame):
        put("frame", list(map(str, v.columns)), [str(t) if not isinstance(t, pd.CategoricalDtype) else ("cat", list(map(str, t.categories)), t.ordered) for t in v.dtypes], len(v))
        canon(np.asarray(v.index), h)
        for j in range(v.shape[1]):
            c = v.iloc[:, j]
            canon(np.asarray(c.cat.codes) if isinstance(c.dtype, pd.CategoricalDtype) else c.to_numpy(), h)
    elif isinstance(v, pd.Series):
        canon(pd.DataFrame({"s": v}), h)
    elif isinstance(v, np.ndarray):
        put("array", str(v.dtype), v.shape)
        h.update(repr(v.tolist()).encode() if v.dtype == object else np.ascontiguousarray(v).tobytes())
    elif sps.issparse(v):
        put("sparse", v.format)
        canon(v.toarray(), h)
    elif isinstance(v, tm.MatrixBase):
        put(type(v).__name__, getattr(v, "dtype", None) and str(v.dtype))
        if isinstance(v, tm.SplitMatrix):
            for m, i in zip(v.matrices, v.indices):
                put(type(m).__name__, list(map(int, i)))
        canon(v.toarray(), h)
    elif v is None or isinstance(v, (str, int, float, np.generic)):
        put(v)
    else:
        raise TypeError(type(v))


def digest(v):
    h = hashlib.sha256()
    canon(v, h)
    return h.hexdigest()[:16]


def outcome(q):
    """Digest of what a request yields, and the object itself."""
    try:
        v = load(q)
    except (disk.Crash, OSError):
        raise
    except Exception as e:  # noqa: BLE001
        return ("raise", f"{type(e).__name__}: {e}"[:160]), None
    return ("ok", digest(v)), v


def scramble(v):
    """What a caller may do with data it was given."""
    if isinstance(v, dict):
        for x in v.values():
            scramble(x)
        v.clear()
    elif isinstance(v, (tuple, list)):
        for x in v:
            scramble(x)
    elif isinstance(v, (pd.DataFrame, pd.Series)):
        with contextlib.suppress(Exception):
            v.iloc[:] = v.iloc[::-1].to_numpy()
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
        v[...] = v[::-1].copy()
    elif sps.issparse(v):
        v.data[:] = -7
    else:
        a = getattr(v, "_array", None)
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = -7


def reference(payload):
    """Each request alone, in a process of its own."""
    out = []
    import glum_benchmarks.problems  # noqa: F401

    for q in payload["requests"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                root = tempfile.mkdtemp(prefix="vsim-c20-")
                try:
                    with world(root):
                        make_raw(root)
                        res = outcome(q)[0]
                except BaseException as e:  # noqa: BLE001
                    res = ("died", f"{type(e).__name__}: {e}")
                shutil.rmtree(root, ignore_errors=True)
                os.write(w, pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data))
    return out


# -- runs -------------------------------------------------------------------
def generate(rng, i, tier):
    mode = rng.choice(MODES)
    qs = [gen_request(rng, mode == "raw") for _ in range(rng.randint(1, 4) if mode != "threads" else rng.randint(2, 3))]
    if mode != "raw" and len(qs) > 1 and rng.random() < 0.6:
        # a neighbour: the same problem but for one parameter
        q = dict(qs[0])
        can = {
            "rows": [15, 40, 60] + ([None, 400] if q["kind"] not in ("sim", "simcat", "mixed") else []), "noise": [None, 0.0, 0.1, 0.5],
            "storage": ["dense", "csr", "csc", "auto", "cat", "split0.1"], "standardize": [True, False], "seed": [1, 2, 7], "ratio": [None, 0.1, 0.5, 1.5],
            "sparse": [0, 2, 5], "cats": [1, 3], "ohe": [True, False],
        }
        if q["kind"] in ("narrow", "wide", "intermediate"):
            can["setup"] = ["no-weights", "weights", "offset"]
            can["dist"] = ["gaussian", "poisson", "gamma", "binomial", "tweedie-p=1.5"]
        # what the kind of data looks at, above all
        names = [k for k in can if k in q]
        names += [k for k in ("ratio", "seed", "sparse", "ohe", "setup") if k in names] * 2
        k = rng.choice(names)
        q[k] = rng.choice([v for v in can[k] if v != q[k]])
        qs[1] = q
    order = [rng.randrange(len(qs)) for _ in range(rng.randint(len(qs), len(qs) + 3))]
    plan = dict(mode=mode, requests=qs, order=order, history=[[rng.choice(["draw", "seed", "scramble", "python", "nothing"]), rng.randrange(2**31)] for _ in order], start=rng.randrange(2**31))
    if mode == "threads":
        T = len(qs)
        plan.update(
            preempts=[[rng.randrange(T), round(rng.random(), 5), rng.randrange(4)] for _ in range(rng.choice([1, 2, 3, 6, 12]))],
            pick=[rng.randrange(8) for _ in range(rng.randint(1, 4))], fine=rng.random() < 0.4,
        )
    if mode in ("cache", "raw"):
        sessions = []
        for _ in range(rng.randint(1, 3)):
            faults = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = rng.choice(["crash", "crash", "crash after", "eio", "enospc", "short"])
                at = rng.randint(1, rng.choice([3, 6, 12]))
                if k == "enospc" and rng.random() < 0.5:
                    at = -at
                faults.append([at, k, rng.choice([0.0, 0.3, 0.7, 1.0])])
            sessions.append(dict(faults=faults, net=[rng.random() < 0.5 for _ in range(rng.choice([0, 0, 1, 3]))] if mode == "raw" else [], first=rng.randrange(len(order))))
        plan["sessions"] = sessions
    return plan


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], repr(random.getstate())[:4000])


def happen(h, kept):
    k, seed = h
    if k == "draw":
        np.random.uniform(size=1 + seed % 7)
    elif k == "seed":
        np.random.seed(seed)
    elif k == "python":
        random.seed(seed)
    elif k == "scramble":
        for v in kept:
            scramble(v)
        kept.clear()


def check(got, want, q, where):
    if want[0] == "died":
        raise RuntimeError(f"no reference: {want[1]}")
    if got != want:
        raise Violation(f"a problem's data {where} are not those it has alone", key=f"data {where}", request=q, got=got, want=want)


def steps_of(plan, q):
    sim = threads.ThreadSim([boot.BENCH_DIR], [], [0], plan["fine"])
    sim.add(lambda: outcome(q)[0])
    sim.run()
    return sim.tasks[0].step


def execute(plan, st):
    import glum_benchmarks.problems as problems
    import glum_benchmarks.util as util

    r = zygote.call(__name__, "reference", dict(requests=plan["requests"]))
    if r[0] != "ok":
        raise RuntimeError(f"no reference: {r[1:]}")
    want = r[1]
    root = tempfile.mkdtemp(prefix="vsim-c20-")
    saved, pysaved = np.random.get_state(), random.getstate()
    np.random.seed(plan["start"])
    random.seed(plan["start"])
    fired, trace = [], []
    try:
        with world(root):
            if plan["mode"] != "raw":
                make_raw(root)
        if plan["mode"] == "sequence":
            with world(root):
                sequence(plan, plan["order"], want, "after others")
            st.fault("history between loads", len(plan["order"]))
        elif plan["mode"] == "threads":
            with world(root):
                n = [steps_of(plan, q) for q in plan["requests"]]
                pre = [[t % len(n), 1 + int(fr * (n[t % len(n)] - 1)), pick] for t, fr, pick in plan["preempts"]]
                sim = threads.ThreadSim([boot.BENCH_DIR], pre, plan["pick"], plan["fine"], max_steps=4 * sum(n) + 10_000)
                for q in plan["requests"]:
                    sim.add(lambda q=q: outcome(q)[0])
                before = state()
                try:
                    sim.run()
                except threads.StepBound as e:
                    raise Vacuous(str(e)) from e
                untouched(before)
            trace = sim.trace
            for q, t, w in zip(plan["requests"], sim.tasks, want):
                check(t.result if t.exc is None else ("raise", repr(t.exc)), w, q, "loaded beside others")
            if sim.switches:
                st.fault("preemption", sim.switches)
        else:
            fired = sessions(plan, want, root, st, problems, util)
    finally:
        np.random.set_state(saved)
        random.setstate(pysaved)
        shutil.rmtree(root, ignore_errors=True)
    st.steps += len(plan["order"])
    st.count("mode " + plan["mode"])
    for w in want:
        st.count("requests " + w[0])
    st.nontrivial = any(w[0] == "ok" for w in want) and (plan["mode"] != "threads" or bool(trace))
    st.state(plan["mode"], plan["requests"], plan["order"], [h[0] for h in plan["history"]], fired, trace)


def untouched(before):
    if state() != before:
        raise Violation("loading a problem's data changes the global random state", key="global random state")


def sequence(plan, order, want, where):
    kept = []
    for h, j in zip(plan["history"], order):
        happen(h, kept)
        before = state()
        got, v = outcome(plan["requests"][j])
        untouched(before)
        check(got, want[j], plan["requests"][j], where)
        kept.append(v)


def sessions(plan, want, root, st, problems, util):
    """Processes that share a disk: a cache of loaded data, or the raw tables."""
    fired = []
    cache = plan["mode"] == "cache"
    here = os.path.join(root, "cache" if cache else "data")
    os.makedirs(root, exist_ok=True)
    old = util.cache_location
    try:
        for s in plan["sessions"] + [dict(faults=[], net=[], first=0)]:
            if cache:
                util.cache_location = here
                importlib.reload(problems)
                st.fault("process restart")
            d = disk.Disk(here, st, s["faults"], None, plan["start"])
            kept = []
            with world(root, s["net"]), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with d:
                    order = plan["order"][s["first"] :] + plan["order"][: s["first"]]
                    for h, j in zip(plan["history"], order):
                        happen(h, kept)
                        try:
                            got, v = outcome(plan["requests"][j])
                        except disk.Crash:
                            break
                        except OSError as e:
                            # the process says what failed
                            if d.fired or any(s["net"]):
                                st.count("failed loads")
                                continue
                            raise Violation(f"loading fails on a sound disk: {type(e).__name__}: {e}"[:300], key="fails later", request=plan["requests"][j], files=files(root)) from e
                        if got[0] == "raise" and got != want[j] and d.fired and any(f[1] in ("eio", "enospc", "short") for f in d.fired):
                            continue
                        if d.dead:
                            break
                        try:
                            check(got, want[j], plan["requests"][j], "from the cache" if cache else "from stored raw tables")
                        except Violation as e:
                            e.detail.update(files=files(root)) if hasattr(e, "detail") else None
                            raise
                        kept.append(v)
                    gc.collect()
            for f in d.fired:
                st.count(f"{f[1]} at {f[0]}")
            fired += d.fired
    finally:
        if cache:
            util.cache_location = old
            importlib.reload(problems)
    return fired


def files(root):
    out = []
    for p, _, fs in os.walk(root):
        out += [f"{os.path.relpath(os.path.join(p, f), root)} {os.path.getsize(os.path.join(p, f))}" for f in fs]
    return sorted(out)[:40]


def shrink(plan):
    for v in drop_items(plan["order"]):
        if v:
            yield {**plan, "order": v, "history": plan["history"][: len(v)]}
    for k in ("preempts", "sessions"):
        if k in plan:
            for v in drop_items(plan[k]):
                if v or k == "preempts":
                    yield {**plan, k: v}
    if "sessions" in plan:
        for i, s in enumerate(plan["sessions"]):
            for k in ("faults", "net"):
                for v in drop_items(s[k]):
                    yield {**plan, "sessions": plan["sessions"][:i] + [{**s, k: v}] + plan["sessions"][i + 1 :]}
            if s["first"]:
                yield {**plan, "sessions": plan["sessions"][:i] + [{**s, "first": 0}] + plan["sessions"][i + 1 :]}
    for i, h in enumerate(plan["history"]):
        if h[0] != "nothing":
            yield {**plan, "history": plan["history"][:i] + [["nothing", 0]] + plan["history"][i + 1 :]}
    if plan["mode"] == "threads" and len(plan["requests"]) > 2:
        yield {**plan, "requests": plan["requests"][:2], "order": [0, 1], "history": plan["history"][:2]}
    for i, q in enumerate(plan["requests"]):
        for k, v in dict(rows=15, noise=None, storage="dense", standardize=False, setup="no-weights").items():
            if q.get(k) != v:
                yield {**plan, "requests": plan["requests"][:i] + [{**q, k: v}] + plan["requests"][i + 1 :]}
