"""C17: stored benchmark results are complete or absent, and found under their name."""
import contextlib
import gc
import io
import os
import pickle
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from .. import boot, clock, disk
from ..core import Violation, drop_items
from . import common as C

BENCH = True
import glum_benchmarks.compare_results as cr  # noqa: E402
import glum_benchmarks.run_benchmarks as rb  # noqa: E402
import glum_benchmarks.util as util  # noqa: E402
from glum_benchmarks.config import ALLOWED_DISTRIBUTIONS_BY_DATASET, BenchmarkConfig  # noqa: E402

PROP = "C17"
LEVEL = "exploration"
RUNS = {"quick": 600, "thorough": 50000}
RULE = "distinct (sessions, benchmarks in them, disk operations performed, faults that struck, files left) tuples"
REAL = "glum_benchmarks' runner, analysis and comparison; glum and scikit-learn; pickle, pandas; a real scratch directory below the simulated disk"
STUB = "file operations below the scratch directory pass through a simulated disk (crashes, torn and short writes, EIO, ENOSPC, a full disk, order of directory listings); clocks are simulated"
ASSUME = ["what reached the operating system before a crash of the process survives it (no power failures)"]

PROBLEMS = [(d, r) for d in ("gaussian", "poisson", "binomial", "gamma") for r in ("l2", "net", "lasso")]


def gen_entry(rng):
    return dict(
        libraries=rng.sample(["glum", "zeros", "sklearn"], rng.choice([1, 1, 2])),
        datasets=["simulated-glm"],
        regularizations=rng.sample(["l2", "lasso"], rng.choice([1, 1, 2])),
        distributions=[rng.choice(["gaussian", "gaussian", "poisson"])],
        alphas=rng.sample([0.001, 0.01, 1e-05, 0.1, 0.0], rng.choice([1, 1, 2])),
        num_rows=[rng.choice([30, 40])],
        k_over_n_ratios=rng.sample([0.1, 0.25, 0.5], rng.choice([1, 1, 2])),
    )


def generate(rng, i, tier):
    if rng.random() < 0.25:
        return dict(names=rng.randrange(2**31), sessions=[])
    base = gen_entry(rng)
    sessions = []
    for s in range(rng.randint(1, 3)):
        e = base if rng.random() < 0.7 else gen_entry(rng)
        faults = []
        if rng.random() < 0.85:
            for _ in range(rng.choice([1, 1, 1, 2])):
                k = rng.choice(["crash", "crash", "crash after", "eio", "enospc", "short"])
                at = rng.randint(1, rng.choice([4, 12, 30]))
                if k == "enospc" and rng.random() < 0.5:
                    at = -at  # from then on
                faults.append([at, k, rng.choice([0.0, 0.3, 0.7, 1.0])])
        sessions.append(dict(
            entry=e, clear=rng.random() < 0.25, iterations=rng.choice([1, 2]), faults=faults,
            capacity=rng.choice([0, 100, 600, 2000]) if rng.random() < 0.1 else None,
            storage=rng.choice(["dense", "csc", "auto"]) if s == 0 or rng.random() < 0.2 else sessions[0]["storage"],
            analyze=rng.choice([None, None, [], [[rng.randint(1, 5), rng.choice(["crash", "crash after", "eio", "enospc"]), rng.choice([0.0, 0.5])]]]),
        ))
    return dict(names=None, sessions=sessions, clock=rng.choice(clock.KINDS), compare=rng.random() < 0.5, seed=rng.randrange(2**31))


def quietly(fn):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn()


def config(s, root, **k):
    return BenchmarkConfig(
        script_dir=Path(root) / "bench", run_name="run", clear_output=s["clear"], iterations=s["iterations"], num_threads=1,
        storage={x: s["storage"] for x in ("glum",)}, param_grid=[s["entry"]], timeout=100, **k,
    )


CLEAN = {}


def clean(combo, cfg):
    """What this benchmark yields when nothing fails."""
    key = (combo, cfg.storage.get(combo[1], "dense"))
    if key not in CLEAN:
        np.random.seed(1)
        CLEAN[key] = quietly(lambda: rb.run_single_benchmark(*combo, cfg))
    return CLEAN[key]


def same_result(a, b):
    if not isinstance(a, dict) or set(a) != set(b):
        return False
    for k in a:
        if k in ("runtime",):
            continue
        x, y = a[k], b[k]
        if isinstance(y, np.ndarray) or isinstance(y, float):
            if x is None or np.shape(x) != np.shape(y) or not np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-6, atol=1e-9, equal_nan=True):
                return False
        elif x != y:
            return False
    return True


def combos(cfg):
    return quietly(lambda: rb.get_benchmark_combinations(cfg))


def result_name(combo, cfg):
    _, params = clean(combo, cfg)
    return params.get_result_fname() + ".pkl"


def inspect(cfg, expected, detail):
    """Every file under a result's name is complete; returns the names found."""
    found = set()
    for name, (res, _) in expected.items():
        p = cfg.pickle_dir / name
        if not p.exists():
            continue
        try:
            with open(p, "rb") as f:
                got = pickle.load(f)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"an incomplete result file is left behind: {type(e).__name__}", key="torn result", file=name, size=p.stat().st_size, **detail)
        if not same_result(got, res):
            raise Violation("a result file does not hold the result of its benchmark", key="wrong result", file=name, got=repr(got)[:300], want=repr(res)[:300], **detail)
        found.add(name)
    return found


def collect(cfg, expected, found, detail, seed, st):
    """The analysis of what is there, without faults."""
    with disk.Disk(cfg.script_dir, st, seed=seed):
        try:
            df = quietly(lambda: rb.analyze_results(cfg))
        except Exception as e:  # noqa: BLE001
            raise Violation(f"the stored results cannot be collected: {type(e).__name__}: {str(e)[:150]}", key="collecting fails", files=sorted(os.listdir(cfg.pickle_dir)) if cfg.pickle_dir.exists() else None, **detail)
    want = []
    for name in found:
        res, p = expected[name]
        if res.get("coef") is None and not res.get("timed_out"):
            continue
        want.append((p.problem_name, p.library_name, float(p.alpha), float(p.k_over_n_ratio), p.storage, int(p.threads), int(res["num_rows"]), float(np.sum(np.abs(res["coef"])))))
    got = []
    for r in df.to_dict("records"):
        got.append((r["problem_name"], r["library_name"], float(r["alpha"]), float(r["k_over_n_ratio"]), r["storage"], int(r["threads"]), int(r["num_rows"]), float(r["l1"])))
        if r["runtime"] < 0:
            raise Violation("a negative runtime was stored", key="negative runtime", **detail)
    same = len(got) == len(want) and all(a[:-1] == b[:-1] and abs(a[-1] - b[-1]) < 1e-6 * (1 + abs(b[-1])) for a, b in zip(sorted(got), sorted(want)))
    if not same:
        raise Violation("the collected table does not list the stored results", key="collected table", got=sorted(got), want=sorted(want), **detail)
    # how far a result is from the best of its own benchmark, whatever else is stored
    best = {}
    rows = df.to_dict("records")
    for r in rows:
        k = (r["problem_name"], r["num_rows"], r["k_over_n_ratio"], r["alpha"])
        best[k] = min(best.get(k, r["obj_val"]), r["obj_val"])
    for r in rows:
        k = (r["problem_name"], r["num_rows"], r["k_over_n_ratio"], r["alpha"])
        if not abs(r["obj_gap"] - (r["obj_val"] - best[k])) <= 1e-9 * (1 + abs(best[k])):
            raise Violation(f"the gap {r['obj_gap']} of {r['library_name']} is not that to the best objective of its benchmark {k}", key="gap", **detail)
    return df


def session(plan, s, root, st, alive, expected, table):
    cfg = config(s, root)
    todo = {}
    for c in combos(cfg):
        res, p = clean(c, cfg)
        todo[result_name(c, cfg)] = (res, p)
    if len(todo) != len(combos(cfg)):
        raise Violation("two different benchmarks share a result file", key="shared name", combos=[list(map(str, c)) for c in combos(cfg)])
    expected.update(todo)
    d = disk.Disk(cfg.script_dir, st, s["faults"], s["capacity"], plan["seed"])
    clk = clock.Clock(plan["clock"], plan["seed"], st)
    np.random.seed(1)
    crashed, err = False, None
    with d, clk:
        try:
            quietly(lambda: rb.run_all_benchmarks(cfg))
        except disk.Crash:
            crashed = True
        except OSError as e:
            err = e
        gc.collect()  # buffers of the dead process are lost, not written later
        gc.collect()
    st.steps += d.n
    detail = dict(ops=d.log[:60], fired=d.fired, crashed=crashed, error=str(err))
    if err is not None and not d.fired and s["capacity"] is None:
        raise Violation(f"the benchmarks failed without a fault: {err}", key="clean failure", **detail)
    found = inspect(cfg, expected, detail)
    if not s["clear"]:
        lost = alive - found
        if lost:
            raise Violation("a result stored earlier is gone", key="lost result", lost=sorted(lost), **detail)
    harmless = all(k == "short" for _, k in d.fired)
    if not crashed and harmless and s["capacity"] is None:
        missing = set(todo) - found
        if missing:
            raise Violation("a finished benchmark's result is missing", key="missing result", missing=sorted(missing), **detail)
    elif not crashed and err is None and s["capacity"] is None and all(f[0] > 0 for f in s["faults"]):
        # each fault strikes one operation, hence at most one result each
        missing = set(todo) - found
        if len(missing) > len(d.fired):
            raise Violation("a failure to store one result lost others", key="missing results", missing=sorted(missing), **detail)
    st.state(sorted(todo), d.log, d.fired, sorted(found), crashed)
    if d.fired:
        st.nontrivial = True
        for w, k in d.fired:
            st.count(f"{k} at {w}")
    if not cfg.script_dir.exists():
        return found
    df = collect(cfg, expected, found, detail, plan["seed"], st)
    if s["analyze"] is not None and len(df):
        before = cfg.csv_file.read_bytes()
        # collecting with faults: the table is the old or the new one
        # (identical here, as nothing changed)
        with disk.Disk(cfg.script_dir, st, s["analyze"], None, plan["seed"]) as d2:
            try:
                quietly(lambda: rb.analyze_results(cfg))
            except (disk.Crash, OSError):
                pass
            gc.collect()
            gc.collect()
        for w, k in d2.fired:
            st.nontrivial = True
            st.count(f"{k} at {w} of the table")
        now = cfg.csv_file.read_bytes() if cfg.csv_file.exists() else None
        if now is None or sorted(now.splitlines()) != sorted(before.splitlines()):
            raise Violation("the table of results is neither the old nor the new one", key="torn table", ops=d2.log, fired=d2.fired)
    case = ["problem_name", "library_name", "num_rows", "k_over_n_ratio", "alpha"]
    if plan["compare"] and len(df) and not df.duplicated(case).any():
        compare(cfg, df, st)
    return found


def compare(cfg, df, st):
    """A table compared with itself shows no regression; slower by more than both
    thresholds shows one per slower case."""
    yaml = cfg.script_dir / "cfg.yaml"
    yaml.write_text("max_rel_slowdown: 0.15\nmax_abs_slowdown_sec: 0.05\nmax_regressed_cases: 0\n")
    slow = df.copy()
    slow["runtime"] = df["runtime"] * 1.5 + 1.0
    for name, d in (("base", df), ("slow", slow)):
        d.to_csv(cfg.script_dir / f"{name}.csv", index=False)

    def run(a, b):
        out = cfg.script_dir / "sum.md"
        argv = sys.argv
        sys.argv = ["x", "--base", str(cfg.script_dir / f"{a}.csv"), "--head", str(cfg.script_dir / f"{b}.csv"), "--config", str(yaml), "--summary-out", str(out)]
        try:
            rc = quietly(cr.main)
        finally:
            sys.argv = argv
        return rc, out.read_text()

    # distinct times, so that a mix-up of cases shows
    base = df.copy()
    base["runtime"] = [1.0 + 3.0 * k for k in range(len(df))]
    base.to_csv(cfg.script_dir / "base.csv", index=False)
    slow["runtime"] = base["runtime"] * 1.5
    slow.to_csv(cfg.script_dir / "slow.csv", index=False)
    rc, text = run("base", "base")
    if rc != 0 or "Detected regressed cases: 0" not in text:
        raise Violation("a stored run compared with itself shows regressions", key="self comparison", summary=text)
    rc, text = run("base", "slow")
    if rc != 1 or f"Detected regressed cases: {len(df)}\n" not in text:
        raise Violation("comparing with a slower run does not show each case as regressed", key="comparison", summary=text, cases=len(df))
    st.count("comparisons")


def names(plan, st):
    """Parameters are recovered from the file name; no two share one."""
    rng = np.random.default_rng(plan["names"])
    libs = ["glum", "sklearn", "h2o", "skglm", "celer", "zeros", "glmnet", "pygam"]
    problems = sorted(rb.get_all_problems())
    seen = {}

    def num():
        k = rng.integers(5)
        if k == 0:
            return float(rng.choice([0.001, 0.01, 0.1, 1e-05, 1e-4, 0.0, 1.0, 100.0]))
        if k == 1:
            return float(rng.random())
        if k == 2:
            return float(10.0 ** rng.integers(-12, 20))
        if k == 3:
            return float(np.nextafter(0.1, rng.random()))
        return float(rng.lognormal(0, 8))

    for _ in range(150):
        v = dict(
            problem_name=str(rng.choice(problems)),
            library_name=str(rng.choice(libs)),
            num_rows=[None, 1000, int(rng.integers(1, 10**7))][rng.integers(3)],
            k_over_n_ratio=[None, num()][rng.integers(2)],
            storage=str(rng.choice(["auto", "dense", "cat", "csr", "csc", "split0.1", "split1e-05"])),
            threads=[None, int(rng.integers(1, 256))][rng.integers(2)],
            alpha=[None, num()][rng.integers(2)],
            hessian_approx=[None, num()][rng.integers(2)],
            diagnostics_level=[None, "basic", "full", "none"][rng.integers(4)],
        )
        p = util.BenchmarkParams(**v)
        name = p.get_result_fname()
        if "/" in name or "\0" in name or len(os.fsencode(name + ".pkl")) > 255:
            raise Violation("parameters yield something that is no file name", key="no file name", name=name)
        try:
            back = vars(util.get_params_from_fname(name + ".pkl"))
        except Exception as e:  # noqa: BLE001
            raise Violation(f"the parameters cannot be recovered from the file name: {e}", key="unreadable name", name=name)
        if {k: back.get(k) for k in v} != v or any(type(back[k]) is not type(v[k]) for k in v):
            raise Violation("other parameters are recovered from the file name", key="other parameters", name=name, got=back, want=v)
        old = seen.setdefault(name, v)
        if old != v:
            raise Violation("different parameters share a file", key="shared name", name=name, a=old, b=v)
        if rng.random() < 0.5:  # neighbours: one field changed
            w = dict(v)
            w["alpha"] = num()
            if w != v and util.BenchmarkParams(**w).get_result_fname() == name:
                raise Violation("different parameters share a file", key="shared name", name=name, a=v, b=w)
    st.count("names", 150)
    st.steps += 150
    st.nontrivial = True
    st.state("names", plan["names"])


def execute(plan, st):
    if plan["names"] is not None:
        return names(plan, st)
    root = tempfile.mkdtemp(prefix="vsim-c17-")
    try:
        alive, expected = set(), {}
        for s in plan["sessions"]:
            alive = session(plan, s, root, st, alive, expected, None)
        # faults have stopped: everything gets stored and collected
        last = {**plan["sessions"][-1], "faults": [], "capacity": None, "clear": False, "analyze": None}
        found = session(plan, last, root, st, alive, expected, None)
        st.count("results", len(found))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink(plan):
    if plan["names"] is not None:
        return
    for v in drop_items(plan["sessions"]):
        if v:
            yield {**plan, "sessions": v}
    for i, s in enumerate(plan["sessions"]):
        def put(**k):
            return {**plan, "sessions": plan["sessions"][:i] + [{**s, **k}] + plan["sessions"][i + 1 :]}

        for f in drop_items(s["faults"]):
            yield put(faults=f)
        e = s["entry"]
        for k in ("libraries", "regularizations", "alphas", "k_over_n_ratios"):
            if len(e[k]) > 1:
                yield put(entry={**e, k: e[k][:1]})
        if s["clear"]:
            yield put(clear=False)
        if s["capacity"] is not None:
            yield put(capacity=None)
        if s["analyze"] is not None:
            yield put(analyze=None)
    if plan["compare"]:
        yield {**plan, "compare": False}
    if plan["clock"] != "steady":
        yield {**plan, "clock": "steady"}
