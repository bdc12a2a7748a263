"""C12: clocks, progress output and diagnostics never influence results."""
import contextlib
import io
import logging
import sys
import warnings

import numpy as np

from .. import clock, obs, problems
from ..core import Vacuous, Violation, drop_items, must, shrink_spec
from . import common as C

PROP = "C12"
LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 80000}
LIVENESS = True
RULE = "distinct (family, link, solver, kind of fit, clock, verbosity, output stream, logging, warning filter, iterations) tuples"
REAL = C.ENV + ", tqdm, logging"
STUB = "time.time/perf_counter/monotonic (also as tqdm reads them) and the standard streams are the simulator's"
ASSUME = ["a verbose fit may fail with the error of an output stream that rejects what is written; it may not return anything else"]

STREAMS = ["buffer", "buffer", "buffer", "ascii", "none", "eio", "enospc", "closed", "short"]


class Stream(io.TextIOBase):
    """An output stream with faults."""

    def __init__(self, kind, k, st):
        self.kind, self.left, self.st, self.text = kind, k, st, []

    encoding = "utf-8"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, s):
        self.left -= 1
        if self.kind == "ascii":
            s.encode("ascii")
        elif self.left < 0:
            if self.kind == "eio":
                self.st.fault("write error EIO")
                raise OSError(5, "simulated input/output error")
            if self.kind == "enospc":
                self.st.fault("write error ENOSPC")
                raise OSError(28, "simulated: no space left on device")
            if self.kind == "closed":
                self.st.fault("stream closed")
                raise ValueError("I/O operation on closed file")
            if self.kind == "short":
                self.st.fault("short write")
                s = s[: len(s) // 2]
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.left < 0 and self.kind == "enospc":
            raise OSError(28, "simulated: no space left on device")


def make_stream(kind, k, st):
    if kind == "none":
        return None
    s = Stream(kind, k, st)
    if kind == "ascii":
        s = Stream(kind, 10**9, st)
        s.encoding = "ascii"
    return s


def generate(rng, i, tier):
    sp = C.draw_spec(rng, ("single", "single", "single", "path", "cv"), convex=rng.random() < 0.7)
    if rng.random() < 0.3:
        sp["max_iter"] = rng.choice([1, 2, 3])
    degenerate = rng.choice([None, None, None, None, "zero target", "constant target", "null start", "no penalty left", "zero column"])
    con = None
    if sp["kind"] == "single" and rng.random() < 0.15:
        con = rng.choice(["trust", "monotonic"])
        sp.update(l1_ratio=0.0, lower=None, upper=None, P1=None, f32=False, solver="auto", gradient_tol=1e-6)
        if sp["storage"].endswith("_cat"):
            sp["storage"], sp["levels"], sp["drop_first"] = "dense_c", [], False
    return dict(
        spec=sp,
        degenerate=degenerate,
        constrained=con,
        clock=rng.choice(clock.KINDS),
        verbose=rng.choice([0, 1, 1, 1, 2, 5]),
        out=rng.choice(STREAMS),
        err=rng.choice(STREAMS),
        k=rng.choice([0, 0, 1, 2, 7]),
        logging=rng.choice([None, None, "debug", "broken"]),
        filters=rng.choice(["record", "record", "error", "ignore"]),
        seed=rng.randrange(2**31),
    )


def prepared(plan):
    """The problem, bent so that unusual progress values come up."""
    sp = plan["spec"]
    pr = problems.Problem(sp)
    d = plan["degenerate"]
    over = {}
    f = sp["family"]
    if d in ("zero target", "constant target"):
        c = 0.0 if d == "zero target" and f in ("normal", "ghs") else 1.0 if f != "binomial" else 0.5
        pr.y = np.full(len(pr.y), c)
        if pr.offset is not None:
            pr.offset = np.zeros(len(pr.y))
    elif d == "null start":
        over["start_params"] = np.zeros(pr.k + int(sp["fit_intercept"]))
    elif d == "no penalty left" and sp["kind"] == "single":
        over["alpha"] = 1e4
    elif d == "zero column" and not sp["levels"] and not sp["formula_inter"]:
        pr.num[:, 0] = 0.0
        pr.D[:, 0] = 0.0
    if plan["constrained"] == "trust":
        over.update(A_ineq=np.eye(pr.k)[:1], b_ineq=np.full(1, 0.1), solver="trust-constr")
    elif plan["constrained"] == "monotonic":
        over.update(A_ineq=-np.eye(pr.k)[:1], b_ineq=np.zeros(1), solver="irls-ls-monotonic")
    return pr, over


class Broken(logging.Handler):
    def emit(self, record):
        record.getMessage()
        raise OSError(28, "simulated: no space left on device")

    def handleError(self, record):
        pass

    def handle(self, record):
        try:
            self.emit(record)
        except OSError:
            pass


@contextlib.contextmanager
def log_setup(kind, st):
    if kind is None:
        yield
        return
    lg = logging.getLogger("glum")
    old = lg.level, lg.propagate
    h = logging.NullHandler() if kind == "debug" else Broken()
    logging.disable(logging.NOTSET)
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    lg.addHandler(h)
    st.fault("logging " + kind)
    try:
        yield
    finally:
        lg.removeHandler(h)
        lg.setLevel(old[0])
        lg.propagate = old[1]
        logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def streams(out, err):
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


def filtered(kind, fn):
    """(outcome, message, [warnings]) under a warnings configuration."""
    with warnings.catch_warnings(record=kind == "record") as w:
        warnings.simplefilter({"record": "always", "error": "error", "ignore": "ignore"}[kind])
        try:
            fn()
        except Exception as e:  # noqa: BLE001
            return "raise", f"{type(e).__name__}: {e}"[:200], [], e
        ws = sorted({(x.category.__name__, str(x.message)) for x in w}) if w else []
    return "ok", "", ws, None


def check_diagnostics(pr, est, what):
    rows = getattr(est, "diagnostics_", None)
    if est._solver not in ("irls-ls", "irls-cd", "irls-ls-monotonic"):
        text = must("get_formatted_diagnostics", est.get_formatted_diagnostics)
        if not isinstance(text, str):
            raise Violation(f"{what}: diagnostics of solver {est._solver} are {type(text)}", key="diagnostics kind")
        return
    if not isinstance(rows, list) or len(rows) != est.n_iter_ + 1:
        raise Violation(f"{what}: {len(rows) if rows else rows} diagnostics rows for {est.n_iter_} iterations", key="diagnostics rows")
    if [r["n_iter"] for r in rows] != list(range(est.n_iter_ + 1)):
        raise Violation(f"{what}: diagnostics number the iterations {[r['n_iter'] for r in rows]}", key="diagnostics numbers")
    cyc = [r["n_cycles"] for r in rows]
    if any(b < a for a, b in zip(cyc, cyc[1:])) or (rows and cyc[-1] != est._n_cycles):
        raise Violation(f"{what}: diagnostics count the cycles {cyc}, the fit made {est._n_cycles}", key="diagnostics cycles")
    for full in (False, True):
        df = must("get_formatted_diagnostics", est.get_formatted_diagnostics, full_report=full)
        if len(df) != est.n_iter_ + 1:
            raise Violation(f"{what}: formatted diagnostics have {len(df)} rows for {est.n_iter_} iterations", key="formatted rows")
    # the last row describes the returned model
    if pr.spec["kind"] != "cv" and np.ndim(est.coef_) == 1:
        c = np.asarray(est.coef_, float)
        if pr.spec["fit_intercept"]:
            m, sd = pr.moments()
            if est._center_predictors:
                first = float(est.intercept_) + m @ c
                scale = 1 + abs(float(est.intercept_)) + np.abs(m) @ np.abs(c)
                tol = (1e-3 if pr.spec["f32"] else 1e-7) * scale
                if not abs(first - float(rows[-1]["first_coef"])) <= tol:
                    raise Violation(f"{what}: the last diagnostics row has intercept {rows[-1]['first_coef']!r}, the model {first!r}", key="diagnostics intercept")


def execute(plan, st):
    sp = plan["spec"]
    pr, over = prepared(plan)
    fk = plan["filters"]

    a = pr.estimator(**over)
    ra = filtered(fk, lambda: C.silent(C.fit, a, pr))
    out = make_stream(plan["out"], plan["k"], st)
    err = make_stream(plan["err"], plan["k"], st)
    b = pr.estimator(**over, verbose=plan["verbose"])
    ck = clock.Clock(plan["clock"], plan["seed"], st)

    def run():
        with streams(out, err), log_setup(plan["logging"], st), ck:
            C.fit(b, pr)

    rb = filtered(fk, run)
    st.fault("clock " + plan["clock"])
    st.count("verbose" if plan["verbose"] else "silent")
    st.steps += ck.reads
    st.state(sp["family"], pr.link, sp["solver"], sp["kind"], plan["clock"], plan["verbose"], plan["out"], plan["err"], plan["logging"], fk, getattr(a, "n_iter_", None))
    rejecting = plan["verbose"] > 0 and {plan["out"], plan["err"]} & {"eio", "enospc", "closed", "ascii", "none"}
    what = f"verbose={plan['verbose']}, clock {plan['clock']}, streams {plan['out']}/{plan['err']}, logging {plan['logging']}, warnings {fk}"
    if rb[0] == "raise":
        if rejecting and isinstance(rb[3], (OSError, ValueError, AttributeError)) and ("NoneType" in rb[1] or "simulated" in rb[1] or "closed file" in rb[1] or "Unicode" in rb[1]):
            st.count("failed with the stream's error")
            # the estimator can be fitted once the stream works again
            b.set_params(verbose=0)
            rb = filtered(fk, lambda: C.silent(C.fit, b, pr))
            what = "fit after a fit that could not write"
        if rb[0] == "raise" and ra[0] == "ok":
            raise Violation(f"the fit fails with {what}: {rb[1]}", key="fails:" + rb[1].split(":")[0])
    if ra[0] != rb[0]:
        raise Violation(f"the fit succeeds with {what}, but not without: {ra[1]}", key="succeeds only when disturbed")
    if ra[0] == "raise":
        if ra[1].split(":")[0] != rb[1].split(":")[0]:
            raise Violation(f"with {what} the fit fails with {rb[1]} instead of {ra[1]}", key="other error")
        st.nontrivial = True
        return
    extra = [w for w in rb[2] if w not in ra[2]]
    missing = [w for w in ra[2] if w not in rb[2]]
    if extra or missing:
        raise Violation(f"with {what} the warnings differ: {extra[:2]} instead of {missing[:2]}", key="warnings differ")
    b.set_params(verbose=0)
    # with hardly any dispersion, the series of Tweedie's density takes minutes
    inf = not (plan["degenerate"] and sp["family"].startswith("tweedie"))
    ga, gb = C.ask(a, pr, inference=inf), C.ask(b, pr, inference=inf)
    obs.compare(gb, ga, f"fit with {what}")
    check_diagnostics(pr, b, what)
    rows = b.diagnostics_ if isinstance(getattr(b, "diagnostics_", None), list) else []
    if any(not np.isfinite(r["iteration_runtime"]) for r in rows):
        raise Violation("an iteration's run time is not finite", key="runtime")
    if plan["verbose"] and plan["err"] == "buffer" and rows and b.n_iter_ and sp["kind"] == "single":
        text = "".join(err.text)
        if "Iteration" not in text:
            raise Violation("a verbose fit reports no iteration", key="silent verbose")
    with streams(make_stream("buffer", 9, st), None), ck:
        must("report_diagnostics", b.report_diagnostics, full_report=bool(plan["k"]))
    st.nontrivial = True


def shrink(plan):
    for k, v in dict(degenerate=None, constrained=None, clock="steady", out="buffer", err="buffer", logging=None, filters="record", verbose=1, k=0, seed=1).items():
        if plan[k] != v:
            yield {**plan, k: v}
    for v in shrink_spec(plan["spec"]):
        yield {**plan, "spec": v}
