"""C16: the benchmark runner's timeout and timing."""
import contextlib
import io
import signal
import warnings

import numpy as np

from .. import alarm, boot, clock
from ..core import Violation, drop_items
from . import common as C

BENCH = True
import glum_benchmarks.run_benchmarks as rb  # noqa: E402
import glum_benchmarks.util as util  # noqa: E402
from glum_benchmarks.config import BenchmarkConfig  # noqa: E402

PROP = "C16"
LEVEL = "exploration"
LIVENESS = True
RUNS = {"quick": 3200, "thorough": 300000}
RULE = "distinct (workload, timeout, durations and outcomes, clock, places at which the alarm struck) tuples"
REAL = "glum_benchmarks' runtime(), execute_problem_library(), run_single_benchmark() and library drivers; glum and scikit-learn in the real-fit runs"
STUB = "SIGALRM, its timer and handler table (signal.signal, alarm, setitimer, ...) and every clock are the simulator's; the timed function is synthetic in most runs"
ASSUME = ["a signal is handled when a call returns or a new line starts, as CPython does", "if the alarm strikes after the timed function returned and before the timer is switched off, the run may count or not"]

EPS = 2e-5
MODS = None


def modules():
    global MODS
    if MODS is None:
        import glum_benchmarks.libraries.bench_glum as a
        import glum_benchmarks.libraries.bench_zeros as z

        MODS = [util, rb, a, z]
        with contextlib.suppress(ImportError):
            import glum_benchmarks.libraries.bench_sklearn as s

            MODS.append(s)
    return MODS


def generate(rng, i, tier):
    real = rng.random() < 0.04
    it = rng.randint(1, 5)
    timeout = rng.choice([1, 1, 2, 3, 5, 100, 0.5, 1.5, 2.75, None])
    T = timeout or 3
    runs = []
    for _ in range(it):
        total = rng.choice([0.1 * T, 0.3 * T, 0.45 * T, 0.6 * T, 0.9 * T, 0.9999 * T, T, 1.0001 * T, 1.2 * T, 4 * T]) * rng.uniform(0.9, 1.1)
        runs.append([round(total, 5), rng.randint(1, 6), rng.choice(["ok"] * 12 + ["ValueError", "TimeoutError", "KeyboardInterrupt"])])
    stalls = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        stalls.append([rng.randint(1, 14 * it if not real else 600), round(rng.choice([0.2, 0.9, 1.0, 1.3, 4]) * T, 5)])
    return dict(
        real=real and dict(
            problem=rng.choice(["simulated-glm-no-weights-%s-%s" % (r, d) for r in ("l2", "net", "lasso") for d in ("gaussian", "poisson", "binomial", "gamma")]),
            library=rng.choice(["glum", "glum", "sklearn", "zeros"]),
            rows=rng.choice([40, 60]),
            storage=rng.choice(["dense", "auto", "csr", "csc"]),
            alpha=rng.choice([0.001, 0.1]),
            tick=rng.choice([1e-6, 1e-3, 2e-2, 0.2]),
        ),
        iterations=it,
        timeout=timeout,
        runs=runs,
        stalls=stalls,
        clock=rng.choice(clock.KINDS),
        handler=rng.choice(["default", "ignore", "python"]),
        seed=rng.randrange(2**31),
    )


class Wall(clock.Clock):
    """Readings of the monotonic clock advance by (next to) nothing."""

    def _step(self):
        w, _ = super()._step()
        return (w if self.kind not in ("frozen",) else 0.0), 0.0


def handler_of(kind):
    if kind == "python":
        return lambda s, f: None
    return signal.SIG_DFL if kind == "default" else signal.SIG_IGN


def aftermath(sim, first):
    if sim.due is not None:
        raise Violation("an alarm is still pending after the benchmark returned", key="alarm pending", points=sim.where)
    if sim.handler is not first:
        raise Violation("the signal handler in place before the benchmark was not restored", key="handler not restored", points=sim.where)
    if sim.unhandled:
        raise Violation("the alarm went off while no handler was in place", key="alarm without handler", points=sim.where)


def synthetic(plan, st):
    clk = Wall(plan["clock"], plan["seed"], st)
    first = handler_of(plan["handler"])
    sim = alarm.Alarm(clk, [util.__file__], {a: b for a, b in plan["stalls"]}, st, modules(), handler=first)
    T, it = plan["timeout"], plan["iterations"]
    ex = []  # executions of f
    inside = [None]

    def on_deliver(arming, where):
        arming.append(inside[0])
        if inside[0] is not None:
            inside[0]["cut"] = True
            inside[0]["cut_at"] = clk.mono

    sim.on_deliver = on_deliver

    def f(*a, **k):
        j = len(ex)
        e = dict(j=j, start=clk.mono, end=None, cut=False, arming=len(sim.armings) - 1, args=(a, k))
        ex.append(e)
        total, steps, outcome = plan["runs"][j] if j < len(plan["runs"]) else [0.1, 1, "ok"]
        inside[0] = e
        try:
            for _ in range(steps):
                clk.advance(total / steps)
                sim.point("benchmarked function")
            if outcome != "ok":
                e["raised"] = outcome
                raise {"ValueError": ValueError, "TimeoutError": TimeoutError, "KeyboardInterrupt": KeyboardInterrupt}[outcome]("from the benchmarked function")
        finally:
            inside[0] = None
        e["end"] = clk.mono
        return ("result", j)

    outcome = val = None
    with sim:
        try:
            val = sim.run(lambda: util.runtime(f, it, 7, timeout=T, key="word"))
            outcome = "ok"
        except (TimeoutError, ValueError, KeyboardInterrupt) as e:
            outcome = type(e).__name__
            val = str(e)
    end = clk.mono
    st.steps += sim.points
    st.nontrivial = bool(sim.where) or bool(plan["stalls"]) or plan["clock"] not in ("steady",)
    st.state(it, T, [(round(e["start"], 3), e["end"] is not None, e["cut"]) for e in ex], plan["clock"], sim.where, outcome)
    for w in sim.where:
        st.count("alarm in " + w)
    detail = dict(where=sim.where, executions=[{k: v for k, v in e.items() if k != "args"} for e in ex], outcome=outcome, value=repr(val)[:200], armings=[a[:3] for a in sim.armings])

    def bad(msg, key):
        raise Violation(msg, key=key, **detail)

    aftermath(sim, first)
    for e in ex:
        if e["args"] != ((7,), {"key": "word"}):
            bad("the benchmarked function received other arguments than those passed", "arguments")
    # the timer does what was asked
    for a in sim.armings:
        if T is None:
            bad("an alarm was set although no timeout was asked for", "alarm without timeout")
        if a[2] is not None and a[2] - a[0] < T - EPS and len(a) > 3 and a[3] is not None:
            bad(f"a run was cut off after {a[2] - a[0]:.3f} s although {T} s were allowed", "cut off early")
    for e in ex:
        if T is not None and e["end"] is not None and e["end"] - e["start"] > T + EPS and not e["cut"]:
            bad(f"a run of {e['end'] - e['start']:.3f} s was not cut off at {T} s", "not cut off")
    # what counts
    done, maybe = [], []
    for e in ex:
        if e["end"] is None:
            continue
        struck = T is not None and e["arming"] >= 0 and len(sim.armings[e["arming"]]) > 3
        (maybe if struck else done).append(e)
    foreign = [e.get("raised") for e in ex if e.get("raised")]
    hard = [r for r in foreign if r != "TimeoutError"]
    if outcome in ("ValueError", "KeyboardInterrupt"):
        if outcome not in hard:
            bad(f"{outcome} out of nowhere", "invented exception")
        return
    if hard:
        # the run that failed may also have been cut off at that very moment
        e = next(e for e in ex if e.get("raised") in ("ValueError", "KeyboardInterrupt"))
        if not (T is not None and len(sim.armings[e["arming"]]) > 3):
            bad(f"the benchmarked function's {hard[0]} was swallowed", "swallowed exception")
    spent = len(ex) + sum(1 for k, a in enumerate(sim.armings) if len(a) > 3 and not any(e["arming"] == k for e in ex))
    if spent != it:
        bad(f"{it} iterations were asked for, {spent} took place", "number of iterations")
    if outcome == "TimeoutError":
        if done:
            bad("TimeoutError although an iteration finished in time", "finished run lost")
        return
    if not done and not maybe:
        bad("a result although no iteration finished", "result of an unfinished run")
    rt, out = val
    if not (isinstance(out, tuple) and out[:1] == ("result",)):
        bad("the output is not one of the benchmarked function's", "foreign output")
    j = out[1]
    byj = {e["j"]: e for e in done + maybe}
    if j not in byj:
        bad("the output is that of an iteration that did not finish", "result of an unfinished run")
    e = byj[j]
    if rt < 0:
        bad(f"negative runtime {rt}", "negative runtime")
    prev = max([x["end"] or x.get("cut_at") or x["start"] for x in ex if x["j"] < j], default=1000.0)
    nxt = min([x["start"] for x in ex if x["j"] > j], default=end)
    if not e["end"] - e["start"] - EPS <= rt <= nxt - prev + EPS:
        bad(f"the run returned took {e['end'] - e['start']:.6f} s, {rt:.6f} s are reported", "wrong runtime")
    # warm-up and median, if nothing disturbed the measurement
    if not plan["stalls"] and not maybe and len(done) > 1:
        rest = sorted(x["end"] - x["start"] for x in done[1:])
        if j == done[0]["j"]:
            bad("the warm-up run was reported", "warm-up reported")
        k = len(rest)
        med = rest[k // 2] if k % 2 else (rest[k // 2 - 1] + rest[k // 2]) / 2
        best = min(abs(x - med) for x in rest)
        if abs(e["end"] - e["start"] - med) > best + 10 * EPS:
            bad("the run reported is not the closest to the median", "not the median")


def config(plan, st):
    return BenchmarkConfig(iterations=plan["iterations"], timeout=max(1, int(plan["timeout"] or 1)), num_threads=1, storage={plan["real"]["library"]: plan["real"]["storage"]})


def real(plan, st):
    r = plan["real"]
    cfg = config(plan, st)
    args = (r["problem"], r["library"], r["alpha"], r["rows"], 0.1, cfg)

    def once(tick, stalls, kind):
        clk = Wall(kind, plan["seed"], st)
        first = handler_of(plan["handler"])
        sim = alarm.Alarm(clk, [util.__file__, boot.GLUM_DIR], stalls, st, modules(), tick=tick, handler=first)
        np.random.seed(plan["seed"] % 2**31)  # scikit-learn draws from the global generator
        with sim, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                out = ("ok", sim.run(lambda: rb.run_single_benchmark(*args)))
            except Exception as e:  # noqa: BLE001
                out = ("raise", f"{type(e).__name__}: {e}")
        aftermath(sim, first)
        return out, sim

    ref, _ = once(1e-9, {}, "steady")
    if ref[0] != "ok":
        raise Violation(f"the benchmark failed without any fault: {ref[1]}", key="clean benchmark failed")
    got, sim = once(r["tick"], {a: b for a, b in plan["stalls"]}, plan["clock"])
    again, _ = once(1e-9, {}, "steady")
    st.steps += sim.points
    st.nontrivial = bool(sim.where)
    st.state("real", r["library"], r["problem"], sim.where, plan["clock"])
    for w in sim.where:
        st.count("alarm in " + w)
    for what, o in (("after alarms", got), ("in a later benchmark", again)):
        if o[0] != "ok":
            raise Violation(f"the benchmark failed {what}: {o[1]}", key="benchmark failed", where=sim.where)
        res, params = o[1]
        want, wp = ref[1]
        if vars(params) != vars(wp):
            raise Violation(f"the benchmark's parameters differ {what}", key="parameters", got=vars(params), want=vars(wp))
        if res.get("timed_out"):
            if not sim.where or o is again:
                raise Violation("timed out although no alarm went off", key="timed out without alarm")
            if res.get("runtime") != cfg.timeout or res.get("coef") is not None:
                raise Violation("a timed-out benchmark reports something else than its timeout", key="timed-out result", got=repr(res)[:300])
            continue
        if set(res) != set(want):
            raise Violation(f"the benchmark's result has other entries {what}", key="entries", got=sorted(res), want=sorted(want))
        # a cut iteration leaves saga's global random stream elsewhere
        drawn = r["library"] == "sklearn" and "binomial" in r["problem"] and bool(sim.where) and o is got
        if want.get("coef") is not None and not drawn and not np.array_equal(np.asarray(res["coef"]), np.asarray(want["coef"])):
            raise Violation(f"the benchmark's coefficients differ {what}", key="coefficients", where=sim.where)
        if "runtime" in res and res["runtime"] < 0:
            raise Violation("negative runtime", key="negative runtime")


def execute(plan, st):
    if plan["real"]:
        real(plan, st)
    else:
        synthetic(plan, st)


def shrink(plan):
    for v in drop_items(plan["stalls"]):
        yield {**plan, "stalls": v}
    if plan["iterations"] > 1:
        yield {**plan, "iterations": plan["iterations"] - 1, "runs": plan["runs"][1:]}
        yield {**plan, "iterations": plan["iterations"] - 1, "runs": plan["runs"][:-1]}
    for i, (t, s, o) in enumerate(plan["runs"]):
        if o != "ok":
            yield {**plan, "runs": plan["runs"][:i] + [[t, s, "ok"]] + plan["runs"][i + 1 :]}
        if s > 1:
            yield {**plan, "runs": plan["runs"][:i] + [[t, 1, o]] + plan["runs"][i + 1 :]}
    if plan["clock"] != "steady":
        yield {**plan, "clock": "steady"}
    if plan["handler"] != "default":
        yield {**plan, "handler": "default"}
