"""Run a property: seeded search, minimisation, replay, evidence.

    python -m vsim.driver <ID> quick|thorough
    python -m vsim.driver replay <file>
    python -m vsim.driver digest <ID> <tier> <first> <count>

A run is the execution of one plan; the plan is a JSON value drawn from
(VERIF_SEED, property, run index) and nothing else.  Runs are grouped into fixed
batches; every batch is executed in its own forked process, whatever the number
of workers, so a batch's outcome depends only on the seed.
"""
import gc
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot
from .core import RunStats, Vacuous, Violation, h64, plan_key, rng_for

VERIF = boot.VERIF
EVID = VERIF / "evidence"
REPLAYS = VERIF / "replays"
KNOWN = VERIF / "known_findings.jsonl"
BATCH = 8
RUN_TIMEOUT = 120.0


def load(prop):
    """Boot glum as the property needs it and import the property module."""
    src = (VERIF / "vsim" / "props" / f"{prop.lower()}.py").read_text()
    variant = "omp" if 'VARIANT = "omp"' in src else "plain"
    bench = "BENCH = True" in src
    boot.boot(variant, bench=bench)
    if "zygote" in src:
        from . import zygote

        zygote.start()
    mod = importlib.import_module(f"vsim.props.{prop.lower()}")
    # collections during runs need not look at the libraries again
    gc.collect()
    gc.freeze()
    return mod


def make_plan(mod, seed, i, tier):
    return mod.generate(rng_for("plan", seed, mod.PROP, i), i, tier)


def run_one(mod, plan):
    """-> dict(outcome=ok|vacuous|violation|error, ...)"""
    st = RunStats()
    try:
        mod.execute(plan, st)
        out = {"outcome": "ok"}
    except Vacuous as e:
        out = {"outcome": "vacuous", "why": str(e)[:200]}
    except Violation as e:
        out = {"outcome": "violation", "message": e.message, "key": e.key, "detail": e.detail}
    except Exception as e:  # noqa: BLE001 - the harness' own failure
        out = {"outcome": "error", "message": f"{type(e).__name__}: {e}"[:400], "tb": traceback.format_exc()[-2500:]}
    out["stats"] = st.as_dict()
    return out


def _child(fd, mod, plans):
    """Forked: run plans in order, one JSON line each."""
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("VSIM_DEBUG"):
            os.dup2(dn, 2)
        for tag, plan in plans:
            os.write(fd, (json.dumps({"start": tag}) + "\n").encode())
            res = run_one(mod, plan)
            res["tag"] = tag
            data = (json.dumps(res, default=str) + "\n").encode()
            while data:
                k = os.write(fd, data)
                data = data[k:]
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
    finally:
        os._exit(0)


class Pool:
    """Runs batches in forked children, at most `width` at a time."""

    def __init__(self, mod, width):
        self.mod, self.width = mod, width
        self.live = {}

    def start(self, batch_id, plans, timeout=RUN_TIMEOUT):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(w, self.mod, plans)
        os.close(w)
        self.live[r] = dict(pid=pid, id=batch_id, buf=b"", cur=None, t=time.monotonic(), out=[], timeout=timeout)

    def step(self, wait=1.0):
        """Return finished batches as (id, results)."""
        done = []
        if not self.live:
            return done
        ready, _, _ = select.select(list(self.live), [], [], wait)
        now = time.monotonic()
        for r in list(self.live):
            b = self.live[r]
            eof = False
            if r in ready:
                data = os.read(r, 1 << 20)
                if not data:
                    eof = True
                b["buf"] += data
                while b"\n" in b["buf"]:
                    line, b["buf"] = b["buf"].split(b"\n", 1)
                    m = json.loads(line)
                    b["t"] = now
                    if "start" in m:
                        b["cur"] = m["start"]
                    else:
                        b["out"].append(m)
                        b["cur"] = None
            if not eof and now - b["t"] > b["timeout"]:
                os.kill(b["pid"], signal.SIGKILL)
                b["hang"] = True
                eof = True
            if eof:
                os.close(r)
                _, status = os.waitpid(b["pid"], 0)
                if b["cur"] is not None:
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    if b.get("hang"):
                        b["out"].append(dict(tag=b["cur"], outcome="hang", message=f"no result within {b['timeout']:.0f} s", key="hang", stats=RunStats().as_dict()))
                    else:
                        b["out"].append(dict(tag=b["cur"], outcome="died", message=f"the process died on signal {sig}", key=f"died:{sig}", stats=RunStats().as_dict()))
                del self.live[r]
                done.append((b["id"], b["out"]))
        return done

    def close(self):
        for r, b in self.live.items():
            try:
                os.kill(b["pid"], signal.SIGKILL)
                os.waitpid(b["pid"], 0)
            except OSError:
                pass
            os.close(r)
        self.live.clear()


def run_isolated(mod, plans, timeout=RUN_TIMEOUT):
    p = Pool(mod, 1)
    p.start(0, list(enumerate(plans)), timeout)
    while True:
        d = p.step()
        if d:
            return d[0][1]


BAD = ("violation", "died", "hang")


def is_bad(mod, res):
    if res["outcome"] == "hang":
        return getattr(mod, "LIVENESS", False)
    return res["outcome"] in BAD


def reproduces(mod, plans, key, timeout=60):
    out = run_isolated(mod, plans, timeout)
    last = out[-1] if out else None
    return last is not None and last["tag"] == len(plans) - 1 and is_bad(mod, last) and last["key"] == key and last


def minimise(mod, prefix, plan, key, budget):
    """Smallest (prefix, plan) found that still fails with the same key."""
    end = time.monotonic() + budget
    tried = 0
    if prefix:
        if reproduces(mod, [plan], key):
            prefix = []
        else:
            k = 1
            while k < len(prefix):
                if reproduces(mod, prefix[-k:] + [plan], key):
                    prefix = prefix[-k:]
                    break
                k *= 2
            i = 0
            while i < len(prefix) and time.monotonic() < end:
                cand = prefix[:i] + prefix[i + 1 :]
                if reproduces(mod, cand + [plan], key):
                    prefix = cand
                else:
                    i += 1
    seen = {plan_key(plan)}
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(plan):
            if time.monotonic() > end:
                break
            k = plan_key(cand)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            if reproduces(mod, prefix + [cand], key):
                plan = cand
                progress = True
                break
    return prefix, plan, tried


def known_findings(prop):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.strip():
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def fresh(args, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    return subprocess.run([sys.executable, "-m", "vsim.driver", *map(str, args)], cwd=VERIF, env=env, capture_output=True, text=True, timeout=400)


def batch_digest(out):
    return h64([(o["tag"], o["outcome"], o.get("key"), o.get("message"), json.dumps(o["stats"], sort_keys=True)) for o in out])


def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = load(prop)
    boot_s = time.monotonic() - t0
    n = mod.RUNS[tier]
    scale = float(os.environ.get("VSIM_SCALE", "1"))
    n = max(BATCH, int(n * scale))
    batch = getattr(mod, "BATCH", BATCH)
    cap = {"quick": 420.0, "thorough": 6 * 3600.0}[tier]
    cap = float(os.environ.get("VSIM_CAP", cap))
    width = int(os.environ.get("VSIM_WORKERS", os.cpu_count() or 8))
    known = known_findings(prop)
    pool = Pool(mod, width)
    nb = (n + batch - 1) // batch
    nxt = 0
    agg = dict(faults={}, cover={}, states=set(), steps=0, sim_time=0.0, nontrivial=0, ok=0, vacuous=0, errors=0, hangs=0, plans=set(), notes=[])
    errors, failures, digests, knownhits = [], [], {}, 0
    t1 = time.monotonic()
    stopped = False

    def plans_of(b):
        return [(i, make_plan(mod, seed, i, tier)) for i in range(b * batch, min(n, (b + 1) * batch))]

    while True:
        while nxt < nb and len(pool.live) < width and not failures and time.monotonic() - t0 < cap:
            pool.start(nxt, plans_of(nxt))
            nxt += 1
        if not pool.live:
            break
        for bid, out in pool.step():
            digests[bid] = batch_digest(out)
            for o in out:
                s = o["stats"]
                for k, v in s["faults"].items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + v
                for k, v in s["cover"].items():
                    agg["cover"][k] = agg["cover"].get(k, 0) + v
                agg["states"].update(s["states"])
                agg["steps"] += s["steps"]
                agg["sim_time"] += s["sim_time"]
                if s["nontrivial"]:
                    agg["nontrivial"] += 1
                if s["note"] and len(agg["notes"]) < 6:
                    agg["notes"].append(s["note"])
                if o["outcome"] == "ok":
                    agg["ok"] += 1
                elif o["outcome"] == "vacuous":
                    agg["vacuous"] += 1
                elif o["outcome"] == "error":
                    agg["errors"] += 1
                    errors.append((o["tag"], o["message"], o.get("tb")))
                elif o["outcome"] == "hang" and not is_bad(mod, o):
                    agg["hangs"] += 1
                    errors.append((o["tag"], o["message"], None))
                else:
                    if any(e.get("key") == o["key"] for e in known):
                        knownhits += 1
                    else:
                        failures.append((bid, o))
        if failures and not stopped:
            stopped = True
            nxt = nb
            # let the batches already running finish: the reported failure is the
            # one with the smallest run index among them
    pool.close()
    search_s = time.monotonic() - t1
    ran = agg["ok"] + agg["vacuous"] + agg["errors"] + len(failures) + knownhits + agg["hangs"]

    # aggregate conditions (liveness, effectiveness of the faults)
    if not failures and hasattr(mod, "aggregate"):
        try:
            mod.aggregate(agg, tier)
        except Violation as e:
            failures.append((None, dict(tag=-1, outcome="violation", key=e.key, message=e.message, detail=e.detail, stats=None)))

    # determinism: same seeds in a fresh process under another hash seed
    det = "skipped"
    if not failures and ran and os.environ.get("VSIM_NODET") is None:
        cnt = min(batch, n)
        try:
            r = fresh(["digest", prop, tier, 0, cnt], 4242)
            line = [x for x in r.stdout.splitlines() if x.startswith("DIGEST ")]
            if line and 0 in digests:
                det = "identical" if int(line[0].split()[1]) == digests[0] else "DIFFERENT"
            else:
                det = "no digest: " + r.stderr[-300:]
        except subprocess.TimeoutExpired:
            det = "timed out"

    violations = []
    replay_path = None
    if failures:
        failures.sort(key=lambda f: f[1]["tag"])
        bid, o = failures[0]
        REPLAYS.mkdir(exist_ok=True)
        if bid is None:
            rec = dict(property=prop, seed=seed, tier=tier, aggregate=True, runs=n, message=o["message"], key=o["key"])
        else:
            ps = plans_of(bid)
            idx = next(i for i, (t, _) in enumerate(ps) if t == o["tag"])
            prefix, plan = [p for _, p in ps[:idx]], ps[idx][1]
            orig = plan
            prefix2, plan2, tried = minimise(mod, prefix, plan, o["key"], float(os.environ.get("VSIM_MIN_S", "60")))
            last = reproduces(mod, prefix2 + [plan2], o["key"], 120) or o
            rec = dict(property=prop, seed=seed, tier=tier, run=o["tag"], key=o["key"], message=last["message"], detail=last.get("detail"), outcome=last["outcome"], prefix=prefix2, plan=plan2, original_plan=orig, original_prefix_len=len(prefix), candidates_tried=tried)
        path = REPLAYS / f"{prop}-{seed}-{o['tag']}.json"
        path.write_text(json.dumps(rec, indent=1, default=str))
        replay_path = str(path)
        conf = fresh(["replay", path], 99)
        confirmed = conf.returncode == 1
        violations.append(dict(run=o["tag"], key=o["key"], message=rec["message"], replay=replay_path, replay_reproduced_in_fresh_process=confirmed, others=sorted({f[1]["key"] for f in failures})[:10]))
        print(f"{prop}: {rec['message']}")
        if rec.get("detail"):
            print("  detail:", json.dumps(rec["detail"], default=str)[:1500])
        print(f"  seed {seed}, run {o['tag']}; replay in a fresh process {'reproduces it' if confirmed else 'DOES NOT reproduce it'}")

    hours = max(search_s, 1e-9) / 3600
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=dict(
            evaluations=ran,
            distinct_nontrivial=len(agg["states"]),
            rule=mod.RULE,
            samples=[json.loads(json.dumps(make_plan(mod, seed, i, tier))) for i in range(min(2, n))] + agg["notes"],
            simulated_runs=ran,
            runs_planned=n,
            nontrivial_runs=agg["nontrivial"],
            vacuous_runs=agg["vacuous"],
            harness_errors=agg["errors"] + agg["hangs"],
            runs_per_hour=round(ran / hours),
            seeds_per_hour=round(ran / hours),
            simulated_time=(f"{agg['sim_time']:.3f} simulated seconds" if agg["sim_time"] else f"{agg['steps']} scheduler steps (no clock in this property)"),
            scheduler_steps=agg["steps"],
            faults_injected=dict(sorted(agg["faults"].items())),
            distinct_interleavings_or_states=len(agg["states"]),
            state_measure=mod.RULE,
            counters=dict(sorted(agg["cover"].items())),
            real_components=mod.REAL,
            stub_components=mod.STUB,
            determinism_recheck=det,
            known_findings_hit=knownhits,
            build_and_import_s=round(boot_s, 2),
            search_s=round(search_s, 2),
        ),
        assumptions=getattr(mod, "ASSUME", []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(violations),
    )
    ev["coverage"]["violations_found"] = violations
    EVID.mkdir(exist_ok=True)
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for tag, msg, tb in errors[:5]:
        print(f"harness error in run {tag}: {msg}", file=sys.stderr)
        if tb:
            print(tb, file=sys.stderr)
    print(
        f"{prop} {tier}: {ran} runs ({agg['nontrivial']} non-trivial, {agg['vacuous']} vacuous, {agg['errors'] + agg['hangs']} harness errors), "
        f"{len(agg['states'])} distinct states, faults {agg['faults']}, determinism {det}, {time.monotonic() - t0:.1f} s"
    )
    if violations:
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if ran and agg["errors"] + agg["hangs"] > ran // 2:
        print("the harness failed in most runs: no answer", file=sys.stderr)
        return 2
    return 0


def replay(path):
    rec = json.loads(open(path).read())
    mod = load(rec["property"])
    if rec.get("aggregate"):
        os.environ["VERIF_SEED"] = str(rec["seed"])
        os.environ["VSIM_NODET"] = "1"
        return _replay_aggregate(mod, rec)
    last = reproduces(mod, rec["prefix"] + [rec["plan"]], rec["key"], 150)
    if last:
        print(last["message"])
        print(json.dumps(last.get("detail"), default=str)[:4000])
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    out = run_isolated(mod, rec["prefix"] + [rec["plan"]], 150)
    print("not reproduced; last outcome:", {k: v for k, v in (out[-1] if out else {}).items() if k != "stats"})
    return 0


def _replay_aggregate(mod, rec):
    agg = dict(faults={}, cover={})
    pool = Pool(mod, os.cpu_count() or 8)
    batch = getattr(mod, "BATCH", BATCH)
    n, nxt = rec["runs"], 0
    while True:
        while nxt < n and len(pool.live) < pool.width:
            pool.start(nxt, [(i, make_plan(mod, rec["seed"], i, rec["tier"])) for i in range(nxt, min(n, nxt + batch))])
            nxt += batch
        if not pool.live:
            break
        for _, out in pool.step():
            for o in out:
                for k in ("faults", "cover"):
                    for a, v in o["stats"][k].items():
                        agg[k][a] = agg[k].get(a, 0) + v
    try:
        mod.aggregate(agg, rec["tier"])
    except Violation as e:
        print(e.message)
        print(f"VIOLATION property={rec['property']} (aggregate)")
        return 1
    return 0


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "digest":
        prop, tier, first, cnt = argv[1], argv[2], int(argv[3]), int(argv[4])
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        mod = load(prop)
        pool = Pool(mod, 1)
        pool.start(0, [(i, make_plan(mod, seed, i, tier)) for i in range(first, first + cnt)])
        while True:
            d = pool.step()
            if d:
                print("DIGEST", batch_digest(d[0][1]))
                return 0
    if argv[0] == "one":
        prop, i = argv[1], int(argv[2])
        tier = argv[3] if len(argv) > 3 else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        mod = load(prop)
        plan = make_plan(mod, seed, i, tier)
        print(json.dumps(plan))
        print(json.dumps(run_one(mod, plan), indent=1, default=str).replace("\\n", "\n"))
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0].upper(), tier)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except boot._build.BuildError as e:
        print("build failed:", e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
