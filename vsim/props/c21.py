"""C21: documentation updates are complete or absent, exact, and repeatable."""
import gc
import os
import random
import shutil
import sys
import tempfile
import warnings
from contextlib import redirect_stdout
from io import StringIO
from pathlib import Path

from .. import disk
from ..core import Violation, drop_items

BENCH = True
import glum_benchmarks.run_benchmarks as rb  # noqa: E402
from glum_benchmarks.config import BenchmarkConfig  # noqa: E402

PROP = "C21"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 300000}
RULE = "distinct (figures, documents, settings, disk operations performed, faults that struck, parts updated) tuples"
REAL = "glum_benchmarks.run_benchmarks.update_docs and main, BenchmarkConfig and its YAML reader; a real scratch directory below the simulated disk"
STUB = "file operations below the scratch directory pass through a simulated disk (crashes, torn and short writes, EIO, ENOSPC, a full disk, order of directory listings); the step that runs the benchmarks does nothing; the figures are arbitrary bytes"
ASSUME = [
    "what reached the operating system before a crash of the process survives it (no power failures)",
    "documents are UTF-8 with Unix line ends, and figure names hold no backslash",
]

RS, RE = ".. BENCHMARK_FIGURES_START", ".. BENCHMARK_FIGURES_END"
MS, ME = "<!-- BENCHMARK_FIGURES_START -->", "<!-- BENCHMARK_FIGURES_END -->"
NAMES = [
    "wide-l2.png", "wide-l2_dark.png", "wide-l2-normalized.png", "wide-l2-normalized_dark.png", "housing-lasso.png", "housing-lasso_dark.png",
    "a.png", "a-normalized.png", "simulated-glm-p=1.5.png", "simulated-glm-p=1.5_dark.png", "Z.png",
]
ABSENT = ["gone.png", "wide-net.png"]
DOCS = ["benchmarks", "readme", "index"]
WORDS = ["Benchmarks", "", "=====", "glüm – schnell ✓", "   indented", ".. image:: _static/old.png", "<img src=\"x\">", "trailing  ", "\\1 \\g<0>", ".. BENCHMARK_FIGURES", "END", "<!-- a comment -->", "x" * 300]


# -- generation -------------------------------------------------------------
def gen_text(rng, doc):
    s, e = (MS, ME) if doc == "readme" else (RS, RE)

    def prose(n):
        return [rng.choice(WORDS) for _ in range(rng.randint(0, n))]

    out = prose(4)
    k = rng.choice([0, 1, 1, 1, 1, 2, 3])
    for _ in range(k):
        shape = rng.random()
        if shape < 0.8:
            out += [s] + prose(3) + [e] + prose(3)
        elif shape < 0.86:
            out += [s + rng.choice(["", " old "]) + e] + prose(2)
        elif shape < 0.9:
            out += [e] + prose(2) + [s] + prose(1)
        elif shape < 0.94:
            out += [s] + prose(2)
        elif shape < 0.97:
            out += [s] + prose(1) + [s] + prose(1) + [e]
        else:
            out += [e] + prose(1)
    text = "\n".join(out) + rng.choice(["", "\n", "\n\n"])
    if rng.random() < 0.05:
        text = text * 40  # larger than any buffer
    return text


def gen_settings(rng):
    docs = None
    if rng.random() < 0.7:
        docs = [[rng.choice(NAMES + ABSENT) for _ in range(rng.choice([0, 1, 1, 2, 4]))] for _ in range(rng.randint(0, 3))]
    readme = None
    if rng.random() < 0.6:
        readme = [rng.choice(NAMES + ABSENT) for _ in range(rng.choice([0, 1, 1, 2]))]
    return dict(docs=docs, readme=readme)


def generate(rng, i, tier):
    def figures():
        return {n: [rng.randrange(2**31), rng.choice([0, 1, 40, 900, 9000, 70000])] for n in rng.sample(NAMES, rng.choice([0, 1, 2, 4, 6, 9]))}

    texts = {d: (gen_text(rng, d) if rng.random() < 0.92 else None) for d in DOCS}
    sessions, settings = [], gen_settings(rng)
    for s in range(rng.randint(1, 3)):
        if s and rng.random() < 0.4:
            settings = gen_settings(rng)
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            k = rng.choice(["crash", "crash", "crash after", "eio", "enospc", "short"])
            at = rng.randint(1, rng.choice([6, 15, 40]))
            if k == "enospc" and rng.random() < 0.5:
                at = -at
            faults.append([at, k, rng.choice([0.0, 0.3, 0.7, 1.0])])
        sessions.append(dict(
            figures=figures() if s == 0 or rng.random() < 0.5 else None, **settings, faults=faults, main=rng.random() < 0.4,
            capacity=rng.choice([0, 100, 3000, 50000]) if rng.random() < 0.1 else None, edit=[rng.choice(DOCS), rng.randrange(2**31)] if s and rng.random() < 0.25 else None,
        ))
    kept = {n: [rng.randrange(2**31), 50] for n in rng.sample(NAMES + ABSENT, rng.choice([0, 0, 1, 3]))}
    return dict(texts=texts, sessions=sessions, static=kept if rng.random() < 0.8 else None, figure_dir=rng.random() < 0.95, seed=rng.randrange(2**31))


# -- the reference ----------------------------------------------------------
def spans(text, s, e):
    out, at = [], 0
    while True:
        i = text.find(s, at)
        if i < 0:
            return out
        j = text.find(e, i + len(s))
        if j < 0:
            return out
        at = j + len(e)
        out.append((i, at))


def put(text, where, what):
    out, at = "", 0
    for (i, j), w in zip(where, what):
        out += text[at:i] + w
        at = j
    return out + text[at:]


def rst(names, width):
    out = RS + "\n\n"
    for n in names:
        out += f".. image:: _static/{n}\n   :width: {width}\n\n"
    return out + RE


def model(figs, texts, s):
    """Documents after an undisturbed update, and the figures it copies."""
    docs = dict(texts)
    if not figs:
        return docs, set()
    groups = [[n for n in g if n in figs] for g in s["docs"]] if s["docs"] is not None else [sorted(figs)]
    if s["readme"] is not None:
        head = [n for n in s["readme"] if n in figs]
    else:
        head = [n for n in sorted(figs) if "normalized" not in n][:1]
    copied = {n for g in groups for n in g} | set(head)
    t = docs["benchmarks"]
    if any(groups) and t is not None:
        docs["benchmarks"] = put(t, spans(t, RS, RE), [rst(g, 700) for g in groups])
    if head:
        lines = [MS]
        for n in head:
            dark = n.replace(".png", "") + "_dark.png"
            if dark in figs:
                copied.add(dark)
            else:
                dark = n
            for x, mode in ((n, "light"), (dark, "dark")):
                lines.append(f'<img src="docs/_static/{x}#gh-{mode}-mode-only" alt="Benchmark results" width="600">')
        new = "\n".join(lines + [ME])
        t = docs["readme"]
        if t is not None:
            at = spans(t, MS, ME)
            docs["readme"] = put(t, at, [new] * len(at))
        t = docs["index"]
        if t is not None:
            at = spans(t, RS, RE)
            docs["index"] = put(t, at, [rst(head, 600)] * len(at))
    return docs, copied


# -- the world --------------------------------------------------------------
def content(f):
    return random.Random(f[0]).randbytes(f[1])


class World:
    def __init__(self, root):
        self.root = Path(root)
        self.bench, self.docs = self.root / "bench", self.root / "docs"
        self.static, self.figs = self.docs / "_static", self.bench / "results" / "run" / "figures"
        self.paths = dict(benchmarks=self.docs / "benchmarks.rst", readme=self.root / "README.md", index=self.docs / "index.rst")
        self.snapshot = self.bench / "results" / "run" / "config.yaml"

    def texts(self):
        return {d: (p.read_bytes() if p.exists() else None) for d, p in self.paths.items()}

    def dir(self, p):
        return {n: (p / n).read_bytes() for n in NAMES + ABSENT if (p / n).exists()}

    def rest(self):
        """Everything an update has no business with."""
        out = {}
        for p, _, fs in os.walk(self.root):
            for f in fs:
                q = Path(p) / f
                if q in self.paths.values() or q == self.snapshot or f.endswith(".tmp") or q.parent == self.static and (f in NAMES or f in ABSENT):
                    continue
                out[str(q.relative_to(self.root))] = q.read_bytes()
        return out


def as_yaml(s):
    def names(v):
        return "[" + ", ".join(f'"{n}"' for n in v) + "]"

    out = ["run_benchmarks: true", "analyze_results: false", "generate_plots: false", "update_docs: true", "run_name: run", "clear_output: false"]
    if s["docs"] is not None:
        out.append("docs_figures: [" + ", ".join(names(g) for g in s["docs"]) + "]")
    if s["readme"] is not None:
        out.append("readme_figures: " + names(s["readme"]))
    return "\n".join(out) + "\n"


def update(w, s):
    with warnings.catch_warnings(), redirect_stdout(StringIO()):
        warnings.simplefilter("ignore")
        if s["main"]:
            argv, run = sys.argv, rb.run_all_benchmarks
            sys.argv, rb.run_all_benchmarks = ["run_benchmarks", "--config", str(w.bench / "config.yaml")], lambda config: None
            try:
                rb.main()
            finally:
                sys.argv, rb.run_all_benchmarks = argv, run
        else:
            rb.update_docs(BenchmarkConfig(script_dir=w.bench, run_name="run", docs_figures=s["docs"], readme_figures=s["readme"]))


def execute(plan, st):
    root = tempfile.mkdtemp(prefix="vsim-c21-")
    fired, parts = [], []
    try:
        w = World(root)
        w.docs.mkdir()
        w.bench.mkdir()
        for d, t in plan["texts"].items():
            if t is not None:
                w.paths[d].write_bytes(t.encode())
        for p in (w.docs / "contributing.rst", w.bench / "other.yaml"):
            p.write_text("not yours\n")
        if plan["static"] is not None:
            w.static.mkdir()
            (w.static / "logo.png").write_bytes(b"logo")
            for n, f in plan["static"].items():
                (w.static / n).write_bytes(content(f))
        if plan["figure_dir"]:
            w.figs.mkdir(parents=True)
        for s in plan["sessions"]:
            session(plan, w, s, st, fired, parts)
        # an undisturbed update in the end, and once more
        s = {**plan["sessions"][-1], "figures": None, "faults": [], "capacity": None, "edit": None}
        session(plan, w, s, st, fired, parts)
        first = w.texts(), w.dir(w.static)
        session(plan, w, s, st, fired, parts)
        if (w.texts(), w.dir(w.static)) != first:
            raise Violation("repeating an update changes what the first one left", key="repeat", plan_sessions=len(plan["sessions"]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    st.nontrivial = any(p for p in parts)
    st.state(sorted(plan["texts"].items(), key=str), plan["sessions"], fired, parts)


def session(plan, w, s, st, fired, parts):
    if s["figures"] is not None and w.figs.exists():
        for x in w.figs.iterdir():
            x.unlink()
        for n, f in s["figures"].items():
            (w.figs / n).write_bytes(content(f))
    if s["edit"] is not None:
        d, seed = s["edit"]
        w.paths[d].write_bytes(gen_text(random.Random(seed), d).encode())
    config = as_yaml(s).encode()
    (w.bench / "config.yaml").write_bytes(config)
    texts, static, figs, rest = w.texts(), w.dir(w.static), w.dir(w.figs), w.rest()
    snap = w.snapshot.read_bytes() if w.snapshot.exists() else None
    docs, copied = model(figs, {d: (t.decode() if t is not None else None) for d, t in texts.items()}, s)
    docs = {d: (t.encode() if t is not None else None) for d, t in docs.items()}
    failed = None
    sim = disk.Disk(w.root, st, s["faults"], s["capacity"], plan["seed"])
    with sim:
        try:
            update(w, s)
        except disk.Crash:
            failed = "crash"
        except OSError as e:
            failed = f"{type(e).__name__}: {e}"
    if failed is not None:
        # buffers the dead process never wrote
        gc.collect(1)
    st.steps += sim.n
    disturbed = [f for f in sim.fired if f[1] != "short"] or s["capacity"] is not None
    for f in sim.fired:
        st.count(f"{f[1]} at {f[0]}")
    fired += sim.fired
    after, static2 = w.texts(), w.dir(w.static)
    now = dict(settings={k: s[k] for k in ("docs", "readme", "main")}, faults=sim.fired, failed=failed)
    if failed is not None and not disturbed:
        raise Violation(f"an update fails on a sound disk: {failed}"[:300], key="fails", **now)
    for d in DOCS:
        if after[d] not in (texts[d], docs[d]):
            raise Violation(f"{d}: neither the document before the update nor the one it was to become", key="document", got=show(after[d]), before=show(texts[d]), want=show(docs[d]), **now)
        if failed is None and after[d] != docs[d]:
            raise Violation(f"{d}: an update that reports no failure did not take place", key="update lost", got=show(after[d]), want=show(docs[d]), **now)
    for n in set(static) | set(figs):
        ok = [static.get(n)] + ([figs[n]] if n in copied else [])
        if static2.get(n) not in ok:
            raise Violation("a figure in the documentation is neither the one before the update nor the new one", key="figure", figure=n, got=show(static2.get(n)), sizes=[len(x) if x is not None else None for x in ok], **now)
        if failed is None and n in copied and static2.get(n) != figs[n]:
            raise Violation("an update that reports no failure did not copy a figure", key="figure lost", figure=n, **now)
    for d in DOCS:
        if after[d] == docs[d] != texts[d]:
            # what the new document shows is there, and current
            for n in figs:
                if n in copied and f"_static/{n}".encode() in after[d] and static2.get(n) != figs[n]:
                    raise Violation("a document shows a figure that was not copied", key="figure behind", document=d, figure=n, **now)
    snap2 = w.snapshot.read_bytes() if w.snapshot.exists() else None
    if snap2 not in ((snap, config) if s["main"] else (snap,)):
        raise Violation("the snapshot of the configuration is neither the one before nor the new one", key="snapshot", got=show(snap2), want=show(config), **now)
    if s["main"] and failed is None and snap2 != config:
        raise Violation("no snapshot of the configuration of a run that reports no failure", key="snapshot lost", got=show(snap2), **now)
    if w.rest() != rest:
        a = w.rest()
        raise Violation("an update touches files that are none of its own", key="other files", files=sorted(k for k in set(a) | set(rest) if a.get(k) != rest.get(k))[:10], **now)
    parts.append([d for d in DOCS if after[d] != texts[d]] + sorted(n for n in static2 if static2[n] != static.get(n)))
    if failed is None:
        st.count("updates completed")
        if not sim.fired:
            st.count("undisturbed updates")
    else:
        st.count("updates cut short")


def show(b):
    return None if b is None else (len(b), b[:160].decode("utf-8", "replace"), b[-80:].decode("utf-8", "replace"))


def shrink(plan):
    ss = plan["sessions"]
    for v in drop_items(ss):
        if v:
            if v[0]["figures"] is None:
                v = [{**v[0], "figures": ss[0]["figures"]}] + v[1:]
            yield {**plan, "sessions": v}
    for i, s in enumerate(ss):
        def alt(**k):
            return {**plan, "sessions": ss[:i] + [{**s, **k}] + ss[i + 1 :]}

        for v in drop_items(s["faults"]):
            yield alt(faults=v)
        if s["main"]:
            yield alt(main=False)
        for k in ("capacity", "edit"):
            if s[k] is not None:
                yield alt(**{k: None})
        for k in ("docs", "readme"):
            if s[k]:
                for v in drop_items(s[k]):
                    yield alt(**{k: v})
        if s["figures"]:
            for n in s["figures"]:
                yield alt(figures={k: v for k, v in s["figures"].items() if k != n})
            for n, f in s["figures"].items():
                if f[1] > 40:
                    yield alt(figures={**s["figures"], n: [f[0], 40]})
    if plan["static"]:
        yield {**plan, "static": {}}
    for d, t in plan["texts"].items():
        if t is not None:
            lines = t.split("\n")
            if len(lines) > 60:
                yield {**plan, "texts": {**plan["texts"], d: "\n".join(lines[: len(lines) // 2])}}
            else:
                for v in drop_items(lines):
                    yield {**plan, "texts": {**plan["texts"], d: "\n".join(v)}}
