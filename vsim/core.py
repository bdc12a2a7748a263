"""What a property module sees: Violation, RunStats, seeded randomness."""
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message = message
        self.key = key or message.split(":")[0]
        self.detail = detail


class Vacuous(Exception):
    """The run says nothing about the property (e.g. the plain fit warned)."""


class RunStats:
    def __init__(self):
        self.faults = {}
        self.states = set()
        self.cover = {}
        self.steps = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self.note = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, what, n=1):
        self.cover[what] = self.cover.get(what, 0) + n

    def state(self, *parts):
        self.states.add(h64(parts))

    def as_dict(self):
        return dict(
            faults=dict(sorted(self.faults.items())),
            states=sorted(self.states),
            cover=dict(sorted(self.cover.items())),
            steps=int(self.steps),
            sim_time=round(float(self.sim_time), 9),
            nontrivial=bool(self.nontrivial),
            note=self.note,
        )


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def rng_for(*parts):
    return random.Random(h64(parts))


def plan_key(plan):
    return hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).hexdigest()


def must(label, fn, *a, **k):
    """Run an operation of glum that has to succeed."""
    try:
        return fn(*a, **k)
    except (Violation, Vacuous):
        raise
    except Exception as e:  # noqa: BLE001
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        site = next((f"{t.filename.rsplit('/', 1)[-1]}:{t.name}" for t in reversed(tb) if "/repo/" in t.filename), "?")
        if site == "?":
            raise
        raise Violation(
            f"{label} failed with {type(e).__name__}: {str(e)[:200]} (in {site})",
            key=f"{label}:{type(e).__name__}:{site}",
        ) from e


# -- generic plan reduction ------------------------------------------------
def drop_items(lst):
    """Shorter versions of a list, most aggressive first."""
    n = len(lst)
    if n == 0:
        return
    if n > 1:
        yield lst[: n // 2]
        yield lst[n // 2 :]
    for i in range(n - 1, -1, -1):
        yield lst[:i] + lst[i + 1 :]


SIMPLE_SPEC = dict(
    f32=False, density=1.0, scale=0, offset=False, weights=None, P1=None, P2=None,
    scale_predictors=False, hessian_approx=0.0, drop_first=False, formula_inter=False,
    copy_X=None, lower=None, upper=None, const=None, storage="dense_c", link="auto", solver="auto",
    l1_ratio=0.0, levels=[], p=1, selection="cyclic",
)


def shrink_spec(spec):
    """Simpler problem specs (one field at a time)."""
    if spec.get("na"):
        yield {**spec, "na": None}
    if spec.get("lhs"):
        yield {**spec, "lhs": False}
    if spec.get("shift"):
        yield {**spec, "shift": 0}
    if spec.get("extra"):
        yield {**spec, "extra": {}}
    for k, v in SIMPLE_SPEC.items():
        if k not in spec or spec[k] == v:
            continue
        if k == "storage" and (spec.get("levels") or spec.get("formula_inter")):
            continue
        if k == "link":
            from .problems import linkname

            if linkname(spec["family"], "auto") != linkname(spec["family"], spec["link"]):
                continue
        if k == "p" and spec.get("formula_inter"):
            continue
        yield {**spec, k: v}
    if spec.get("n", 0) > 16:
        yield {**spec, "n": max(12, spec["n"] // 2)}


def shrink_fields(plan, lists=(), specs=("spec",)):
    for k in lists:
        for v in drop_items(plan.get(k) or []):
            yield {**plan, k: v}
    for k in specs:
        if plan.get(k):
            for v in shrink_spec(plan[k]):
                yield {**plan, k: v}
