"""Shared pieces of the simulator: seeded choices, event log, violations."""
import hashlib
import math
import random
from collections import Counter


def rng_for(*parts):
    """One PRNG per (seed, check, run index, ...): independent of PYTHONHASHSEED."""
    return random.Random("/".join(str(p) for p in parts))


def stable_hash(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=7).digest(), "big")


class Violation(Exception):
    """The property does not hold. `kind` is kept by minimisation."""

    def __init__(self, kind, detail, step=None):
        super().__init__("{}: {}".format(kind, detail))
        self.kind = kind
        self.detail = detail
        self.step = step


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class Run:
    """State of one simulated run: event log, counters, reached abstract states."""

    def __init__(self, log_events=False):
        self.digest = hashlib.sha1()
        self.stats = Counter()
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.signature = []
        self.nontrivial = False
        self.sim_seconds = 0.0
        self.events = [] if log_events else None

    def log(self, *parts):
        line = " ".join(p if isinstance(p, str) else fmt(p) for p in parts)
        self.digest.update(line.encode())
        self.digest.update(b"\n")
        if self.events is not None:
            self.events.append(line)

    def result(self, violation=None):
        res = {
            "digest": self.digest.hexdigest(),
            "stats": dict(self.stats),
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "states": list(self.states),
            "sig": stable_hash(self.signature),
            "nontrivial": bool(self.nontrivial),
            "sim_seconds": self.sim_seconds,
        }
        if self.events is not None:
            res["events"] = self.events
        if violation is not None:
            res["violation"] = {
                "kind": violation.kind,
                "detail": str(violation.detail)[:2000],
                "step": violation.step,
            }
        return res


def fmt(x):
    """Canonical text of an observed value for the event log."""
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, float):
        return "nan" if math.isnan(x) else "{:.10g}".format(x)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(fmt(i) for i in x) + "]"
    if hasattr(x, "tolist"):
        return fmt(x.tolist())
    return str(x)


class Outcome:
    """What a call into the library did: value or exception."""

    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __str__(self):
        return "ok" if self.exc is None else "{}({})".format(
            type(self.exc).__name__, str(self.exc)[:200]
        )


def call(fn, *args, **kwargs):
    """Call into the library, turning any exception into an outcome."""
    try:
        return Outcome(value=fn(*args, **kwargs))
    except (Violation, HarnessError):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        return Outcome(exc=e)


def weighted(rng, table):
    """Pick a key of {key: weight}."""
    keys = [k for k in table if table[k] > 0]
    tot = sum(table[k] for k in keys)
    r = rng.random() * tot
    for k in keys:
        r -= table[k]
        if r < 0:
            return k
    return keys[-1]
