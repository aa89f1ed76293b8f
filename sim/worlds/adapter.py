"""
World of model adapters: prepared, reset, run, stepped, dropped and loaded by name in any order while callbacks of the
model fail, module loading fails and crashes hit the code in between.

The adapter is the simulator's (every callback is recorded and can fail); `Adapter`, `OpenSCM` and `load_adapter` are
real. The simulator decides what importing the module of the adapter does.
"""
import gc
import importlib.abc
import importlib.machinery
import math
import sys

import numpy as np

from ..common import Violation, call, stable_hash, weighted
from ..seams import EXCEPTIONS
from ..trace import LineFault

BATCH = 1
L = {}
MODULE = "openscm.adapters.dice"
CALLBACKS = ["_initialize_model", "_initialize_model_input", "_initialize_run_parameters", "_reset", "_run", "_step"]
EXC = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError", "ZeroDivisionError", "ImportError", "KeyError"]
EXCEPTIONS = dict(EXCEPTIONS, ImportError=ImportError, KeyError=KeyError)
NAMES = ["dice", "", "DICE ", "Unknown", "base", "DICE2", "openscm.adapters.dice", "None"]
ENV = ["ok", "ok", "missing", "missing-late", "OSError", "MemoryError", "KeyboardInterrupt", "SyntaxError"]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """The simulator's answer to importing the module of the adapter."""

    state = "ok"
    fake = True

    def find_spec(self, fullname, path, target=None):
        if fullname != MODULE:
            return None
        if self.state == "missing":
            raise ModuleNotFoundError("No module named {!r} (injected)".format(fullname), name=fullname)
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        self.real = spec.loader
        return importlib.machinery.ModuleSpec(fullname, self, origin=spec.origin)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.fake:
            module.DICE = type("DICE", (L["SimModel"],), {})
        else:
            exec(self.real.get_code(MODULE), module.__dict__)  # pylint: disable=exec-used
        if self.state == "missing-late":
            raise ImportError("cannot import a dependency (injected)")
        if self.state != "ok":
            raise {"SyntaxError": SyntaxError, **EXCEPTIONS}[self.state]("injected while importing")


FINDER = Finder()


def setup(req):
    import openscm.adapters
    import openscm.core
    import openscm.core.units
    import openscm.errors

    L["OpenSCM"] = openscm.core.OpenSCM
    L["ParameterSet"] = openscm.core.ParameterSet
    L["load_adapter"] = openscm.adapters.load_adapter
    L["NeedsModule"] = openscm.errors.AdapterNeedsModuleError
    openscm.core.units.UnitConverter("GtC/yr", "GtCO2/yr")
    assert MODULE not in sys.modules
    sys.meta_path.insert(0, FINDER)

    class SimModel(openscm.adapters.Adapter):
        """Adapter which records its callbacks; any of them can fail."""

        def __init__(self, *args):
            super().__init__(*args)
            self.ident = L["world"].born(self)

        def _shutdown(self):
            L["world"].shutdown(self.ident)

        def _step(self):
            L["world"].event(self.ident, "_step")
            self._current_time += np.timedelta64(365, "D")

    for cb in CALLBACKS:
        if cb != "_step":
            setattr(SimModel, cb, lambda self, cb=cb: L["world"].event(self.ident, cb))
    SimModel.__abstractmethods__ = frozenset()
    L["SimModel"] = SimModel
    sys.unraisablehook = lambda args: None


# ------------------------------------------------------------------ generation


def generate(rng, check, idx, tier):
    fake = rng.random() < 0.85
    cfg = {"fake": fake, "start": rng.random() < 0.9}
    steps = []
    if rng.random() < 0.6:
        steps.append({"op": "env", "state": rng.choice(ENV)})
    table = {"new": 2, "load": 2, "unknown": 1, "env": 2, "prepare": 3, "runpar": 3, "reset": 1.5, "arun": 1, "astep": 1.5,
             "core_reset": 3, "core_run": 3, "core_step": 2, "drop": 1, "start": 0.5, "cycle": 0.3}
    for _ in range(rng.randint(5, 25)):
        op = weighted(rng, table)
        s = {"op": op, "m": rng.randrange(8)}
        if op == "env":
            s["state"] = rng.choice(ENV)
        if op == "unknown":
            s["name"] = rng.choice(NAMES)
            s["core"] = rng.random() < 0.4
        if op == "new":
            s["core"] = rng.random() < 0.65
        if op == "load":
            s["core"] = rng.random() < 0.3
        r = rng.random()
        if op in ("prepare", "runpar", "reset", "arun", "astep", "core_reset", "core_run", "core_step"):
            if r < 0.35:
                s["fail"] = rng.choice(CALLBACKS if r > 0.15 else CALLBACKS[:1])
                s["exc"] = rng.choice(EXC)
            elif r < 0.45:
                s["fault"] = {"k": int(math.exp(rng.uniform(0, math.log(60)))), "exc": rng.choice(EXC[:5])}
        elif op in ("load", "new") and r < 0.15:
            s["fault"] = {"k": rng.randint(1, 14), "exc": rng.choice(EXC[:5])}
        elif op == "drop" and r < 0.3:
            s["exc"] = rng.choice(EXC)
        steps.append(s)
    return {"cfg": cfg, "steps": steps}


def simplify(plan):
    for key in ("fake", "start"):
        if not plan["cfg"][key]:
            yield dict(plan, cfg=dict(plan["cfg"], **{key: True}))
    for i, s in enumerate(plan["steps"]):
        for key, val in (("m", 0), ("core", False), ("exc", "RuntimeError")):
            if key in s and s[key] != val:
                yield dict(plan, steps=plan["steps"][:i] + [dict(s, **{key: val})] + plan["steps"][i + 1:])
        for key in ("fail", "fault"):
            if key in s:
                yield dict(plan, steps=plan["steps"][:i] + [{k: v for k, v in s.items() if k != key}]
                           + plan["steps"][i + 1:])


# ------------------------------------------------------------------ world


class Ref:
    """What is known about one adapter."""

    def __init__(self):
        self.initialised = False  # True, False or None: may be either, after a crash
        self.shutdowns = 0
        self.dead = False
        self.steps = None  # years since start, None: not known


class State:
    def __init__(self, plan, run):
        self.run = run
        self.step_no = 0
        self.refs = []
        self.holders = []  # [kind, object, ref index, parameter set]
        self.trace = []
        self.fail_at = None
        self.exc = None
        self.fired = None
        self.cached = None  # class loaded
        self.flags = set()
        self.start = None
        self.shutdown_exc = None

    # called by the adapters

    def born(self, _):
        self.refs.append(Ref())
        return len(self.refs) - 1

    def event(self, ident, cb):
        self.trace.append((ident, cb))
        if cb == self.fail_at and self.fired is None:
            self.fired = EXCEPTIONS[self.exc]("injected in {}".format(cb))
            self.run.faults["callback " + cb] += 1
            raise self.fired

    def shutdown(self, ident):
        self.refs[ident].shutdowns += 1
        if self.shutdown_exc:
            self.run.faults["callback _shutdown"] += 1
            raise EXCEPTIONS[self.shutdown_exc]("injected in _shutdown")

    def fail(self, kind, detail):
        raise Violation(kind, "step {}: {}".format(self.step_no, detail), self.step_no)


def execute(plan, run):
    st = State(plan, run)
    L["world"] = st
    FINDER.state = "ok"
    FINDER.fake = plan["cfg"]["fake"]
    st.has_start = plan["cfg"]["start"]
    for i, step in enumerate(plan["steps"]):
        st.step_no = i
        run.stats[step["op"]] += 1
        st.trace = []
        res = globals()["h_" + step["op"]](st, step, run) or "skip"
        run.log(i, step["op"], res, " ".join("{}{}".format(a, b) for a, b in st.trace))
        run.signature.append((step["op"], res))
        check_lives(st)
        run.states.add(stable_hash([FINDER.state, st.cached is not None, MODULE in sys.modules,
                                    sorted((str(r.initialised), r.dead, str(r.steps)) for r in st.refs)]))
    st.step_no = len(plan["steps"])
    st.holders = []
    gc.collect()
    for r in st.refs:
        r.dead = True
    check_lives(st)
    run.nontrivial = bool(st.flags)


def check_lives(st):
    for i, r in enumerate(st.refs):
        if r.shutdowns != (1 if r.dead else 0):
            st.fail("shutdown", "adapter {} ({}) was shut down {} times".format(
                i, "dead" if r.dead else "alive", r.shutdowns))


def new_set(st):
    p = L["ParameterSet"]()
    if st.has_start:
        p.generic("Start Time").value = np.datetime64("2000-01-01")
    return p


def guarded(st, step, fn):
    """(outcome, crashed)"""
    st.fired = None
    st.fail_at, st.exc = step.get("fail"), step.get("exc")
    f = step.get("fault")
    try:
        if not f:
            return call(fn), False
        lf = LineFault(f["k"], f["exc"])
        with lf:
            out = call(fn)
        if lf.fired:
            st.run.faults["crash:" + f["exc"]] += 1
            st.run.probes["crash in " + ":".join(lf.fired)] += 1
            if out.ok:
                st.fail("crash-swallowed", "an injected {} in {} was swallowed".format(f["exc"], lf.fired))
            return out, True
        return out, False
    finally:
        st.fail_at = None


# ------------------------------------------------------------------ loading


def judge_load(st, out, what):
    """Outcome of loading the adapter in the present environment."""
    loaded = MODULE in sys.modules
    if st.cached is not None:
        if not out.ok:
            st.fail("load", "{}: an adapter loaded before was refused: {}".format(what, out))
        return "cached"
    state = FINDER.state
    if loaded or state == "ok":
        if not out.ok:
            st.fail("load", "{}: refused although it is available: {}".format(what, out))
        return "loaded"
    if out.ok:
        st.fail("load", "{}: accepted although importing it fails ({})".format(what, state))
    st.flags.add("load failed")
    st.run.faults["import " + state] += 1
    if state.startswith("missing"):
        if not isinstance(out.exc, L["NeedsModule"]) or "DICE" not in str(out.exc):
            st.fail("load", "{}: a missing dependency is reported as {}".format(what, out))
    elif isinstance(out.exc, (KeyError, L["NeedsModule"])):
        st.fail("load", "{}: failure while importing ({}) reported as {}".format(what, state, out))
    return "import failed"


def remember(st, cls, what):
    if not isinstance(cls, type) or cls.__name__ != "DICE" or not issubclass(cls, L["SimModel"].__mro__[1]):
        st.fail("load", "{}: {!r} is not the adapter".format(what, cls))
    if st.cached is not None and cls is not st.cached:
        st.fail("load", "{}: a different class than before".format(what))
    st.cached = cls


def h_load(st, step, run):
    what = "load_adapter"
    before = MODULE in sys.modules
    out, crashed = guarded(st, step, lambda: L["load_adapter"]("DICE"))
    if crashed:
        return "crashed"
    if before:
        FINDER_state, FINDER.state = FINDER.state, "ok"
        res = judge_load(st, out, what)
        FINDER.state = FINDER_state
    else:
        res = judge_load(st, out, what)
    if out.ok:
        remember(st, out.value, what)
    return res


def h_unknown(st, step, run):
    name = step["name"]
    fn = (lambda: L["OpenSCM"](name)) if step["core"] else (lambda: L["load_adapter"](name))
    out = call(fn)
    if out.ok or not isinstance(out.exc, KeyError):
        st.fail("unknown-model", "{!r}: {}".format(name, out))
    return "refused"


def h_env(st, step, run):
    FINDER.state = step["state"]
    return step["state"]


# ------------------------------------------------------------------ life


def h_new(st, step, run):
    p = new_set(st)
    n = len(st.refs)
    if step["core"]:
        out, crashed = guarded(st, step, lambda: L["OpenSCM"]("DICE", p))
        if crashed:
            out = None
            gc.collect()
            for r in st.refs[n:]:
                r.dead = True
            return "crashed"
        res = judge_load(st, out, "OpenSCM")
        if not out.ok:
            return res
        if out.value.parameters is not p:
            st.fail("wrong-set", "OpenSCM does not use the parameter set given")
        h = ["core", out.value, n if len(st.refs) > n else None, p]
    else:
        o = L["ParameterSet"]()
        out, crashed = guarded(st, step, lambda: L["SimModel"](p, o))
        if crashed:
            out = None
            gc.collect()
            for r in st.refs[n:]:
                r.dead = True
            if len(st.refs) == n:
                return "crashed"
            return "crashed"
        if not out.ok:
            st.fail("unexpected-error", "creating an adapter raised {}".format(out))
        h = ["direct", out.value, n, p]
    if st.trace:
        st.fail("not-lazy", "creating a model called {}".format(st.trace))
    st.holders.append(h)
    return "new"


def pick(st, step, kind):
    hs = [h for h in st.holders if h[0] == kind and h[2] is not None]
    return hs[step["m"] % len(hs)] if hs else None


def operate(st, step, run, kind, method, prepares, exact, last):
    """One call of a method of an adapter or of a core with the callbacks it must cause."""
    h = pick(st, step, kind)
    if h is None:
        return None
    obj, ref = h[1], st.refs[h[2]]
    needs_start = "_reset" in exact and not (st.has_start or h[3].info("Start Time") is not None
                                             and not h[3].info("Start Time").empty)
    was = ref.initialised
    out, crashed = guarded(st, step, getattr(obj, method))
    trace = [cb for ident, cb in st.trace if ident == h[2]]
    if len(trace) != len(st.trace):
        st.fail("wrong-model", "{} called {}".format(method, st.trace))
    inits = trace.count("_initialize_model")
    if inits > 1 or (inits and (not prepares or was is True)):
        st.fail("initialised-again", "{} of an adapter {} called {}".format(
            method, "initialised before" if was else "not yet initialised", trace))
    if inits and trace[0] != "_initialize_model":
        st.fail("order", "{} called {}".format(method, trace))
    if prepares and was is False and not inits and trace:
        st.fail("not-initialised", "{} called {} without initialising the model".format(method, trace))
    rest = [cb for cb in trace if cb != "_initialize_model"]
    # nothing is called after a callback which failed; nothing is called twice; nothing before its time
    allowed = list(exact)
    for cb in rest:
        if cb not in allowed:
            st.fail("order", "{} called {}".format(method, trace))
        allowed.remove(cb)
    for k, cb in enumerate(rest):
        if cb in last and set(rest[:k]) != set(exact[:exact.index(cb)]):
            st.fail("order", "{} called {}".format(method, trace))
    if st.fired is not None and trace and trace[-1] != step["fail"]:
        st.fail("order", "{}: calls after the failing {}: {}".format(method, step["fail"], trace))
    # what is known now
    ok_init = inits and not (st.fired is not None and step["fail"] == "_initialize_model")
    if crashed and ok_init and len(rest) == 0:
        ref.initialised = None if was is not True else True
    elif ok_init or (was is None and prepares and rest):
        ref.initialised = True
    elif inits:
        ref.initialised = False
    if "_reset" in rest:
        ref.steps = 0
    if "_run" in rest or crashed or st.fired is not None:
        ref.steps = None
    fired, st.fired = st.fired, None
    if crashed:
        st.flags.add("crash")
        return "crashed"
    if fired is not None:
        st.flags.add("callback failed")
        e, seen = out.exc, []
        while e is not None and e not in seen:
            seen.append(e)
            e = e.__cause__ or e.__context__
        if out.ok or not any(e is fired for e in seen):
            st.fail("failure-lost", "{}: the failure of {} became {}".format(method, step["fail"], out))
        return "failed"
    if needs_start:
        if out.ok:
            st.fail("not-refused", "{} without a start time succeeded".format(method))
        ref.steps = None
        return "no start time"
    if not out.ok:
        st.fail("unexpected-error", "{} raised {}".format(method, out))
    if sorted(rest) != sorted(exact):
        st.fail("order", "{} called {}, expected {}".format(method, trace, exact))
    if prepares and was is False and not inits:
        st.fail("not-initialised", "{} did not initialise the model".format(method))
    if "_step" in rest and ref.steps is not None:
        ref.steps += 1
        exp = np.datetime64("2000-01-01") + ref.steps * np.timedelta64(365, "D")
        if out.value != exp:
            st.fail("wrong-time", "step {} returned {}, expected {}".format(ref.steps, out.value, exp))
    return "ok"


PREP = ["_initialize_model_input", "_initialize_run_parameters"]


def h_prepare(st, step, run):
    return operate(st, step, run, "direct", "initialize_model_input", True, PREP[:1], [])


def h_runpar(st, step, run):
    return operate(st, step, run, "direct", "initialize_run_parameters", True, PREP[1:], [])


def h_reset(st, step, run):
    return operate(st, step, run, "direct", "reset", False, ["_reset"], [])


def h_arun(st, step, run):
    return operate(st, step, run, "direct", "run", False, ["_run"], [])


def direct_stepable(st, step, kind):
    h = pick(st, step, kind)
    return h is not None and st.refs[h[2]].steps is not None


def h_astep(st, step, run):
    if not direct_stepable(st, step, "direct"):
        return None
    return operate(st, step, run, "direct", "step", False, ["_step"], [])


def h_core_reset(st, step, run):
    return operate(st, step, run, "core", "reset_stepping", True, PREP + ["_reset"], ["_reset"])


def h_core_run(st, step, run):
    return operate(st, step, run, "core", "run", True, PREP + ["_reset", "_run"], ["_reset", "_run"])


def h_core_step(st, step, run):
    if not direct_stepable(st, step, "core"):
        return None
    return operate(st, step, run, "core", "step", False, ["_step"], [])


def h_start(st, step, run):
    hs = [h for h in st.holders if h[2] is not None]
    if not hs:
        return None
    hs[step["m"] % len(hs)][3].generic("Start Time").value = np.datetime64("2000-01-01")
    return "start time"


def h_cycle(st, step, run):
    """The user's model refers to itself: only the garbage collector ends its life."""
    h = pick(st, step, "direct")
    if h is None:
        return None
    h[1].me = h[1]
    return "cycle"


def h_drop(st, step, run):
    if not st.holders:
        return None
    h = st.holders.pop(step["m"] % len(st.holders))
    ident = h[2]
    st.shutdown_exc = step.get("exc")
    h[1] = None
    del h
    gc.collect()
    st.shutdown_exc = None
    if ident is not None:
        st.refs[ident].dead = True
    st.flags.add("death")
    return "dropped"
