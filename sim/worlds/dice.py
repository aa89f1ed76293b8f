"""
World of DICE models: stepped, run, abandoned, crashed and restarted in the order the scheduler decides while others
read their results and change their inputs.

Reference: the equations of the climate component of DICE 2013, coded independently, stepped in lock-step.
"""
import math

import numpy as np

from .. import reference as ref
from ..common import Violation, call, fmt, stable_hash, weighted
from ..trace import LineFault

BATCH = 4
L = {}

DEFAULTS = {
    "mat0": 830.4, "mateq": 588, "mat_lower": 10, "ml0": 10010, "mleq": 10000, "ml_lower": 1000, "mu0": 1527,
    "mueq": 1350, "mu_lower": 100, "tatm0": 0.8, "tatm_upper": 40, "tocean0": 0.0068, "tocean_lower": -1,
    "tocean_upper": 20, "b12": 0.0181, "b23": 0.00071, "c1": 0.0222, "c3": 0.09175, "c4": 0.00487, "fex0": 0.25,
    "fex1": 0.7, "fco22x": 3.8, "t2xco2": 2.9,
}
MASS = {"GtC": 1.0, "MtC": 1e-3, "GtCO2": 12 / 44}
TEMP = {"delta_degC": 1.0, "K": 1.0, "mK": 1e-3}
FORC = {"W/m^2": 1.0, "mW/m^2": 1e-3}
ONE = {"": 1.0}
UNIT_TABLE = {
    "mat0": MASS, "mateq": MASS, "mat_lower": MASS, "ml0": MASS, "mleq": MASS, "ml_lower": MASS, "mu0": MASS,
    "mueq": MASS, "mu_lower": MASS, "tatm0": TEMP, "tatm_upper": TEMP, "tocean0": TEMP, "tocean_lower": TEMP,
    "tocean_upper": TEMP, "b12": ONE, "b23": ONE, "c1": {"delta_degC*m^2/W": 1.0}, "c3": {"W/m^2/delta_degC": 1.0},
    "c4": ONE, "fex0": FORC, "fex1": FORC, "fco22x": FORC, "t2xco2": TEMP,
}
FULL = {k: ("DICE", k) for k in DEFAULTS}
FULL["fco22x"] = ("Radiative Forcing Sensitivity",)
FULL["t2xco2"] = ("Equilibrium Climate Sensitivity",)
BETWEEN = ["c1", "c3", "c4", "fco22x", "t2xco2", "fex0", "fex1", "mat_lower", "tatm_upper"]
RANGES = {
    "mat0": (600, 1200), "mateq": (500, 600), "mat_lower": (10, 900), "ml0": (9000, 11000), "mleq": (9000, 11000),
    "ml_lower": (1000, 9500), "mu0": (1000, 2000), "mueq": (1000, 1500), "mu_lower": (100, 1600), "tatm0": (0, 2),
    "tatm_upper": (0.5, 40), "tocean0": (0, 0.5), "tocean_lower": (-1, 0.3), "tocean_upper": (0.001, 20),
    "b12": (0.01, 0.1), "b23": (0.0005, 0.01), "c1": (0.01, 0.1), "c3": (0.05, 0.2), "c4": (0.001, 0.05),
    "fex0": (0, 1), "fex1": (0, 2), "fco22x": (3, 5), "t2xco2": (1.5, 5),
}
OUT = {
    "mat": (("Pool", "CO2", "Atmosphere"), "point", MASS),
    "ml": (("Pool", "CO2", "Ocean", "lower"), "point", MASS),
    "mu": (("Pool", "CO2", "Ocean", "shallow"), "point", MASS),
    "tatm": (("Surface Temperature", "Increase"), "point", TEMP),
    "tocean": (("Ocean Temperature", "Increase"), "point", TEMP),
    "forc": (("Radiative Forcing", "CO2"), "average", FORC),
    "pool": (("Pool", "CO2"), "point", MASS),
    "ocean": (("Pool", "CO2", "Ocean"), "point", MASS),
}
FLUX = {"GtC/a": 1.0, "GtCO2/a": 12 / 44, "MtC/yr": 1e-3, "MtCO2/day": 12 / 44 * 365.25 / 1000}
EXC = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError", "ZeroDivisionError"]
GARBAGE = [float("nan"), 1e300, -1e300, float("inf"), 7.77e33, 1e-300, -123.456]


def setup(req):
    import openscm.core
    import openscm.adapters
    import openscm.core.units

    L["OpenSCM"] = openscm.core.OpenSCM
    L["ParameterSet"] = openscm.core.ParameterSet
    openscm.adapters.load_adapter("DICE")
    for a in ("GtC/yr", "GtC", "K", "W/m^2"):
        openscm.core.units.UnitConverter(a, a)
    L["check"] = req["check"]
    real = np.empty

    def empty(shape, dtype=float, order="C", **kw):
        a = real(shape, dtype, order, **kw)
        if L.get("garbage") is not None and a.dtype.kind == "f":
            a.fill(L["garbage"])
            L["garbage_used"] = L.get("garbage_used", 0) + 1
        return a

    np.empty = empty


# ------------------------------------------------------------------ generation


def generate(rng, check, idx, tier):
    n_steps = rng.randint(3, 6) if tier == "quick" else rng.randint(3, 10)
    period = rng.choice([365, 365, 365, 1826, 3650, 30])
    start = rng.choice([2010, 2010, 2011, 1990, 2080])
    n_models = 1
    n_in = 1
    if check == "C09":
        n_models = rng.choice([2, 2, 3])
        n_in = rng.choice([1, 1, 2])
    models = []
    for i in range(n_models):
        models.append({"in": i % n_in, "out": "same" if n_models == 1 and rng.random() < 0.1 else i})
    cfg = {
        "models": models, "n_in": n_in, "start": "{}-01-01".format(start), "period": period, "steps": n_steps,
        "extra_days": rng.choice([0, 0, 0, period // 2]), "rounding": rng.random() < 0.6,
        "split": rng.choice([[], [], [], ["Fossil", "Land"], ["Fossil|Coal", "Fossil|Oil", "Land"]]),
        "garbage": rng.randrange(len(GARBAGE)), "set_period": period != 365 or rng.random() < 0.3,
        "saturation": rng.choice([None, None, "{}-06-01".format(start + max(1, period * n_steps // 730))]),
    }

    def setter():
        k = rng.choice(sorted(DEFAULTS))
        return {"op": "set", "i": rng.randrange(n_in), "name": k, "x": rng.randrange(1000), "u": rng.randrange(8)}

    def emis():
        return {"op": "emis", "i": rng.randrange(n_in), "s": rng.randrange(1 << 16), "u": rng.randrange(8),
                "g": rng.choice(["model", "model", "model", "wide", "coarse"]), "p": rng.randrange(3)}

    def switch():
        return {"op": "switch", "i": rng.randrange(n_in), "x": rng.randrange(1000),
                "name": rng.choice(["rounding", "rounding", "saturation"])}

    steps = []
    for _ in range(rng.randint(0, 4)):
        steps.append(setter())
    for i in range(n_in):
        for part in range(len(cfg["split"]) or 1):
            e = emis()
            e["i"], e["p"] = i, part
            if rng.random() < 0.95:
                steps.append(e)
    table = {
        "C07": {"step": 10, "reset": 1, "run": 1.5, "reader": 4, "read": 6, "between": 2, "set": 1,
                "emis": 1.5, "element": 1, "switch": 0.7, "axis": 0.7},
        "C08": {"step": 4, "reset": 3, "run": 4, "reader": 1, "read": 2, "between": 1, "set": 2, "emis": 1.5,
                "crash": 6, "new": 0.7, "overstep": 1, "switch": 1},
        "C09": {"step": 12, "reset": 2.5, "run": 2, "reader": 2, "read": 3, "between": 1, "set": 0.5, "emis": 0.8,
                "inputs": 1, "crash": 0.5, "switch": 0.5},
    }[check]
    if check == "C07":
        steps.append({"op": "reset", "m": 0})
    if check == "C09":
        for i in range(n_models):
            if rng.random() < 0.8:
                steps.append({"op": "reset", "m": i})
    for _ in range(rng.randint(8, 20)):
        op = weighted(rng, table)
        m = rng.randrange(n_models)
        if op == "set":
            steps.append(setter())
        elif op == "between":
            s = setter()
            s["name"] = rng.choice(BETWEEN)
            steps.append(s)
        elif op in ("emis", "element"):
            steps.append(emis())
        elif op == "switch":
            steps.append(switch())
        elif op == "reader":
            steps.append({"op": op, "m": m, "var": rng.choice(sorted(OUT)), "u": rng.randrange(8)})
        elif op == "crash":
            steps.append({"op": rng.choice(["run", "run", "step", "reset"]), "m": m,
                          "fault": {"k": rng.choice([int(math.exp(rng.uniform(0, math.log(12000)))) + rng.randrange(3),
                                                     rng.randint(1, 1000 * (n_steps + 3))]),
                                    "exc": rng.choice(EXC)}})
            if rng.random() < 0.7:
                steps.append({"op": "run", "m": m})
        else:
            steps.append({"op": op, "m": m, "r": rng.randrange(64), "s": rng.randrange(1 << 16)})
    if check == "C08":
        steps.append({"op": "run", "m": 0})
    return {"cfg": cfg, "steps": steps}


def simplify(plan):
    cfg = plan["cfg"]
    for key, val in (("garbage", 6), ("saturation", None), ("extra_days", 0), ("period", 365), ("rounding", True),
                     ("steps", 3), ("start", "2010-01-01"), ("set_period", True), ("split", [])):
        if cfg.get(key, val) != val:
            yield dict(plan, cfg=dict(cfg, **{key: val}))
    for i, s in enumerate(plan["steps"]):
        for key, val in (("x", 500), ("u", 0), ("s", 1), ("g", "model"), ("m", 0), ("i", 0), ("r", 0)):
            if key in s and s[key] != val:
                yield dict(plan, steps=plan["steps"][:i] + [dict(s, **{key: val})] + plan["steps"][i + 1:])


# ------------------------------------------------------------------ reference


class Part:
    """Emissions or a part of them."""

    def __init__(self, name):
        self.name = name
        self.view = None
        self.grid = None  # in seconds
        self.kind = None
        self.values = None  # in GtC/yr
        self.user = None  # (unit, values) as written by the user


class MInputs:
    """Reference of one input set."""

    def __init__(self, cfg, index):
        self.lib = L["ParameterSet"]()
        self.values = {}  # name -> value in base unit, as set
        self.units = {}  # name -> (unit, value) as written by the user
        self.parts = [Part(("Emissions", "CO2") + tuple(n.split("|"))) for n in cfg.get("split") or []]
        if not self.parts:
            self.parts = [Part(("Emissions", "CO2"))]
        self.rounding = cfg["rounding"]
        self.saturation = np.datetime64(cfg["saturation"] or "2100-01-01")
        self.moved_axis = False
        self.defaults = set()


class MModel:
    """Reference of one model."""

    def __init__(self, index, lib, inputs, out):
        self.index, self.lib, self.inputs, self.out = index, lib, inputs, out
        self.status = "new"
        self.t = 0
        self.res = None
        self.readers = []
        self.made_outputs = False


class State:
    def __init__(self, plan, run):
        cfg = self.cfg = plan["cfg"]
        self.run = run
        self.step = 0
        self.flags = set()
        n = cfg["steps"]
        self.count = n + 1
        self.start = np.datetime64(cfg["start"])
        self.period = np.timedelta64(cfg["period"], "D")
        self.stop = self.start + n * self.period + np.timedelta64(cfg["extra_days"], "D")
        self.period_years = cfg["period"] / 365
        sec = int(self.start.astype("datetime64[s]").astype(np.int64))
        psec = cfg["period"] * 86400
        self.points = np.array([sec + i * psec for i in range(self.count)])
        self.bounds = np.array([sec + i * psec for i in range(self.count + 1)])
        self.inputs = [MInputs(cfg, i) for i in range(cfg["n_in"])]
        for inp in self.inputs:
            inp.lib.generic("Start Time").value = self.start
            inp.lib.generic("Stop Time").value = self.stop
            if not cfg["rounding"] or cfg["set_period"]:
                inp.lib.generic(("DICE", "original_rounding")).value = cfg["rounding"]
            if cfg["set_period"]:
                inp.lib.generic(("DICE", "period_length")).value = self.period
            if cfg["saturation"]:
                inp.lib.generic(("DICE", "forcoth_saturation_time")).value = inp.saturation
            if len(inp.parts) > 1:  # they have to be there before the sum of them is read
                for k, part in enumerate(inp.parts):
                    self.view_emissions(part, k + len(cfg["models"]), ("model", "wide", "coarse")[(k + n) % 3])
        self.models = []
        for i, m in enumerate(cfg["models"]):
            inp = self.inputs[m["in"]]
            out = inp.lib if m["out"] == "same" else L["ParameterSet"]()
            self.models.append(MModel(i, self.create(inp, out), inp, out))

    def create(self, inp, out):
        return L["OpenSCM"]("DICE", inp.lib, out)

    def view_emissions(self, part, u, g):
        unit = sorted(FLUX)[u % len(FLUX)]
        part.grid, part.kind = grid_for(self, g), g
        for inp in self.inputs:
            if part in inp.parts:
                v = call(lambda: inp.lib.timeseries(part.name, unit, part.grid.astype("datetime64[s]"),
                                                    timeseries_type="average"))
        if not v.ok:
            self.fail("unexpected-error", "view of the emissions raised {}".format(v))
        part.view, part.unit = v.value, unit

    def fail(self, kind, detail):
        raise Violation(kind, "step {}: {}".format(self.step, detail), self.step)

    def par(self, inp, name):
        return inp.values.get(name, DEFAULTS[name])

    # equations of the climate component

    def ref_reset(self, m):
        p = lambda k: self.par(m.inputs, k)  # noqa: E731
        b12, b23 = p("b12"), p("b23")
        b21 = b12 * p("mateq") / p("mueq")
        b32 = b23 * p("mueq") / p("mleq")
        m.matrix = {"b11": 1 - b12, "b12": b12, "b21": b21, "b22": 1 - b21 - b23, "b23": b23, "b32": b32, "b33": 1 - b32}
        m.rounding = m.inputs.rounding
        m.res = {
            "mat": [p("mat0")], "ml": [p("ml0")], "mu": [p("mu0")], "tatm": [p("tatm0")], "tocean": [p("tocean0")],
            "forc": [p("fco22x") * math.log2(p("mat0") / p("mateq")) + p("fex0")],
        }
        m.t = 0
        m.status = "ready"

    def emissions(self, m):
        """Average emissions (GtC/yr) over the intervals of the model."""
        parts = m.inputs.parts
        if any(p.values is None for p in parts):
            return None
        return sum(ref.tconv(p.values, p.grid, self.bounds, True, "none") for p in parts)

    def ref_step(self, m):
        p = lambda k: self.par(m.inputs, k)  # noqa: E731
        r, x = m.res, m.matrix
        e = self.emissions(m)[m.t]
        if m.rounding:
            e = e / (12 / 44) / 3.666
        mat, ml, mu, tatm, tocean = (r[k][-1] for k in ("mat", "ml", "mu", "tatm", "tocean"))
        m.t += 1
        r["mat"].append(max(p("mat_lower"), mat * x["b11"] + mu * x["b21"] + e * self.period_years))
        r["ml"].append(max(p("ml_lower"), ml * x["b33"] + mu * x["b23"]))
        r["mu"].append(max(p("mu_lower"), mat * x["b12"] + mu * x["b22"] + ml * x["b32"]))
        r["tocean"].append(max(p("tocean_lower"), min(p("tocean_upper"), tocean + p("c4") * (tatm - tocean))))
        now = self.start + m.t * self.period
        saturation = m.inputs.saturation
        if now >= saturation:
            other = p("fex1")
        else:
            other = p("fex0") + (p("fex1") - p("fex0")) * ((m.t * self.period) / (saturation - self.start))
        forc = p("fco22x") * math.log2(r["mat"][-1] / p("mateq")) + other
        r["forc"].append(forc)
        r["tatm"].append(min(p("tatm_upper"), tatm + p("c1") * (
            forc - (p("fco22x") / p("t2xco2")) * tatm - p("c3") * (tatm - tocean))))

    # observation

    def expected(self, m, var):
        r = m.res
        if var == "pool":
            return np.array([a + b + c for a, b, c in zip(r["mat"], r["ml"], r["mu"])])
        if var == "ocean":
            return np.array([b + c for b, c in zip(r["ml"], r["mu"])])
        return np.array(r[var])

    def lib_view(self, m, var, unit):
        name, kind, _ = OUT[var]
        grid = self.points if kind == "point" else self.bounds
        return m.out.timeseries(name, unit, grid.astype("datetime64[s]"), timeseries_type=kind)

    def compare(self, m, var, factor, view, what):
        out = call(lambda: np.asarray(view.values, dtype=float))
        if not out.ok:
            self.fail("unexpected-error", "{}: reading {} of model {} raised {}".format(what, var, m.index, out))
        exp = self.expected(m, var) / factor
        n = len(exp)
        got = out.value[:n]
        # the forcing is published through the mean preserving interpolation (numerical integration)
        tol = (1e-6 if var == "forc" else 1e-9) * np.max(np.abs(exp)) + 1e-12
        if any(p.kind not in (None, "model") for p in m.inputs.parts):
            tol = max(tol, 2e-5 * np.max(np.abs(exp)))
        if len(out.value) != self.count or not np.all(np.abs(got - exp) <= tol):
            self.fail("wrong-result", "{}: {} of model {} is {}, expected {} (completed steps)".format(
                what, var, m.index, fmt(got), fmt(exp)))
        return got

    def check_model(self, m, what):
        if m.status not in ("ready", "finished"):
            return
        for var, (name, kind, units) in OUT.items():
            if var in ("pool", "ocean"):
                continue
            unit = sorted(units)[0]
            v = call(self.lib_view, m, var, unit)
            if not v.ok:
                self.fail("unexpected-error", "{}: view of {} of model {} raised {}".format(what, var, m.index, v))
            got = self.compare(m, var, units[unit], v.value, what)
            if var in ("mat", "tatm"):
                self.run.log(what, m.index, var, fmt(np.round(got, 5)))

    def check_inputs(self, inp, what):
        """Inputs set by the user are unchanged, others are empty or have their default."""
        for k in sorted(DEFAULTS):
            info = inp.lib.info(FULL[k])
            if k in inp.units:
                unit, val = inp.units[k]
                got = call(lambda: inp.lib.scalar(FULL[k], unit).value)
                if not got.ok or abs(got.value - val) > 1e-9 * abs(val):
                    self.fail("input-changed", "{}: {} is {} but was set to {}".format(what, k, got, val))
            elif info is not None and not info.empty:
                unit = sorted(UNIT_TABLE[k], key=lambda u: (abs(UNIT_TABLE[k][u] - 1), u))[0]
                if k in ("mat0", "mateq", "mat_lower", "ml0", "mleq", "ml_lower", "mu0", "mueq", "mu_lower"):
                    unit = "GtC"
                got = call(lambda: inp.lib.scalar(FULL[k], unit).value)
                if not got.ok or abs(got.value - DEFAULTS[k]) > 1e-9 * abs(DEFAULTS[k]):
                    self.fail("wrong-default", "{}: {} is {} but its default is {}".format(what, k, got, DEFAULTS[k]))
        for name, val in ((("Start Time",), self.start), (("Stop Time",), self.stop),
                          (("DICE", "original_rounding"), inp.rounding),
                          (("DICE", "period_length"), self.period),
                          (("DICE", "forcoth_saturation_time"), inp.saturation)):
            info = inp.lib.info(name)
            if info is not None and not info.empty and inp.lib.generic(name).value != val:
                self.fail("input-changed", "{}: {} is {}".format(what, name, inp.lib.generic(name).value))
        for part in inp.parts:
            if part.user is None:
                continue
            v = call(lambda: np.asarray(part.view.values))
            unit, vals = part.user
            if not v.ok or not np.allclose(v.value, vals, rtol=1e-12, atol=0):
                self.fail("input-changed", "{}: emissions are {} but were set to {}".format(what, v, fmt(vals)))


# ------------------------------------------------------------------ execution


def execute(plan, run):
    st = State(plan, run)
    L["garbage"] = GARBAGE[st.cfg["garbage"]]
    L["garbage_used"] = 0
    try:
        for i, step in enumerate(plan["steps"]):
            st.step = i
            run.stats[step["op"]] += 1
            res = globals()["h_" + step["op"]](st, step, run) or "skip"
            run.log(i, step["op"], res)
            run.signature.append((step["op"], step.get("m"), res))
            run.states.add(stable_hash([(m.status, m.t, len(m.readers), len(m.inputs.values)) for m in st.models]
                                       + [m["in"] for m in st.cfg["models"]]))
        st.step = len(plan["steps"])
        for m in st.models:
            st.check_model(m, "at the end")
            read_all(st, m, "at the end")
        restore_axis(st)
        for inp in st.inputs:
            st.check_inputs(inp, "at the end")
    finally:
        L["garbage"] = None
        for m in st.models:
            m.lib = None
    if L["garbage_used"]:
        run.faults["uninitialised-memory"] += L["garbage_used"]
    check = L["check"]
    if check == "C07":
        run.nontrivial = "stepped" in st.flags and ("read" in st.flags or "changed" in st.flags)
    elif check == "C08":
        run.nontrivial = "rerun" in st.flags
    else:
        run.nontrivial = sum(m.t > 0 for m in st.models) > 1


def pick_model(st, step):
    return st.models[step["m"] % len(st.models)]


def guarded(st, step, fn):
    """Call, possibly with a crash point; (outcome, crashed)."""
    f = step.get("fault")
    if not f:
        return call(fn), False
    lf = LineFault(f["k"], f["exc"])
    with lf:
        out = call(fn)
    if lf.fired:
        st.run.faults["crash:" + f["exc"]] += 1
        st.run.probes["crash in " + ":".join(lf.fired)] += 1
        if out.ok:
            st.fail("crash-swallowed", "an injected {} in {} was swallowed".format(f["exc"], lf.fired))
        return out, True
    return out, False


def h_reset(st, step, run):
    m = pick_model(st, step)
    restore_axis(st)
    out, crashed = guarded(st, step, m.lib.reset_stepping)
    if crashed:
        m.status = "crashed"
        return "crashed"
    if not out.ok:
        st.fail("unexpected-error", "resetting model {} raised {}".format(m.index, out))
    if m.status in ("crashed", "finished") or m.t:
        st.flags.add("rerun")
    requested(st, m)
    st.ref_reset(m)
    st.check_model(m, "after reset")
    after(st, "reset")
    return "reset"


def requested(st, m):
    """Bookkeeping of what initialisation of a model requests."""
    m.made_outputs = True
    if m.inputs.parts[0].kind is None:
        m.inputs.parts[0].kind = "model"


def after(st, what):
    if L["check"] == "C09" and st.step % 3 == 0:
        for inp in st.inputs:
            st.check_inputs(inp, "after " + what)
    if L["check"] == "C09":
        for m in st.models:
            st.check_model(m, "after " + what)


def h_step(st, step, run):
    m = pick_model(st, step)
    if m.status != "ready" or m.t >= st.count - 1:
        if L["check"] == "C09" or step.get("fault"):
            return h_reset(st, step, run)
        return None
    emptyness = st.emissions(m) is None
    out, crashed = guarded(st, step, m.lib.step)
    if crashed:
        m.status = "crashed"
        return "crashed"
    if emptyness:
        m.status = "crashed"
        if out.ok:
            st.fail("not-refused", "a step without emissions succeeded")
        return "refused without emissions"
    if not out.ok:
        st.fail("unexpected-error", "step {} of model {} raised {}".format(m.t + 1, m.index, out))
    st.ref_step(m)
    exp = st.start + m.t * st.period
    if not (isinstance(out.value, np.datetime64) and out.value == exp):
        st.fail("wrong-time", "step {} of model {} reported {}, expected {}".format(m.t, m.index, out.value, exp))
    run.sim_seconds += st.cfg["period"] / 365
    st.flags.add("stepped")
    st.check_model(m, "after step")
    after(st, "step")
    return "stepped"


def h_run(st, step, run):
    m = pick_model(st, step)
    emptyness = st.emissions(m) is None
    restore_axis(st)
    again = m.status in ("crashed", "finished") or m.t > 0
    out, crashed = guarded(st, step, m.lib.run)
    if crashed:
        m.status = "crashed"
        return "crashed"
    requested(st, m)
    if emptyness:
        m.status = "crashed"
        if out.ok:
            st.fail("not-refused", "a run without emissions succeeded")
        return "refused without emissions"
    if not out.ok:
        st.fail("unexpected-error", "run of model {} raised {}".format(m.index, out))
    st.ref_reset(m)
    for _ in range(st.count - 1):
        st.ref_step(m)
    m.status = "finished"
    run.sim_seconds += st.cfg["period"] / 365 * (st.count - 1)
    if again:
        st.flags.add("rerun")
        run.probes["reruns"] += 1
    st.check_model(m, "after run")
    read_all(st, m, "after run")
    after(st, "run")
    return "run"


def h_overstep(st, step, run):
    """One step too many (an error), or a step of a model which is not prepared: only a reset helps."""
    m = pick_model(st, step)
    if m.status != "ready" or m.t < st.count - 1:
        return None
    out = call(m.lib.step)
    if out.ok:
        st.fail("not-refused", "a step beyond the last one succeeded")
    m.status = "crashed"
    return "refused step"


def h_new(st, step, run):
    """The user throws the model away and creates a new one for the same parameter sets."""
    m = pick_model(st, step)
    m.lib = None
    out = call(st.create, m.inputs, m.out)
    if not out.ok:
        st.fail("unexpected-error", "creating a model raised {}".format(out))
    m.lib = out.value
    m.status = "crashed" if m.status != "new" else "new"
    return "new"


def h_set(st, step, run):
    inp = st.inputs[step["i"] % len(st.inputs)]
    k = step["name"]
    lo, hi = RANGES[k]
    base = round(lo + (hi - lo) * step["x"] / 1000, 6)
    units = sorted(UNIT_TABLE[k])
    unit = units[step["u"] % len(units)]
    if k in inp.units and step["u"] & 4:
        unit = inp.units[k][0]
    val = base / UNIT_TABLE[k][unit]
    out = call(lambda: setattr(inp.lib.scalar(FULL[k], unit), "value", val))
    if not out.ok:
        st.fail("unexpected-error", "setting {} in {} raised {}".format(k, unit, out))
    inp.values[k] = base
    inp.units[k] = (unit, val)
    if any(m.inputs is inp and m.status == "ready" and m.t for m in st.models):
        st.flags.add("changed")
        run.probes["input changed between steps"] += 1
    for m in st.models:
        st.check_model(m, "after changing an input")
    return "set"


def h_emis(st, step, run):
    inp = st.inputs[step["i"] % len(st.inputs)]
    part = inp.parts[step.get("p", 0) % len(inp.parts)]
    first = part.view is None
    if first:
        st.view_emissions(part, step["u"], part.kind or step["g"])
    grid = part.grid
    x = step["s"]
    vals = []
    for i in range(len(grid) - 1):
        x = (x * 1103515245 + 12345) % (1 << 31)
        vals.append(((x >> 8) % 2000) / 100.0 - (2 if (x >> 20) % 7 == 0 else 0))
    vals = np.array(vals) / FLUX[part.unit]
    if part.user is not None and x % 3 == 0:
        cur = np.array(part.user[1])
        i = x % len(cur)
        cur[i] = vals[i]
        out = call(lambda: part.view.values.__setitem__(i, vals[i]))
        vals = cur
    else:
        out = call(lambda: setattr(part.view, "values", vals))
    if not out.ok:
        st.fail("unexpected-error", "writing the emissions raised {}".format(out))
    part.values = vals * FLUX[part.unit]
    part.user = (part.unit, vals.copy())
    if any(m.inputs is inp and m.status == "ready" and m.t for m in st.models):
        st.flags.add("changed")
        run.probes["emissions changed between steps"] += 1
    for m in st.models:
        st.check_model(m, "after changing the emissions")
    return "emissions"


def h_switch(st, step, run):
    """Inputs which are not numbers."""
    inp = st.inputs[step["i"] % len(st.inputs)]
    if step["name"] == "rounding":  # together with the view of the emissions, at the next reset
        inp.rounding = not inp.rounding
        name, value = ("DICE", "original_rounding"), inp.rounding
    else:
        inp.saturation = st.start + np.timedelta64(30 + step["x"] * 17, "D")
        name, value = ("DICE", "forcoth_saturation_time"), inp.saturation
    out = call(lambda: setattr(inp.lib.generic(name), "value", value))
    if not out.ok:
        st.fail("unexpected-error", "setting {} raised {}".format(name, out))
    if any(m.inputs is inp and m.status == "ready" and m.t for m in st.models):
        st.flags.add("changed")
        run.probes["switch changed between steps"] += 1
    for m in st.models:
        st.check_model(m, "after changing an input")
    return "switched " + step["name"]


def h_axis(st, step, run):
    """Another time axis asked for in the middle of stepping and given up again before the next reset."""
    inp = st.inputs[0]
    inp.moved_axis = True
    x = step["s"]
    if x & 1:
        inp.lib.generic("Start Time").value = st.start + np.timedelta64(100, "D")
    if x & 2:
        inp.lib.generic("Stop Time").value = st.stop + st.period
    if x & 4 or not x & 3:
        inp.lib.generic(("DICE", "period_length")).value = st.period * 2
    run.probes["time axis changed between steps"] += 1
    return "axis"


def restore_axis(st):
    for inp in st.inputs:
        if inp.moved_axis:
            inp.lib.generic("Start Time").value = st.start
            inp.lib.generic("Stop Time").value = st.stop
            inp.lib.generic(("DICE", "period_length")).value = st.period
            inp.moved_axis = False


def grid_for(st, g):
    if g == "model":
        return st.bounds
    if g == "wide":
        d = st.bounds[1] - st.bounds[0]
        return np.concatenate(([st.bounds[0] - d], st.bounds, [st.bounds[-1] + 2 * d]))
    span = st.bounds[-1] - st.bounds[0]
    return np.array([st.bounds[0] - span // 2, st.bounds[0] + span // 3, st.bounds[0] + 2 * span // 3,
                     st.bounds[-1] + span // 4])


def h_reader(st, step, run):
    m = pick_model(st, step)
    if not m.made_outputs or m.status == "new":
        return None
    var = step["var"]
    units = sorted(OUT[var][2])
    unit = units[step["u"] % len(units)]
    v = call(st.lib_view, m, var, unit)
    if not v.ok:
        if m.status == "crashed":
            return None
        st.fail("unexpected-error", "view of {} raised {}".format(var, v))
    m.readers.append((var, OUT[var][2][unit], v.value))
    return "reader"


def h_read(st, step, run):
    m = pick_model(st, step)
    if not m.readers or m.status not in ("ready", "finished"):
        return None
    var, factor, v = m.readers[step["r"] % len(m.readers)]
    st.compare(m, var, factor, v, "reader")
    st.flags.add("read")
    return "read"


def read_all(st, m, what):
    if m.status in ("ready", "finished"):
        for var, factor, v in m.readers:
            st.compare(m, var, factor, v, what)


def h_range(st, step, run):
    """
    The user asks for another time range; only in the probe of a known finding (the model then fails on an output set
    it has used before), such that its outputs are not read any more.
    """
    inp = st.inputs[0]
    inp.lib.generic("Start Time").value = st.start + step["days"] * np.timedelta64(1, "D")
    inp.lib.generic("Stop Time").value = st.stop + step["days"] * np.timedelta64(1, "D")
    for m in st.models:
        out = call(m.lib.run)
        if not out.ok:
            st.fail("time-range-changed", "run after changing start and stop time raised {}".format(out))
        m.status = "crashed"
    st.start, st.stop = inp.lib.generic("Start Time").value, inp.lib.generic("Stop Time").value
    return "range"


def h_inputs(st, step, run):
    for inp in st.inputs:
        st.check_inputs(inp, "inspection")
    return "inspected"
