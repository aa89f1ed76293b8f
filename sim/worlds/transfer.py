"""
World of transfers: data frames converted to parameter sets (new and existing ones) and back, while holders write to the
sets (also through locked views), users change the frames, models step, and numerical routines fail.

Reference: sim.frames_model for frames, a flat table of parameters for sets.
"""
import math

import numpy as np

from ..common import Violation, call, fmt, rng_for, stable_hash, weighted
from ..frames_model import (MF, NAN, Refused, Unknown, accuracy, compare, convert, group_of, is_average, key_of, look,
                            norm, to_dt)
from ..reference import Insufficient, tconv
from ..seams import ARM, EXCEPTIONS
from . import frames as fw

BATCH = 1
L = fw.L
MAX = 4

VARS = {
    "Emissions|CO2|AFOLU": "flux", "Emissions|CO2|Fossil": "flux", "Emissions|CO2|Fossil|Coal": "flux",
    "Emissions|CO2": "flux", "Emissions|CH4": "ch4", "Surface Temperature": "temperature",
    "Surface Temperature|Increase": "temperature", "Radiative Forcing|CO2": "forcing",
    "Radiative Forcing|CH4|Direct": "forcing", "Sea Level": "length", "Atmospheric Concentrations|CO2": "concentration",
    "CO2": "concentration", "Fossil": "flux",
}
UNITS = {"flux": ["GtC/yr", "MtCO2/yr", "ktC / month"], "ch4": ["MtCH4/yr", "GtCH4/yr"], "temperature": ["K", "degC"],
         "forcing": ["W/m^2", "mW/m^2"], "length": ["m", "cm", "km"], "concentration": ["ppm", "ppb"]}
REGIONS = ["World", "World|NH", "World|NH|Land", "World|R5ASIA", "World|R5ASIA|China", "World|Land"]
# scalars: name -> {unit: factor}
SCALARS = {
    "ECS": {"K": 1.0, "mK": 1e-3},
    "Forcing|2xCO2": {"W/m^2": 1.0, "W / (m*m)": 1.0, "(kW)/(m^2)": 1e3},
    "lambda": {"K / (W/m^2)": 1.0, "(K)/(W/m^2)": 1.0, "mK*m^2/W": 1e-3},
    "2xCO2": {"W/m^2": 1.0}, "depth (mixed layer)": {"m": 1.0, "cm": 1e-2},
}
GENERICS = {"note": ["x", "long note", ""], "run|name": ["a", "b"], "num": [3.0, -999.0, 0.5], "flag": [1.0]}


def setup(req):
    fw.setup(req)
    import openscm.core
    import openscm.scmdataframe

    L["ParameterSet"] = openscm.core.ParameterSet
    L["OpenSCM"] = openscm.core.OpenSCM
    L["back"] = openscm.scmdataframe.convert_openscm_to_scmdataframe
    import openscm.adapters

    openscm.adapters.load_adapter("DICE")


# ------------------------------------------------------------------ generation

WEIGHTS = {"frame": 4, "to_new": 5, "to_existing": 4, "back": 8, "write": 7, "lock": 3, "unlock": 3, "scalar": 2,
           "generic": 1, "parameter": 2, "change": 5, "fault": 5, "model": 0.7, "pipeline": 0.25, "back_refused": 0.8}


def generate(rng, check, idx, tier):
    w = dict(WEIGHTS)
    for k in list(w):
        if k not in ("frame", "to_new", "back") and rng.random() < 0.2:
            w[k] *= rng.choice([0, 0.3, 3])
    steps = [{"op": "frame", "s": rng.randrange(10 ** 9)}, {"op": "to_new", "s": rng.randrange(10 ** 9), "f": 0}]
    for _ in range(rng.randint(4, 16) if tier == "quick" or rng.random() < 0.7 else rng.randint(10, 40)):
        steps.append({"op": weighted(rng, w), "s": rng.randrange(10 ** 9), "f": rng.randrange(MAX)})
    return {"cfg": {"nan": rng.choice([0, 0, 0.15]), "odd": rng.choice([0, 0.1, 0.4])}, "steps": steps}


def simplify(plan):
    for key in ("nan", "odd"):
        if plan["cfg"][key]:
            yield dict(plan, cfg=dict(plan["cfg"], **{key: 0}))
    for i, s in enumerate(plan["steps"]):
        if s.get("f"):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, f=0)] + plan["steps"][i + 1:])


# ------------------------------------------------------------------ reference


def regrid(values, source, target, average):
    """Values on another time grid."""
    if len(values) < 3:
        raise Refused("too few values")
    if list(source) == list(target):
        return list(values), 0.0
    if any(math.isnan(x) for x in values):
        raise Unknown
    over = max(source[0] - target[0], target[-1] - source[-1])
    if average and 0 < over < 0.05 * min(b - a for a, b in zip(target, target[1:])):
        raise Unknown  # (averages are integrated numerically: hardly outside)
    try:
        new = tconv(values, np.array(source), np.array(target), average, "none")
    except Insufficient:
        raise Refused("outside")
    new = [float(x) for x in new]
    scale = max([abs(x) for x in values] + [abs(x) for x in new])
    return new, accuracy(average, np.array(source), np.array(target), "none") * scale


def slope_tol(a, b, tol):
    """Tolerance in another unit."""
    if a == b:
        return tol
    x, y = convert([0.0, tol], a, b, None)
    return abs(y - x)


class P:
    """A timeseries parameter."""

    def __init__(self, average, unit, grid, values, tol=0.0):
        self.average, self.unit, self.grid, self.values, self.tol = average, unit, list(grid), list(values), tol

    def read(self, unit, grid):
        if self.grid[0] > grid[1]:
            raise Refused("too far outside")
        v, tol = regrid(self.values, self.grid, grid, self.average)
        w = convert(v, self.unit, unit, None)
        return w, slope_tol(self.unit, unit, self.tol + tol) + noise(self.unit, unit, v)

    def write(self, unit, grid, values):
        if self.grid[0] > grid[1]:
            raise Refused("too far outside")
        w = convert(values, unit, self.unit, None)
        v, tol = regrid(w, grid, self.grid, self.average)
        self.values, self.tol = v, tol + noise(unit, self.unit, values)

    def copy(self):
        return P(self.average, self.unit, self.grid, self.values, self.tol)


def noise(a, b, values):
    """Rounding of a unit conversion."""
    w = convert(values, a, b, None)
    x = 1e-11 * max([abs(x) for x in w if not math.isnan(x)] + [0.0])
    return x + (1e-9 if group_of(a) == "temperature" else 0.0)


class MSet:
    """Model of a parameter set."""

    def __init__(self):
        self.ts = {}  # (variable, region) -> P
        self.scalars = {}  # name -> (unit, value)
        self.generics = {}

    def copy(self):
        out = MSet()
        out.ts = {k: p.copy() for k, p in self.ts.items()}
        out.scalars = dict(self.scalars)
        out.generics = dict(self.generics)
        return out

    def write(self, variable, region, average, unit, grid, values):
        k = (variable, region)
        if k not in self.ts:
            for v, r in self.ts:
                if r == region and (v.startswith(variable + "|") or variable.startswith(v + "|")):
                    raise Refused("hierarchy")
            if group_of(unit) is None:
                raise Unknown
            p = P(average, unit, grid, [0.0] * len(values))
        else:
            p = self.ts[k].copy()
            if p.average != average:
                raise Refused("type")
        p.write(unit, grid, values)
        self.ts[k] = p


def averages_grid(times):
    return list(times) + [2 * times[-1] - times[-2]]


def scalar_factor(name, unit):
    return SCALARS[name][unit]


def to_set(model, mset):
    """Content of a parameter set after transferring a frame."""
    out = mset.copy()
    const = model.cols - {"variable", "region", "unit", "parameter_type"}
    if len({key_of(m, const) for m, _ in model.rows}) > 1:
        raise Refused("metadata differ")
    seen = set()
    for m, _ in model.rows:
        k = (m["variable"], m["region"])
        if k in seen:
            raise Refused("several timeseries for one parameter")
        seen.add(k)
    first = model.rows[0][0]
    if first.get("climate_model", "unspecified") != "unspecified":
        raise Refused("output data")
    for m, v in model.rows:
        if not (m["region"] + "|").startswith("World|"):
            raise Refused("region")
        if "parameter_type" in model.cols:
            if m["parameter_type"] not in ("average", "point"):
                raise Refused("parameter type")
            average = m["parameter_type"] == "average"
        else:
            average = is_average(m["variable"], m["unit"])
        grid = averages_grid(model.times) if average else model.times
        out.write(m["variable"], m["region"], average, m["unit"], grid, v)
    names = [META_SCALARS[c][0] for c in const if c in META_SCALARS]
    if len(set(names)) < len(names):
        raise Unknown  # one scalar in two columns
    for c in const:
        if c in META_SCALARS:
            name, unit = META_SCALARS[c]
            if not isinstance(first[c], float):
                raise Unknown
            if name in out.scalars:
                u, _ = out.scalars[name]
                out.scalars[name] = (u, first[c] * SCALARS[name][unit] / SCALARS[name][u])
            else:
                out.scalars[name] = (unit, first[c])
        elif c in GENERICS or c in ("model", "scenario", "climate_model"):
            out.generics[c] = first[c]
        else:
            raise Unknown
    return out


def refused_before(model):
    """Whether a frame is refused because of what it is (rather than because of one of its timeseries)."""
    const = model.cols - {"variable", "region", "unit", "parameter_type"}
    names = [(m["variable"], m["region"]) for m, _ in model.rows]
    return (len({key_of(m, const) for m, _ in model.rows}) > 1 or len(set(names)) < len(names)
            or model.rows[0][0].get("climate_model", "unspecified") != "unspecified")


META_SCALARS = {"{} ({})".format(n, u): (n, u) for n, us in SCALARS.items() for u in us}


def from_set(mset, times, defaults):
    """Frame with the content of a parameter set."""
    meta = dict(defaults)
    meta.update({k: norm(v) for k, v in mset.generics.items()})
    tol_meta = {}
    for n, (u, x) in mset.scalars.items():
        c = "{} ({})".format(n, u)
        meta[c] = x
        tol_meta[c] = 1e-11 * abs(x)
    out = MF(times, set(meta) | {"variable", "region", "unit", "parameter_type"}, [])
    if not mset.ts:
        raise Unknown
    for i, ((v, r), p) in enumerate(mset.ts.items()):
        grid = averages_grid(times) if p.average else times
        w, tol = p.read(p.unit, grid)
        out.rows.append((dict(meta, variable=v, region=r, unit=p.unit,
                              parameter_type="average" if p.average else "point"), w))
        out.tol[i] = tol
    return out


def align_scalars(exp, got):
    """Take over scalar metadata which agree within rounding."""
    for c in exp.cols & got.cols:
        if c in META_SCALARS and got.rows and exp.rows:
            a, b = exp.rows[0][0][c], got.rows[0][0][c]
            if isinstance(b, float) and a is not None and abs(a - b) <= 1e-9 * abs(a):
                for m, _ in exp.rows:
                    m[c] = b


# ------------------------------------------------------------------ state


class SetSlot:
    def __init__(self, lib, model):
        self.lib, self.model = lib, model
        self.locked = []  # (view, key, unit, grid, pending values)


class State(fw.State):
    def __init__(self, run, plan):
        super().__init__(run, plan)
        self.sets = []
        self.transfers = 0
        self.updated = 0
        self.dices = []

    def add_set(self, rng, lib, model):
        slot = SetSlot(lib, model)
        if len(self.sets) >= MAX:
            self.sets[rng.randrange(MAX)] = slot
        else:
            self.sets.append(slot)
        return slot

    def pick_set(self, step):
        return self.sets[step.get("f", 0) % len(self.sets)] if self.sets else None


def dt64(grid):
    return np.array(grid, dtype=np.int64).astype("datetime64[s]")


def check_set(slot, rng, what, kind):
    """Everything readable in a parameter set."""
    for (v, r), p in slot.model.ts.items():
        unit = rng.choice(UNITS[VARS[v]]) if VARS.get(v) == group_of(p.unit) else p.unit
        out = call(lambda: slot.lib.timeseries(  # pylint: disable=cell-var-from-loop
            v, unit, dt64(p.grid), region=r, timeseries_type="average" if p.average else "point").values)
        if not out.ok:
            raise Violation(kind, "{}: reading {} in {} raised {}".format(what, v, r, out))
        exp, tol = p.read(unit, p.grid)
        got = np.asarray(out.value, dtype=float)
        if len(got) != len(exp) or not all(
                abs(x - y) <= tol or (math.isnan(x) and math.isnan(y)) for x, y in zip(exp, got)):
            raise Violation(kind, "{}: {} in {} is {} expected {} {}".format(what, v, r, fmt(got), fmt(exp), unit))
        info = slot.lib.info(v, region=r)
        if info is None or info.unit != p.unit:
            raise Violation(kind, "{}: unit of {} in {} is {} expected {}".format(
                what, v, r, info and info.unit, p.unit))
    for n, (u, x) in slot.model.scalars.items():
        out = call(lambda: slot.lib.scalar(n, u).value)  # pylint: disable=cell-var-from-loop
        if not out.ok or not abs(out.value - x) <= 1e-9 * abs(x):
            raise Violation(kind, "{}: {} is {} expected {} {}".format(what, n, out.value if out.ok else out, x, u))
    for n, x in slot.model.generics.items():
        out = call(lambda: slot.lib.generic(n).value)  # pylint: disable=cell-var-from-loop
        if not out.ok or norm(out.value) != norm(x):
            raise Violation(kind, "{}: {} is {} expected {!r}".format(what, n, repr(out.value) if out.ok else out, x))


def verify(st, rng, what):
    fw.verify(st, what, "changed-by-other")
    for i, slot in enumerate(st.sets):
        check_set(slot, rng, "{}: set {}".format(what, i), "set-changed-by-other")


def execute(plan, run):
    st = State(run, plan)
    try:
        for i, step in enumerate(plan["steps"]):
            rng = rng_for("transfer", step["s"])
            run.stats[step["op"]] += 1
            try:
                res = globals()["h_" + step["op"]](st, step, rng) or "skip"
                verify(st, rng, res)
            except Violation as v:
                v.detail = "step {} ({}): {}".format(i, step["op"], v.detail)
                v.step = i
                raise
            run.log(i, step["op"], res, *[s.model.text() for s in st.slots if s.model.unique()])
            run.signature.append((step["op"], res.split(" ")[0]))
            run.states.add(stable_hash([(len(s.model.rows), len(s.model.times), sorted(s.model.cols)) for s in st.slots]
                                       + [(sorted(s.model.ts), len(s.locked)) for s in st.sets]))
    finally:
        for d in st.dices:
            d.clear()
    run.nontrivial = st.transfers > 1 and st.updated > 0


# ------------------------------------------------------------------ operations: frames


def draw(rng, cfg, times=None, near=None):
    """A frame to be transferred."""
    times = times or fw.draw_times(rng)
    while len(times) < 3:
        times = fw.draw_times(rng)
    odd = rng.random() < cfg["odd"]
    meta = {"model": rng.choice(fw.MODELS), "scenario": rng.choice(fw.SCENARIOS)}
    if rng.random() < 0.3:
        meta["climate_model"] = "unspecified"
    for c in rng.sample(sorted(META_SCALARS), rng.randint(0, 2)):
        n = META_SCALARS[c][0]
        if not any(META_SCALARS[d][0] == n for d in meta if d in META_SCALARS):
            meta[c] = round(rng.uniform(0.5, 5), 3)
    for c in rng.sample(sorted(GENERICS), rng.randint(0, 2)):
        meta[c] = rng.choice(GENERICS[c])
    typed = rng.random() < 0.5
    rows = []
    probe = MSet()
    for _ in range(rng.randint(1, 6)):
        if near and rng.random() < 0.6:
            v, r = rng.choice(sorted(near))
        else:
            v, r = rng.choice(sorted(VARS)), rng.choice(REGIONS)
        if v not in VARS:
            continue
        m = dict(meta, variable=v, region=r, unit=rng.choice(UNITS[VARS[v]]))
        average = is_average(v, m["unit"])
        if typed:
            if near and (v, r) in near and rng.random() < 0.9:
                average = near[v, r].average
            elif rng.random() < 0.4:
                average = not average
            m["parameter_type"] = "average" if average else "point"
        scale = rng.choice([1.0, 10.0, 1000.0])
        w = [round(rng.uniform(-1, 1) * scale, 3) for _ in times]
        w = [NAN if rng.random() < cfg["nan"] else x for x in w]
        if all(math.isnan(x) for x in w):
            w[0] = 1.0
        if not odd:
            try:
                if (v, r) in probe.ts:
                    continue
                probe.write(v, r, average, m["unit"], averages_grid(times) if average else times, w)
            except (Refused, Unknown):
                continue
        rows.append((m, w))
    if odd and rows:
        what = rng.choice(["region", "meta", "climate_model", "type", "none", "twice", "twice"])
        m = rng.choice(rows)[0]
        if what == "twice":  # the same once more in another unit or as another type
            if typed and rng.random() < 0.5:
                again = dict(m, parameter_type="point" if m["parameter_type"] == "average" else "average")
            else:
                again = dict(m, unit=rng.choice([u for u in UNITS[VARS[m["variable"]]] if u != m["unit"]] or [m["unit"]]))
            rows.insert(rng.randrange(len(rows) + 1), (again, [1.0 for _ in times]))
        if what == "region":
            m["region"] = rng.choice(["Africa", "Worldwide"])
        elif what == "meta":
            m["scenario"] = "another one"
        elif what == "climate_model":
            for m, _ in rows:
                m["climate_model"] = "MAGICC"
        elif what == "type" and typed:
            m["parameter_type"] = "integral"
    cols = ["model", "scenario", "region", "variable", "unit"] + [c for c in (rows[0][0] if rows else [])]
    seen, kept = set(), []
    for m, w in rows:
        k = key_of(m, cols)
        if k not in seen:
            seen.add(k)
            kept.append((m, w))
    return MF(times, set(cols), kept).compact()


def h_frame(st, step, rng):
    near = rng.choice(st.sets).model.ts if st.sets and rng.random() < 0.5 else None
    times = rng.choice(st.slots).model.times if st.slots and rng.random() < 0.5 else None
    model = draw(rng, st.cfg, times, near)
    if not model.rows or len(model.times) < 3:
        return None
    out = call(frame_of, model, rng)
    if not out.ok:
        raise Violation("refused", "new frame: {}\n{}".format(out, model.text()))
    compare(model, look(out.value, "new frame"), "new frame", "wrong-result")
    st.add(rng, out.value, model)
    return "frame"


def frame_of(m, rng):
    data = np.array([v for _, v in m.rows]).T
    cols = fw.columns_for(rng, m)
    _, index = fw.index_for(rng, m.times)
    return L["Frame"](data, index=index, columns=cols)


def h_change(st, step, rng):
    """Changes of a frame, in place."""
    slot = st.pick(step)
    if slot is None:
        return None
    st.updated += 1
    how = rng.choice(["set_meta", "rename", "convert_unit", "scribble", "scribble", "time_points", "append"])
    if how == "set_meta":
        c = rng.choice(["note", "num", "ECS (K)"])
        x = round(rng.uniform(1, 5), 2)
        x = "n{}".format(x) if c == "note" else x
        exp = slot.model.set_meta(c, x)
        out = call(slot.frame.set_meta, x, c)
    elif how == "rename":
        col = rng.choice(["scenario", "region", "variable"])
        m = rng.choice(slot.model.rows)[0]
        new = {"scenario": "renamed", "region": rng.choice(REGIONS), "variable": rng.choice(sorted(VARS))}[col]
        if group_of(m["unit"]) != VARS.get(new) and col == "variable":
            return None
        mapping = {col: {m[col]: new}}
        try:
            exp = slot.model.rename(mapping)
        except Refused:
            return None
        out = call(slot.frame.rename, mapping, inplace=True)
    elif how == "convert_unit":
        m = rng.choice(slot.model.rows)[0]
        unit = rng.choice(UNITS[VARS[m["variable"]]]) if m["variable"] in VARS else m["unit"]
        if group_of(m["unit"]) != group_of(unit):
            return None
        kw = {"variable": m["variable"]}
        try:
            exp, _ = slot.model.convert_unit(unit, None, kw)
        except (Refused, Unknown):
            return None
        if not exp.unique():
            return None
        out = call(slot.frame.convert_unit, unit, inplace=True, **kw)
        if out.ok:
            exp = None  # (what it does is C13's)
    elif how == "append":
        v = [round(rng.uniform(-1, 1), 3) for _ in slot.model.times]
        m = dict(slot.model.rows[0][0], variable="Sea Level", unit="m", region=rng.choice(REGIONS))
        if "parameter_type" in slot.model.cols:
            m["parameter_type"] = "point"
        exp = slot.model.copy()
        exp.rows.append((m, v))
        exp.tol = {i: 1e-11 * max(abs(x) for x in w if not math.isnan(x)) for i, (_, w) in enumerate(exp.rows)}
        if not exp.unique() or exp.missing():
            return None
        more = MF(slot.model.times, slot.model.cols, [(m, v)])
        out = call(lambda: slot.frame.append(frame_of(more, rng), inplace=True))
    else:
        obj = slot.frame.values if how == "scribble" else slot.frame.time_points
        try:
            obj[...] = obj[::-1].copy() if how == "time_points" else -77.25
        except (TypeError, ValueError):
            pass
        return how
    if not out.ok:
        raise Violation("refused", "{}: {}".format(how, out))
    got = look(slot.frame, how)
    if exp is not None:
        compare(exp, got, how, "wrong-result")
    slot.model = got
    return how


# ------------------------------------------------------------------ operations: transfers


def transfer(st, slot, target, model, what, fault=None):
    """Frame to set; (outcome, expected content)."""
    return fw.attempt(st, what, lambda: slot.frame.to_parameterset(*([] if target is None else [target])),
                      lambda: to_set(slot.model, model), fault)


def h_to_new(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows:
        return None
    lib = L["ParameterSet"]() if rng.random() < 0.4 else None
    out, exp = transfer(st, slot, lib, MSet(), "to_parameterset")
    if not out.ok:
        st.run.probes["transfer refused"] += 1
        return "refused"
    if lib is not None and out.value is not lib:
        raise Violation("wrong-result", "to_parameterset returned another parameter set")
    if exp is None:
        return "unknown"
    st.transfers += 1
    target = st.add_set(rng, out.value, exp)
    check_set(target, rng, "to_parameterset", "wrong-result")
    # and back at once: complete round trip
    if rng.random() < 0.7:
        round_trip(st, slot, target)
    return "to_new"


def round_trip(st, slot, target):
    """The frame comes back as it was, whatever else is known about it."""
    out = call(L["back"], target.lib, slot.frame.time_points)
    if not out.ok:
        raise Violation("refused", "and back: {}".format(out))
    got = look(out.value, "and back")
    exp = slot.model.copy()
    add = {}
    if "climate_model" not in exp.cols:
        add["climate_model"] = "unspecified"
    for m, _ in exp.rows:
        m.update(add)
        m["parameter_type"] = "average" if target.model.ts[m["variable"], m["region"]].average else "point"
    exp.cols |= set(add) | {"parameter_type"}
    exp.tol = {i: 1e-6 * max([abs(x) for x in v if not math.isnan(x)] + [0.0]) for i, (_, v) in enumerate(exp.rows)}
    align_scalars(exp, got)
    compare(exp, got, "and back", "round-trip")
    st.transfers += 1
    st.run.probes["round trip"] += 1


def h_to_existing(st, step, rng):
    slot, target = st.pick(step), st.pick_set(dict(step, f=rng.randrange(MAX)))
    if slot is None or target is None or not slot.model.rows:
        return None
    out, exp = transfer(st, slot, target.lib, target.model, "to_parameterset (existing)")
    if not out.ok:
        if refused_before(slot.model):
            check_set(target, rng, "refused to_parameterset (existing)", "changed-by-refused")
            st.run.probes["frame refused as a whole"] += 1
            return "refused whole"
        st.sets.remove(target)  # may have been written partly
        st.run.probes["transfer into existing set refused"] += 1
        return "refused"
    if out.value is not target.lib:
        raise Violation("wrong-result", "to_parameterset returned another parameter set")
    if exp is None:
        st.sets.remove(target)
        return "unknown"
    st.transfers += 1
    st.run.probes["transfer into existing set"] += 1
    target.model = exp
    forget_locked(target)
    check_set(target, rng, "to_parameterset (existing)", "wrong-result")
    return "to_existing"


def forget_locked(target):
    """Pending writes stay pending whatever is written meanwhile."""


def times_for(rng, target):
    """Times to extract at."""
    ps = list(target.model.ts.values())
    if not ps:
        return None
    p = rng.choice(ps)
    times = p.grid[:-1] if p.average else p.grid
    r = rng.random()
    if r < 0.65:
        return times
    if r < 0.8:
        k = rng.randint(0, max(0, len(times) - 3))
        return times[k:]
    if r < 0.9:
        return sorted(rng.sample(times, rng.randint(2, len(times))))
    return fw.draw_times(rng)


def h_back(st, step, rng):
    target = st.pick_set(step)
    if target is None:
        return None
    times = times_for(rng, target)
    if times is None:
        return None
    kw = {}
    for k in ("model", "scenario", "climate_model"):
        if rng.random() < 0.3:
            kw[k] = rng.choice(["given", "x.y"])
    defaults = dict({"model": "unspecified", "scenario": "unspecified", "climate_model": "unspecified"}, **kw)
    spelled = [to_dt(t) for t in times] if rng.random() < 0.3 else dt64(times)
    out, exp = fw.attempt(st, "convert_openscm_to_scmdataframe",
                          lambda: L["back"](target.lib, spelled, **kw),
                          lambda: from_set(target.model, times, defaults))
    if not out.ok:
        return "refused"
    if exp is None:
        return "unknown"
    got = look(out.value, "back")
    align_scalars(exp, got)
    compare(exp, got, "convert_openscm_to_scmdataframe", "wrong-result")
    st.transfers += 1
    if not isinstance(spelled, list):
        spelled[:] = spelled[0]  # the caller's array
    st.add(rng, out.value, got)
    if target.locked:
        st.run.probes["extracted while writes were pending"] += 1
    return "back"


def h_back_refused(st, step, rng):
    """Metadata of a region cannot be extracted; a set which has some is refused and stays as it is."""
    slot = st.pick(step)
    if slot is None or not slot.model.rows:
        return None
    try:
        exp = to_set(slot.model, MSet())
    except (Refused, Unknown):
        return None
    lib = L["ParameterSet"]()
    out = call(slot.frame.to_parameterset, lib)
    if not out.ok:
        raise Violation("refused", "to_parameterset: {}".format(out))
    if rng.random() < 0.5:
        view = lib.scalar("Regional", "K", region=("World", "NH"))
    else:
        view = lib.generic("Regional", region=("World", "NH"))
    view.value = 2.5
    out = call(L["back"], lib, dt64(slot.model.times))
    if out.ok:
        raise Violation("not-refused", "metadata of World|NH extracted: {}".format(out.value.meta))
    if not isinstance(out.exc, ValueError):
        raise Violation("wrong-refusal", "metadata of World|NH: {}".format(out))
    if view.value != 2.5:
        raise Violation("changed-by-refused", "metadata of World|NH is {} now".format(view.value))
    check_set(SetSlot(lib, exp), rng, "refused extraction", "changed-by-refused")
    st.run.probes["extraction refused"] += 1
    return "back refused"


def h_fault(st, step, rng):
    """A transfer in which a numerical routine fails; then once more."""
    fault = {"site": rng.choice(["interp1d", "interp_call", "quad", "to"]), "exc": rng.choice(sorted(EXCEPTIONS)),
             "n": rng.choice([0, 0, 1, 2, rng.randint(0, 20)])}
    if rng.random() < 0.5:
        slot = st.pick(step)
        if slot is None or not slot.model.rows:
            return None
        try:
            exp = to_set(slot.model, MSet())
        except (Refused, Unknown):
            return None
        lib = L["ParameterSet"]()
        out, _ = transfer(st, slot, lib, MSet(), "to_parameterset with a fault", fault)
        if not out.ok:
            st.updated += 1
            verify(st, rng, "failed to_parameterset")
            out = call(slot.frame.to_parameterset, lib)
            if not out.ok:
                raise Violation("refused", "to_parameterset after it failed: {}".format(out))
            st.run.probes["transfer repeated after a fault"] += 1
        check_set(st.add_set(rng, lib, exp), rng, "to_parameterset after a fault", "wrong-result")
        return "fault to"
    target = st.pick_set(step)
    times = times_for(rng, target) if target else None
    if times is None:
        return None
    defaults = {"model": "unspecified", "scenario": "unspecified", "climate_model": "unspecified"}
    try:
        exp = from_set(target.model, times, defaults)
    except (Refused, Unknown):
        return None
    fn = lambda: L["back"](target.lib, dt64(times))  # noqa: E731
    out, _ = fw.attempt(st, "extraction with a fault", fn, lambda: exp, fault)
    if not out.ok:
        st.updated += 1
        verify(st, rng, "failed extraction")
        out = call(fn)
        if not out.ok:
            raise Violation("refused", "extraction after it failed: {}".format(out))
        st.run.probes["transfer repeated after a fault"] += 1
    got = look(out.value, "extraction after a fault")
    align_scalars(exp, got)
    compare(exp, got, "extraction after a fault", "wrong-result")
    return "fault back"


# ------------------------------------------------------------------ operations: sets


def draw_values(rng, n):
    scale = rng.choice([1.0, 10.0, 1000.0])
    return [round(rng.uniform(-1, 1) * scale, 3) for _ in range(n)]


def view_of(target, key, unit, grid):
    p = target.model.ts[key]
    return target.lib.timeseries(key[0], unit, dt64(grid), region=key[1],
                                 timeseries_type="average" if p.average else "point")


def h_write(st, step, rng):
    target = st.pick_set(step)
    if target is None or not target.model.ts:
        return None
    key = rng.choice(sorted(target.model.ts))
    p = target.model.ts[key]
    unit = rng.choice(UNITS[VARS[key[0]]]) if VARS.get(key[0]) == group_of(p.unit) else p.unit
    n = len(p.grid) - (1 if p.average else 0)
    out = call(view_of, target, key, unit, p.grid)
    if not out.ok:
        raise Violation("refused", "view of {}: {}".format(key, out))
    view = out.value
    st.updated += 1
    if rng.random() < 0.5:
        values = draw_values(rng, n)
        out = call(lambda: setattr(view, "values", values))
        p.write(unit, p.grid, values)
    else:
        i, x = rng.randrange(n), round(rng.uniform(-10, 10), 3)
        values, tol = p.read(unit, p.grid)
        values[i] = x

        def put():
            view.values[i] = x

        out = call(put)
        p.write(unit, p.grid, values)
        p.tol += slope_tol(unit, p.unit, tol)
    if not out.ok:
        raise Violation("refused", "writing {}: {}".format(key, out))
    return "write"


def h_lock(st, step, rng):
    target = st.pick_set(step)
    if target is None or not target.model.ts or len(target.locked) >= 2:
        return None
    key = rng.choice(sorted(target.model.ts))
    if any(k == key for _, k, _, _, _ in target.locked):
        return None
    p = target.model.ts[key]
    view = view_of(target, key, p.unit, p.grid)
    values = draw_values(rng, len(p.grid) - (1 if p.average else 0))
    view.lock()
    view.values = values
    target.locked.append((view, key, p.unit, list(p.grid), values))
    return "lock"


def h_unlock(st, step, rng):
    target = st.pick_set(step)
    if target is None or not target.locked:
        return None
    view, key, unit, grid, values = target.locked.pop(rng.randrange(len(target.locked)))
    out = call(view.unlock)
    if not out.ok:
        raise Violation("refused", "unlock: {}".format(out))
    target.model.ts[key].write(unit, grid, values)
    st.updated += 1
    return "unlock"


def h_scalar(st, step, rng):
    target = st.pick_set(step)
    if target is None:
        return None
    n = rng.choice(sorted(SCALARS))
    u, x = rng.choice(sorted(SCALARS[n])), round(rng.uniform(0.5, 5), 3)
    out = call(lambda: setattr(target.lib.scalar(n, u), "value", x))
    if not out.ok:
        raise Violation("refused", "scalar {}: {}".format(n, out))
    if n in target.model.scalars:
        v = target.model.scalars[n][0]
        target.model.scalars[n] = (v, x * SCALARS[n][u] / SCALARS[n][v])
    else:
        target.model.scalars[n] = (u, x)
    st.updated += 1
    return "scalar"


def h_generic(st, step, rng):
    target = st.pick_set(step)
    if target is None:
        return None
    n = rng.choice(sorted(GENERICS) + ["model", "scenario"])
    x = rng.choice(GENERICS.get(n, ["another"]))
    out = call(lambda: setattr(target.lib.generic(n), "value", x))
    if not out.ok:
        raise Violation("refused", "generic {}: {}".format(n, out))
    target.model.generics[n] = x
    st.updated += 1
    return "generic"


def h_parameter(st, step, rng):
    """A new parameter in a set."""
    target = st.pick_set(step)
    if target is None:
        return None
    v, r = rng.choice(sorted(VARS)), rng.choice(REGIONS)
    if (v, r) in target.model.ts:
        return None
    unit = rng.choice(UNITS[VARS[v]])
    average = rng.random() < 0.5
    times = times_for(rng, target) or fw.draw_times(rng)
    if len(times) < 3:
        return None
    grid = averages_grid(times) if average else times
    values = draw_values(rng, len(times))
    model = target.model.copy()
    try:
        model.write(v, r, average, unit, grid, values)
    except (Refused, Unknown):
        return None  # what is refused is C03's

    def put():
        name = tuple(v.split("|")) if rng.random() < 0.5 else v
        region = tuple(r.split("|")) if rng.random() < 0.5 else r
        target.lib.timeseries(name, unit, dt64(grid), region=region,
                              timeseries_type="average" if average else "point").values = values

    out = call(put)
    if not out.ok:
        raise Violation("refused", "new parameter {} in {}: {}".format(v, r, out))
    target.model = model
    st.updated += 1
    return "parameter"


# ------------------------------------------------------------------ models

DICE_OUT = [(("Pool", "CO2", "Atmosphere"), "GtC"), (("Pool", "CO2", "Ocean", "lower"), "MtC"),
            (("Pool", "CO2", "Ocean", "shallow"), "GtC"), (("Surface Temperature", "Increase"), "mK"),
            (("Ocean Temperature", "Increase"), "delta_degC"), (("Radiative Forcing", "CO2"), "W/m^2")]


def emissions_frame(rng, n):
    start = 2010
    v = [round(rng.uniform(5, 15), 3) for _ in range(n)]
    return L["Frame"](np.array([v]).T, index=np.array([start + i for i in range(n)]), columns=dict(
        model=["a_iam"], scenario=["a_scenario"], region=["World"], variable=["Emissions|CO2"], unit=["GtC/yr"],
        parameter_type=["average"])), start, v


def h_model(st, step, rng):
    """A model keeps updating its output while others extract it."""
    n = rng.randint(4, 6)
    frame, start, v = emissions_frame(rng, n + 2)
    inputs, out = frame.to_parameterset(), L["ParameterSet"]()
    times = np.array(["{}-01-01".format(start)], dtype="datetime64[s]") + np.arange(n) * np.timedelta64(365, "D")
    inputs.generic("Start Time").value = times[0]
    inputs.generic("Stop Time").value = times[-1]
    st.dices.append([L["OpenSCM"]("DICE", inputs, out)])
    model = st.dices[-1][0]
    res = call(model.reset_stepping)
    if not res.ok:
        raise Violation("refused", "reset: {}".format(res))
    views = []
    taken = []
    for k in range(n - 1):
        if rng.random() < 0.8:
            got = call(L["back"], out, times, climate_model="DICE")
            if not got.ok:
                raise Violation("refused", "extraction after {} steps: {}".format(k, got))
            taken.append((k, got.value, look(got.value, "output")))
            shown = {(m["variable"], m["unit"]): w for m, w in taken[-1][2].rows}
            for name, _ in DICE_OUT:
                info = out.info(name)
                average = name[0] == "Radiative Forcing"
                grid = averages_grid([int(t) for t in times.astype(np.int64)]) if average else times.astype(np.int64)
                w = out.timeseries(name, info.unit, dt64(grid),
                                   timeseries_type="average" if average else "point").values
                g = shown.get(("|".join(name), info.unit))
                if g is None or not np.array_equal(np.asarray(w, dtype=float)[:k + 1], np.asarray(g)[:k + 1]):
                    raise Violation("wrong-result", "output {} after {} steps: {} expected {}".format(
                        name, k, g, fmt(w)))
            if len(shown) != len(DICE_OUT):
                raise Violation("wrong-result", "output after {} steps: {}".format(k, sorted(shown)))
        res = call(model.step)
        if not res.ok:
            raise Violation("refused", "step: {}".format(res))
        for j, f, seen in taken:
            compare(seen, look(f, "output"), "output extracted after {} steps, now {}".format(j, k + 1),
                    "changed-by-other")
        if rng.random() < 0.4:
            frame.values[...] = 0.0
            frame.convert_unit("MtCO2/yr", inplace=True)
    del views
    st.updated += 1
    st.transfers += len(taken)
    st.run.probes["extracted while a model steps"] += len(taken)
    return "model {}".format(len(taken))


def h_pipeline(st, step, rng):
    """Emissions from a data frame through a model into a data frame, against writing them directly."""
    n = rng.randint(4, 6)
    frame, start, v = emissions_frame(rng, n + 2)
    times = np.array(["{}-01-01".format(start)], dtype="datetime64[s]") + np.arange(n) * np.timedelta64(365, "D")
    direct = L["ParameterSet"]()
    grid = np.array(["{}-01-01".format(start + i) for i in range(n + 3)], dtype="datetime64[s]")
    grid[-1] = grid[-2] + (grid[-2] - grid[-3])
    direct.timeseries("Emissions|CO2", "GtC/yr", grid, timeseries_type="average").values = v
    results = []
    for inputs in (frame.to_parameterset(), direct):
        inputs.generic("Start Time").value = times[0]
        inputs.generic("Stop Time").value = times[-1]
        out = L["ParameterSet"]()
        st.dices.append([L["OpenSCM"]("DICE", inputs, out)])
        res = call(st.dices[-1][0].run)
        if not res.ok:
            raise Violation("refused", "run: {}".format(res))
        results.append(look(L["back"](out, times, climate_model="DICE"), "output"))
    for i, (_, w) in enumerate(results[1].rows):
        results[1].tol[i] = 1e-7 * max(abs(x) for x in w)
    compare(results[1], results[0], "results for emissions taken from a frame", "wrong-result")
    st.transfers += 2
    st.run.probes["frame to model to frame"] += 1
    return "pipeline"
