"""
World of data frames: a population of frames derived from each other, tables and arrays taken out, arrays and tables put
in, worked on by several holders in the order the scheduler decides.

Reference: sim.frames_model, one model per frame.
"""
import copy
import datetime
import importlib
import math
import os
import re

import numpy as np

from ..common import Violation, call, rng_for, stable_hash, weighted
from ..frames_model import (DAYS, MONTHS, MF, NAN, Refused, Unknown, compare, convert, duplicates, key_of, look, merge,
                            norm, to_dt, to_secs, year_secs)
from ..seams import ARM, EXCEPTIONS, SITES

BATCH = 1
L = {}
MAX = 6

VARIABLES = [("Emissions|CO2", ["GtC/yr", "MtCO2/yr", "ktC / month"]), ("Emissions|CO2|AFOLU", ["GtC/yr", "GtCO2/yr"]),
             ("Emissions|CH4", ["MtCH4/yr", "GtCH4/yr"]), ("Surface Temperature", ["K", "degC"]),
             ("Radiative Forcing", ["W/m^2", "mW/m^2"]), ("Radiative Forcing|CO2", ["W/m^2"]),
             ("Heat Uptake|Ocean (700m)", ["W/m^2"]), ("Atmospheric Concentrations|CO2", ["ppm", "ppb"]),
             ("Primary Energy", ["widgets"]), ("Heat Flux", ["widgets"]), ("Sea Level", ["m", "cm"])]
UNIT_POOL = ["GtC/yr", "MtCO2/yr", "MtCH4/yr", "K", "degC", "W/m^2", "mW/m^2", "ppm", "m", "widgets", "GtXYZ"]
SCENARIOS = ["ssp1-2.6", "a_scenario", "a_scenario2", "rcp(45)", "b+c", "x.y"]
MODELS = ["a_iam", "unspecified", "m$1"]
REGIONS = ["World", "World|R5ASIA", "World|R5ASIA|China", "World|NH"]
EXTRA = {"climate_model": ["unspecified", "MAGICC", "FaIR", ""], "note": ["x", "y", "long note"], "num": [3.2, 1.0, -999.0, 7],
         "ensemble": [0, 1, 2]}
TIMES = {
    "annual": [(y, 1, 1) for y in range(2000, 2007)],
    "decades": [(y, 1, 1) for y in (1990, 2000, 2010, 2020)],
    "centuries": [(y, 1, 1) for y in (1500, 1750, 2000, 2500)],
    "days": [(2000, 1, 1), (2000, 4, 10), (2001, 2, 4), (2002, 6, 19), (2004, 2, 9), (2005, 6, 23)],
    "months": [(2001, 11, 1), (2001, 12, 1), (2002, 1, 1), (2002, 2, 1), (2002, 3, 1)],
    "mid": [(y, 7, 1) for y in range(1999, 2005)],
    "hours": [(2000, 1, 1, 0), (2000, 1, 1, 6), (2000, 1, 2, 18), (2000, 1, 5, 12)],
    "two": [(2000, 1, 1), (2003, 1, 1)],
}


def setup(req):
    from .. import seams

    seams.install()
    import pandas as pd

    import openscm.scmdataframe
    import openscm.scmdataframe.base as base
    from openscm.core.units import UnitConverter

    L["pd"] = pd
    L["Frame"] = openscm.scmdataframe.ScmDataFrame
    L["df_append"] = openscm.scmdataframe.df_append
    L["Iam"] = getattr(base, "LongDatetimeIamDataFrame", None) or importlib.import_module(
        "openscm.scmdataframe.pyam_compat").LongDatetimeIamDataFrame
    call(UnitConverter, "MtCH4/yr", "MtCO2/yr", "AR4GWP100")  # tables loaded once; histories of units are C11
    import openscm.scenarios

    L["rcps"] = openscm.scenarios.rcps
    L["rcps_model"] = look(L["rcps"])
    call(warm_up)


def warm_up():
    """What takes long the first time, done once before forking."""
    f = L["Frame"](np.zeros((3, 1)), index=np.array([2000, 2001, 2002]), columns=dict(
        model=["m"], scenario=["s"], region=["World"], variable=["Emissions|CO2"], unit=["GtC/yr"]))
    f.to_iamdataframe()
    f.interpolate(f.time_points)


# ------------------------------------------------------------------ generation

WEIGHTS = {
    "C13": {"create": 4, "copy": 2, "filter": 5, "rename": 3, "set_meta": 4, "set_time": 2, "interpolate": 4,
            "resample": 1, "convert_unit": 4, "process_over": 1, "relative": 1, "append": 4, "append_many": 1, "iam": 1,
            "take": 4, "scribble": 5, "rcps": 0.25, "refuse": 0.5},
    "C14": {"create": 3, "copy": 1, "filter": 3, "rename": 2, "set_meta": 2, "set_time": 1, "interpolate": 2,
            "resample": 0.5, "convert_unit": 3, "process_over": 0.5, "relative": 0.5, "append": 2, "append_many": 0.5,
            "iam": 0.5, "take": 1, "scribble": 1, "refuse": 9, "fault": 6},
    # without pyam
    "C19": {"create": 4, "copy": 2, "filter": 3, "rename": 2, "set_meta": 2, "set_time": 1, "interpolate": 2,
            "resample": 0.5, "convert_unit": 2, "process_over": 0.5, "relative": 0.5, "append": 3, "append_many": 1,
            "take": 1, "scribble": 1, "rcps": 0.25, "refuse": 2, "fault": 1, "missing": 6, "load": 3},
}


def generate(rng, check, idx, tier):
    w = dict(WEIGHTS[check])
    for k in list(w):
        if k not in ("create", "refuse", "fault") and rng.random() < 0.25:
            w[k] *= rng.choice([0, 0.3, 3])
    steps = [{"op": "create", "s": rng.randrange(10 ** 9)}]
    n = rng.randint(4, 14) if tier == "quick" or rng.random() < 0.7 else rng.randint(10, 40)
    for _ in range(n):
        steps.append({"op": weighted(rng, w), "s": rng.randrange(10 ** 9), "f": rng.randrange(MAX)})
    return {"check": check, "cfg": {"nan": rng.choice([0, 0, 0.15]), "extra": rng.choice([0, 1, 2])}, "steps": steps}


def simplify(plan):
    for key, v in (("nan", 0), ("extra", 0)):
        if plan["cfg"][key]:
            yield dict(plan, cfg=dict(plan["cfg"], **{key: v}))
    for i, s in enumerate(plan["steps"]):
        if s.get("f"):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, f=0)] + plan["steps"][i + 1:])


# ------------------------------------------------------------------ state


class Slot:
    """A frame with its model."""

    def __init__(self, frame, model, root):
        self.frame = frame
        self.model = model
        self.root = root


class State:
    def __init__(self, run, plan):
        self.run = run
        self.cfg = plan["cfg"]
        self.slots = []
        self.held = []  # (what, object, kept copy)
        self.inputs = []  # arrays and tables given by the caller: (what, object)
        self.step = 0
        self.families = 0
        self.refused = 0
        self.shared = 0

    def pick(self, step):
        return self.slots[step.get("f", 0) % len(self.slots)] if self.slots else None

    def add(self, rng, frame, model, root=None):
        if root is None:
            self.families += 1
            root = self.families
        slot = Slot(frame, model, root)
        if len(self.slots) >= MAX:
            self.slots[rng.randrange(MAX)] = slot
        else:
            self.slots.append(slot)
        return slot

    def hold(self, what, obj, seen):
        self.held.append((what, obj, seen))
        if len(self.held) > 8:
            self.held.pop(0)


def settle(slot, exp, what, kind="wrong-result"):
    """Check a frame against its expected content, then go on with what is shown."""
    got = look(slot.frame, what)
    compare(exp, got, what, kind)
    slot.model = got if all(v is not None for _, v in got.rows) else exp


def attempt(st, what, fn, expect, fault=None, unsure=False):
    """(outcome, expectation) of an operation; outcomes which differ in kind are violations."""
    exp = refusal = None
    try:
        exp = expect()
        if isinstance(exp, tuple):
            exp, more = exp
            unsure = unsure or more
    except Refused as e:
        refusal = e
    except Unknown:
        unsure = True
    if fault:
        ARM.set(fault)
    out = call(fn)
    fired = ARM.clear() if fault else 0
    if fired:
        st.run.faults[fault["site"] + ":" + fault["exc"]] += 1
    if out.ok:
        if refusal is not None:
            raise Violation("not-refused", "{} accepted although it has to be refused ({})".format(what, refusal))
        return out, exp
    st.refused += 1
    if not fired and refusal is None and not unsure:
        raise Violation("refused", "{} refused: {}".format(what, out))
    return out, None


def same(a, b):
    """Equality of tables and arrays taken out, missing values included."""
    pd = L["pd"]
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.index.names) == list(b.index.names)
    if isinstance(a, pd.Series):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        if a.dtype.kind == "f":
            return np.array_equal(a, b, equal_nan=True)
        return np.array_equal(a, b)
    return a == b


def verify(st, what, kind):
    """All frames show what their models say; everything taken out is as it was."""
    for slot in st.slots:
        got = look(slot.frame, what)
        compare(slot.model, got, what, kind)
    for name, obj, seen in st.held:
        if not same(obj, seen):
            raise Violation("taken-out-changed", "{} taken out earlier changed by {}: {} was {}".format(
                name, what, obj, seen))


def execute(plan, run):
    st = State(run, plan)
    used_rcps = False
    for i, step in enumerate(plan["steps"]):
        st.step = i
        rng = rng_for("frames", step["s"])
        run.stats[step["op"]] += 1
        if step["op"] == "rcps":
            used_rcps = True
        before = st.refused
        try:
            res = globals()["h_" + step["op"]](st, step, rng) or "skip"
            verify(st, res, "changed-by-failed" if st.refused > before else "changed-by-other")
        except Violation as v:
            v.detail = "step {} ({}): {}".format(i, step["op"], v.detail)
            v.step = i
            raise
        run.log(i, step["op"], res, *[s.model.text() for s in st.slots if s.model.unique()])
        run.signature.append((step["op"], res.split(" ")[0], st.refused - before))
        run.states.add(stable_hash([(s.root, len(s.model.rows), len(s.model.times), sorted(s.model.cols))
                                    for s in st.slots]))
    if used_rcps:
        compare(L["rcps_model"], look(L["rcps"]), "bundled scenarios", "changed-by-other")
    if plan["check"] == "C14":
        run.nontrivial = st.refused > 0
    else:
        run.nontrivial = st.shared > 0


# ------------------------------------------------------------------ creation


def draw_times(rng):
    name = rng.choice(sorted(TIMES))
    grid = TIMES[name]
    n = rng.randint(2 if rng.random() < 0.2 else 3, len(grid)) if len(grid) > 2 else 2
    k = rng.randint(0, len(grid) - n)
    return [to_secs(datetime.datetime(*t)) for t in grid[k:k + n]]


def draw_model(rng, cfg, times=None, nan=None, relative_to=None):
    times = times or draw_times(rng)
    nan = cfg["nan"] if nan is None else nan
    extra = rng.sample(sorted(EXTRA), rng.randint(0, cfg["extra"]))
    rows, seen = [], set()
    cols = ["model", "scenario", "region", "variable", "unit"] + extra
    for _ in range(rng.randint(1, 5)):
        var, units = rng.choice(VARIABLES)
        m = {"model": rng.choice(MODELS), "scenario": rng.choice(SCENARIOS), "region": rng.choice(REGIONS),
             "variable": var, "unit": rng.choice(units)}
        if relative_to and rng.random() < 0.5:
            m.update({k: v for k, v in rng.choice(relative_to).items() if k in m})
        for c in extra:
            m[c] = norm(rng.choice(EXTRA[c]))
        k = key_of(m, cols)
        if k in seen:
            continue
        seen.add(k)
        scale = rng.choice([1.0, 10.0, 1000.0])
        v = [round(rng.uniform(-1, 1) * scale, 3) for _ in times]
        for i in range(len(v)):
            if rng.random() < nan:
                v[i] = NAN
        rows.append((m, v))
    return MF(times, cols, rows)


def index_for(rng, times):
    """Spellings of a time axis."""
    dts = [to_dt(t) for t in times]
    kinds = ["dt", "dt64", "str", "date64"]
    if all(t == year_secs(d.year) for t, d in zip(times, dts)):
        kinds += ["years", "years_array", "floats", "yearstr"]
    if any(d.time() != datetime.time() for d in dts):
        kinds.remove("date64")
    kind = rng.choice(kinds)
    if kind == "dt":
        return kind, dts
    if kind == "dt64":
        return kind, np.array(dts, dtype="datetime64[s]")
    if kind == "date64":
        return kind, np.array(dts, dtype="datetime64[D]")
    if kind == "str":
        return kind, [d.strftime("%Y-%m-%d %H:%M:%S") for d in dts]
    if kind == "years":
        return kind, [d.year for d in dts]
    if kind == "years_array":
        return kind, np.array([d.year for d in dts])
    if kind == "floats":
        return kind, [float(d.year) for d in dts]
    return kind, [str(d.year) for d in dts]


def columns_for(rng, model):
    """columns argument: lists, lists of one or plain values."""
    cols = {}
    for c in sorted(model.cols):
        vals = [m.get(c) for m, _ in model.rows]
        if len(set(map(repr, vals))) == 1 and rng.random() < 0.5:
            cols[c] = vals[0] if rng.random() < 0.5 and vals[0] != "" else [vals[0]]
        else:
            cols[c] = vals
    return cols


def table_for(rng, model):
    """Wide table as in IAMC files."""
    pd = L["pd"]
    data = {}
    indexed = rng.random() < 0.3
    for c in sorted(model.cols):
        data[c.title() if c in ("model", "region") and not indexed and rng.random() < 0.3 else c] = [m.get(c) for m, _ in model.rows]
    kind, labels = index_for(rng, model.times)
    if kind == "floats":
        labels = [int(x) for x in labels]
    order = list(range(len(model.times)))
    rng.shuffle(order)
    labels = list(labels)
    for i in order:
        data[labels[i] if not isinstance(labels[i], np.datetime64) else pd.Timestamp(labels[i])
             if to_dt(0) <= to_dt(model.times[i]) < datetime.datetime(2200, 1, 1) else to_dt(model.times[i])] = [
                 v[i] for _, v in model.rows]
    df = pd.DataFrame(data)
    if indexed:
        names = sorted(model.cols)
        df = df.set_index(names)
    elif rng.random() < 0.3:
        df.index = [10 * i + 3 for i in range(len(df))]
    return df


def long_table_for(rng, model):
    pd = L["pd"]
    rows = []
    dts = [to_dt(t) for t in model.times]
    years = all(t == year_secs(d.year) for t, d in zip(model.times, dts)) and rng.random() < 0.5
    for m, v in model.rows:
        for d, x in zip(dts, v):
            if not math.isnan(x):
                rows.append(dict(m, value=x, **({"year": d.year} if years else {"time": d})))
    rng.shuffle(rows)
    df = pd.DataFrame(rows)
    if not years:
        df["time"] = df["time"].astype(object)
    return df


def make(st, rng, model):
    """Create a frame of the given content in some way; (frame or outcome, expected model, how)."""
    pd = L["pd"]
    ways = ["array", "array", "frame_array", "wide"]
    if not model.missing() and not model.has_nan():
        ways.append("long")
    if len(model.rows) == 1:
        ways.append("series")
    way = rng.choice(ways)
    exp = model.copy()
    if way in ("array", "frame_array"):
        data = np.array([v for _, v in model.rows]).T.reshape(len(model.times), len(model.rows))
        kind, index = index_for(rng, model.times)
        cols = columns_for(rng, model)
        given = pd.DataFrame(data) if way == "frame_array" else data
        keep = (given.copy(), copy.deepcopy(index), copy.deepcopy(cols))
        out = call(L["Frame"], given, index=index, columns=cols)
        for name, a, b in zip(("data", "index", "columns"), (given, index, cols), keep):
            if not same(a, b):
                raise Violation("argument-changed", "{} given to a new frame: {} was {}".format(name, a, b))
        st.inputs += [("data", given), ("index", index), ("columns", cols)]
        way += " " + kind
    elif way == "series":
        kind, index = index_for(rng, model.times)
        s = pd.Series(list(model.rows[0][1]), index=pd.Index(list(index), dtype=object))
        keep = s.copy()
        cols = columns_for(rng, model)
        out = call(L["Frame"], s, columns=cols)
        if not same(s, keep):
            raise Violation("argument-changed", "series given to a new frame: {} was {}".format(s, keep))
        st.inputs.append(("series", s))
    else:
        df = table_for(rng, model) if way == "wide" else long_table_for(rng, model)
        if way == "long" and rng.random() < 0.3:
            df = df.set_index([c for c in df.columns if c != "value"])["value"]
            way = "long series"
        keep = df.copy()
        out = call(L["Frame"], df)
        if not same(df, keep):
            raise Violation("argument-changed", "table given to a new frame: {} was {}".format(df, keep))
        st.inputs.append(("table", df))
        if way.startswith("long"):
            exp = exp.compact()
    del st.inputs[:-12]
    return out, exp, way


def h_create(st, step, rng):
    metas = [m for s in st.slots for m, _ in s.model.rows]
    model = draw_model(rng, st.cfg, relative_to=metas)
    if st.slots and rng.random() < 0.4:
        model = draw_model(rng, st.cfg, times=rng.choice(st.slots).model.times or None, relative_to=metas)
    out, exp, way = make(st, rng, model)
    if not out.ok:
        raise Violation("refused", "new frame ({}) refused: {}\n{}".format(way, out, exp.text()))
    slot = st.add(rng, out.value, exp)
    settle(slot, exp, "new frame from " + way)
    return "created " + way


def h_copy(st, step, rng):
    slot = st.pick(step)
    if slot is None:
        return None
    fn = rng.choice([slot.frame.copy, lambda: L["Frame"](slot.frame), lambda: copy.deepcopy(slot.frame)])
    out, exp = attempt(st, "copy", fn, slot.model.copy)
    new = st.add(rng, out.value, exp, slot.root)
    settle(new, exp, "copy")
    return "copied"


# ------------------------------------------------------------------ operations


def pattern(rng, model, col):
    """Filter value for a metadata column."""
    vals = sorted({m.get(col) for m, _ in model.rows}, key=str)
    texts = [v for v in vals if isinstance(v, str)]
    nums = [v for v in vals if isinstance(v, float)]
    if nums and (not texts or rng.random() < 0.5):
        v = rng.choice(nums)
        v = int(v) if v == int(v) and rng.random() < 0.3 else v
        return [v, rng.choice(nums)] if rng.random() < 0.3 else v
    opts = list(texts) + ["*", "zzz", ""]
    for t in texts:
        opts += [t[:3] + "*", "*" + t[-3:], "*" + t[1:-1] + "*", t.replace("|", "*"), t[:-1], t + "|*"]
    if col == "variable":
        opts += ["Emissions*", "Emissions|*", "*CO2", "*|CO2*", "Radiative Forcing"]
    if rng.random() < 0.3:
        return [rng.choice(opts) for _ in range(rng.randint(1, 3))]
    return rng.choice(opts)


def filter_args(rng, model, meta_only=False, n=None):
    kw = {}
    dts = [to_dt(t) for t in model.times]
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        if dts and not meta_only and rng.random() < 0.45:
            d = rng.choice(dts)
            what = rng.choice(["year", "year", "month", "day", "hour", "time"])
            if what == "year":
                kw["year"] = rng.choice([d.year, [d.year, rng.choice(dts).year], list(range(d.year, d.year + 3)), 1234])
            elif what == "month":
                name = MONTHS[d.month - 1]
                kw["month"] = rng.choice([d.month, [d.month, 5], name, name[:3], [name[:3], "Aug"],
                                          "{}-Dec".format(name[:3]), ["Jan-Mar", "Jul-Dec"]])
            elif what == "day":
                name = DAYS[d.weekday()]
                kw["day"] = rng.choice([d.day, [d.day, 10], name, [name, "Friday"], "Mon-Thu"])
            elif what == "hour":
                kw["hour"] = rng.choice([d.hour, [d.hour, 5]])
            else:
                kw["time"] = rng.choice([d, [d, rng.choice(dts)]])
        elif rng.random() < 0.15:
            kw["level"] = rng.choice([0, 1, 2, "0+", "1-", "1+", "0-"])
        else:
            col = rng.choice(sorted(model.cols))
            kw[col] = pattern(rng, model, col)
    return kw


def regexps(rng, kw, model):
    """Turn the patterns into regular expressions."""
    kw["regexp"] = True
    if "variable" in kw:
        kw.pop("level", None)
    for c in sorted(kw):
        if c in model.cols:
            vals = kw[c] if isinstance(kw[c], list) else [kw[c]]
            vals = [rng.choice([re.escape, lambda t: re.escape(t[:-1]) + ".?$", lambda t: "^.*" + re.escape(t[2:]),
                                lambda t: "(?i)" + re.escape(t.lower()), lambda t: re.escape(t) + "|nothing",
                                lambda t: "[^|]*$", lambda t: r".+\|.+"])(v.replace("*", ""))
                    if isinstance(v, str) else v for v in vals]
            kw[c] = vals if isinstance(kw[c], list) else vals[0]


def h_filter(st, step, rng, fault=None):
    slot = st.pick(step)
    if slot is None:
        return None
    kw = filter_args(rng, slot.model)
    if rng.random() < 0.2:
        regexps(rng, kw, slot.model)
    if rng.random() < 0.15:
        kw["has_nan"] = rng.random() < 0.3
    keep = rng.random() < 0.75
    inplace = rng.random() < 0.4
    given = copy.deepcopy(kw)
    what = "filter({}, keep={}, inplace={})".format(kw, keep, inplace)
    args = dict(kw)
    if not keep or rng.random() < 0.3:
        args["keep"] = keep
    if inplace:
        args["inplace"] = True
    out, exp = attempt(st, what, lambda: slot.frame.filter(**args), lambda: slot.model.filter(kw, keep))
    if kw != given:
        raise Violation("argument-changed", "{}: {} was {}".format(what, kw, given))
    return finish(st, rng, slot, out, exp, inplace, what)


def finish(st, rng, slot, out, exp, inplace, what):
    """After an operation in place or giving a new frame."""
    if not out.ok:
        return "refused " + what
    if inplace:
        if out.value is not None:
            raise Violation("wrong-result", "{} returned {}".format(what, out.value))
        if sum(s.root == slot.root for s in st.slots) > 1:
            st.shared += 1
        target = slot
    else:
        if not isinstance(out.value, type(slot.frame)) or out.value is slot.frame:
            raise Violation("wrong-result", "{} returned {}".format(what, out.value))
        compare(slot.model, look(slot.frame, what), what + ": frame worked on", "operand-changed")
        target = st.add(rng, out.value, exp, slot.root)
    if exp is None:
        target.model = look(target.frame, what)
    else:
        settle(target, exp, what)
    return what.split("(")[0] + (" inplace" if inplace else " new") + " " + what


def h_rename(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique():
        return None
    mapping = {}
    for _ in range(rng.choice([1, 1, 2])):
        col = rng.choice(sorted(c for c in slot.model.cols))
        vals = sorted({m.get(col) for m, _ in slot.model.rows if isinstance(m.get(col), str)})
        if not vals:
            continue
        a = rng.choice(vals)
        b = rng.choice(["new name", "other|name", rng.choice(vals) + "x", rng.choice(vals)])
        mapping[col] = {a: b}
        if rng.random() < 0.2:
            mapping[col][b + "?"] = "unused"
        if len(vals) > 1 and rng.random() < 0.3:  # swap
            mapping[col] = {vals[0]: vals[1], vals[1]: vals[0]}
    if not mapping:
        return None
    inplace = rng.random() < 0.4
    given = copy.deepcopy(mapping)
    what = "rename({}, inplace={})".format(mapping, inplace)
    out, exp = attempt(st, what, lambda: slot.frame.rename(mapping, inplace=inplace),
                       lambda: slot.model.rename(mapping))
    if mapping != given:
        raise Violation("argument-changed", "{}: {} was {}".format(what, mapping, given))
    return finish(st, rng, slot, out, exp, inplace, what)


def meta_value(rng, name):
    if name == "parameter_type":
        return rng.choice(["average", "point"])
    if name in EXTRA:
        return rng.choice(EXTRA[name])
    return rng.choice(["text", 1.5, 3, "other"])


def h_set_meta(st, step, rng):
    pd = L["pd"]
    slot = st.pick(step)
    if slot is None or not slot.model.unique():
        return None
    m = slot.model
    name = rng.choice(sorted(EXTRA) + ["parameter_type", "free", "scenario", "model", "region"])
    n = len(m.rows)
    how = rng.choice(["scalar", "list", "item", "item_list", "series", "indexed", "indexed", "frame_index", "label", "label"])
    # metadata in the order the frame shows it
    metas = look(slot.frame, "before").rows
    order = MF(m.times, m.cols, [(dict(a), dict((key_of(k, m.cols), v) for k, v in m.rows)[key_of(a, m.cols)])
                                 for a, _ in metas])
    if how in ("scalar", "item"):
        v = meta_value(rng, name)
        exp = order.set_meta(name, v)
        if not exp.unique():
            return None
        what = "set_meta({!r}, {!r})".format(v, name)
        fn = (lambda: slot.frame.set_meta(v, name=name)) if how == "scalar" else (
            lambda: slot.frame.__setitem__(name, v))
    elif how in ("list", "item_list"):
        v = [meta_value(rng, name) for _ in range(n)]
        exp = order.set_meta(name, v)
        if not exp.unique() or not n:
            return None
        what = "set_meta({!r}, {!r})".format(v, name)
        fn = (lambda: slot.frame.set_meta(v, name=name)) if how == "list" else (
            lambda: slot.frame.__setitem__(name, v))
    elif how == "label":
        # by the labels the timeseries have in the metadata table
        labels = list(slot.frame.meta.index)
        if not n or len(set(labels)) < n:
            return None
        some = rng.sample(range(n), rng.randint(1, n))
        v = [meta_value(rng, name) for _ in some]
        exp = order.copy()
        for i, x in zip(some, v):
            exp.rows[i][0][name] = norm(x)
        exp.cols.add(name)
        if not exp.unique():
            return None
        what = "set_meta({!r} for {} of {}, {!r})".format(v, [labels[i] for i in some], labels, name)
        idx = pd.Index([labels[i] for i in some])
        fn = rng.choice([lambda: slot.frame.set_meta(pd.Series(v, index=idx), name=name),
                         lambda: slot.frame.set_meta(v, name=name, index=idx),
                         lambda: slot.frame.__setitem__(name, pd.Series(v, index=idx))])
    else:
        cols = rng.sample(sorted(c for c in m.cols if c != name), rng.randint(1, min(3, len(m.cols) - 1)))
        if not n or m.missing(cols):
            return None
        keys = sorted({tuple(r.get(c) for c in cols) for r, _ in m.rows}, key=str)
        rng.shuffle(keys)
        if rng.random() < 0.5:
            keys = keys[:rng.randint(1, len(keys))]
        if how == "frame_index":
            v = meta_value(rng, name)
            mapping = {k: v for k in keys}
            idx = pd.DataFrame([list(k) for k in keys], columns=cols)
            if rng.random() < 0.5:
                idx["not a column"] = 1
            arg = v
        else:
            mapping = {k: meta_value(rng, name) for k in keys}
            idx = (pd.MultiIndex.from_tuples(keys, names=cols) if len(cols) > 1 else
                   pd.Index([k[0] for k in keys], name=cols[0]))
            arg = list(mapping.values())
        exp = order.set_meta_where(name, cols, mapping)
        if not exp.unique():
            return None
        what = "set_meta({} for {}, {!r})".format(mapping, cols, name)
        if how == "series":
            ser = pd.Series(arg, index=idx, name=name)
            keep = ser.copy()
            fn = rng.choice([lambda: slot.frame.set_meta(ser), lambda: slot.frame.set_meta(ser, name),
                             lambda: slot.frame.__setitem__(name, ser)])
            out, exp = attempt(st, what, fn, lambda: exp)
            if not same(ser, keep):
                raise Violation("argument-changed", "{}: {} was {}".format(what, ser, keep))
            st.inputs.append(("metadata", ser))
            return finish(st, rng, slot, out, exp, True, what)
        fn = lambda: slot.frame.set_meta(arg, name=name, index=idx)  # noqa: E731
    out, exp = attempt(st, what, fn, lambda: exp)
    return finish(st, rng, slot, out, exp, True, what)


def h_set_time(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.times:
        return None
    n = len(slot.model.times)
    how = rng.choice(["shift", "years", "other"])
    if how == "shift":
        d = rng.choice([-1, 1, 365, 40000]) * 86400
        times = [t + d for t in slot.model.times]
    elif how == "years":
        times = [year_secs(1950 + 5 * i) for i in range(n)]
    else:
        times = [to_secs(datetime.datetime(2010, 3, 1)) + i * 86400 * 17 + 3600 for i in range(n)]
    kind, value = index_for(rng, times)
    if kind == "floats":
        value = np.array(value)
    what = "['time'] = {} ({})".format(value, kind)
    keep = copy.deepcopy(value)
    exp = slot.model.copy()
    exp.times = times
    out, exp = attempt(st, what, lambda: slot.frame.__setitem__("time", value), lambda: exp)
    if not same(value, keep):
        raise Violation("argument-changed", "{}: now {}".format(what, value))
    st.inputs.append(("time", value))
    if out.ok:
        out.value = None
    return finish(st, rng, slot, out, exp, True, what)


def interpolatable(m):
    return m.rows and m.unique() and m.regular() and not m.has_nan() and len(m.times) > 1


def target_times(rng, m):
    """Grid to interpolate to."""
    t0, t1 = m.times[0], m.times[-1]
    how = rng.choice(["inside", "inside", "around", "same", "other"])
    if how == "same":
        return list(m.times)
    if how == "other":
        return draw_times(rng)
    n = rng.randint(2, 6)
    if how == "around":
        w = t1 - t0
        t0, t1 = t0 - w // 3, t1 + w // 2
    step = max(1, (t1 - t0) // n)
    times = sorted({t0 + i * step + rng.randrange(max(1, step // 2)) for i in range(n)})
    if rng.random() < 0.5:
        times = sorted({t // 86400 * 86400 for t in times})
    return times


def spell_target(rng, times):
    dts = [to_dt(t) for t in times]
    return rng.choice([np.array(dts, dtype="datetime64[s]"), dts, list(np.array(dts, dtype="datetime64[s]"))])


def h_interpolate(st, step, rng, fault=None):
    slot = st.pick(step)
    if slot is None or not interpolatable(slot.model):
        return None
    times = target_times(rng, slot.model)
    if len(times) < 2:
        return None
    extra = rng.choice(["constant", "constant", "linear", "none"])
    given = spell_target(rng, times)
    keep = copy.deepcopy(given)
    kw = {"extrapolation_type": extra}
    if extra == "constant" and rng.random() < 0.5:
        kw = {}
    if rng.random() < 0.3:
        kw["interpolation_type"] = "linear"
    what = "interpolate({}, {})".format([str(to_dt(t)) for t in times], kw)
    out, exp = attempt(st, what, lambda: slot.frame.interpolate(given, **kw),
                       lambda: slot.model.interpolate(times, extra), fault)
    if not same(given, keep):
        raise Violation("argument-changed", "{}: now {}".format(what, given))
    st.inputs.append(("time", given))
    return finish(st, rng, slot, out, exp, False, what)


def h_resample(st, step, rng, fault=None):
    slot = st.pick(step)
    if slot is None or not interpolatable(slot.model):
        return None
    m = slot.model
    a, b = to_dt(m.times[0]), to_dt(m.times[-1])
    if a.hour or b.hour or a.minute or b.minute or a.second or b.second:
        return None
    rule = "AS" if b.year - a.year > 5 or rng.random() < 0.6 else "MS"
    if b.year - a.year > 60:
        return None
    if rule == "AS":
        last = b.year if (b.month, b.day) == (1, 1) else b.year + 1
        times = [year_secs(y) for y in range(a.year, last + 1)]
    else:
        first = a.year * 12 + a.month - 1
        last = b.year * 12 + b.month - 1 + (b.day > 1)
        times = [to_secs(datetime.datetime(k // 12, k % 12 + 1, 1)) for k in range(first, last + 1)]
    if len(times) < 2:
        return None
    what = "resample({})".format(rule)
    out, exp = attempt(st, what, lambda: slot.frame.resample(rule), lambda: m.interpolate(times, "constant"), fault)
    return finish(st, rng, slot, out, exp, False, what)


def h_convert_unit(st, step, rng, fault=None):
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique():
        return None
    m = slot.model
    r = rng.random()
    row = rng.choice(m.rows)[0]
    if r < 0.75:
        # to units of one of the timeseries, mostly limited to its like
        unit = rng.choice([u for v, us in VARIABLES for u in us if row["unit"] in us] or [row["unit"]])
        kw = rng.choice([{"variable": row["variable"]}, {"region": row["region"]},
                         {"variable": row["variable"], "scenario": row["scenario"]}, {}])
        if row["variable"] == "Emissions|CH4" and rng.random() < 0.6:
            unit = rng.choice(["MtCO2/yr", "GtC/yr"])
    else:
        unit = rng.choice(UNIT_POOL)
        kw = filter_args(rng, m)
        kw.pop("unit", None)
    context = rng.choice([None, None, "AR4GWP100", "AR5GWP100", "SARGWP100"])
    inplace = rng.random() < 0.4
    what = "convert_unit({}, {}, {}, inplace={})".format(unit, context, kw, inplace)
    out, exp = attempt(st, what, lambda: slot.frame.convert_unit(unit, context=context, inplace=inplace, **kw),
                       lambda: m.convert_unit(unit, context, kw), fault)
    return finish(st, rng, slot, out, exp, inplace, what)


def h_process_over(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique():
        return None
    m = slot.model
    cols = rng.sample(sorted(m.cols), rng.randint(1, min(3, len(m.cols) - 1)))
    rest = sorted(m.cols - set(cols))
    if m.missing(rest):
        return None
    op = rng.choice(["mean", "median", "quantile"])
    kw = {"q": rng.choice([0.0, 0.3, 0.5, 1.0])} if op == "quantile" else {}
    arg = cols[0] if len(cols) == 1 and rng.random() < 0.5 else list(cols)
    given = copy.deepcopy(arg)
    what = "process_over({}, {}, {})".format(cols, op, kw)
    groups = {}
    for r, v in m.rows:
        groups.setdefault(key_of(r, rest), []).append(v)

    def one(vals):
        vals = [x for x in vals if not math.isnan(x)]
        if not vals:
            return NAN
        if op == "mean":
            return math.fsum(vals) / len(vals)
        return float(np.quantile(vals, kw.get("q", 0.5)))

    exp = MF(m.times, rest, [(dict(k), [one(c) for c in zip(*vs)]) for k, vs in groups.items()])
    for i in range(len(exp.rows)):
        exp.tol[i] = 1e-11 * max([abs(x) for _, v in m.rows for x in v if not math.isnan(x)] + [0.0])
    out, _ = attempt(st, what, lambda: slot.frame.process_over(arg, op, **kw), lambda: exp)
    if arg != given:
        raise Violation("argument-changed", "{}: {} was {}".format(what, arg, given))
    compare(exp, from_table(out.value, rest, what), what, "wrong-result")
    st.hold("table of process_over", out.value, out.value.copy())
    return "processed " + what


def from_table(df, cols, what):
    """Model of a table with metadata in its index."""
    names = list(df.index.names)
    if sorted(names) != sorted(cols):
        raise Violation("wrong-result", "{}: index {} expected {}".format(what, names, cols))
    rows = []
    for k, v in zip(df.index.tolist(), df.values):
        k = k if isinstance(k, tuple) else (k,)
        rows.append(({c: norm(x) for c, x in zip(names, k)}, [float(x) for x in v]))
    return MF([to_secs(t) for t in df.columns], cols, rows)


def h_relative(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique() or slot.model.missing():
        return None
    m = slot.model
    years = sorted({to_dt(t).year for t in m.times})
    a = rng.randrange(len(years))
    period = years[a:a + rng.randint(1, 3)]
    text = rng.choice([None, "rel. to then"])
    kw = {"year": period}
    if text is None:
        suffix = "(ref. period year: {} - {})".format(period[0], period[-1])
    else:
        suffix = text
        if rng.random() < 0.3:
            kw["scenario"] = rng.choice(m.rows)[0]["scenario"]
    what = "relative_to_ref_period_mean({}, {})".format(text, kw)
    def expect():
        sel, unsure = m.filter(kw)
        means = {}
        for k, (_, v) in zip(sel.keys(), sel.rows):
            v = [x for x in v if not math.isnan(x)]
            means[k] = math.fsum(v) / len(v)
        exp = MF(m.times, m.cols, [(dict(r, variable=r["variable"] + " " + suffix),
                                    [x - means.get(key_of(r, m.cols), NAN) for x in v]) for r, v in m.rows])
        for i in range(len(exp.rows)):
            exp.tol[i] = 1e-11 * max([abs(x) for _, v in m.rows for x in v if not math.isnan(x)] + [0.0])
        return exp, unsure

    out, exp = attempt(st, what, lambda: slot.frame.relative_to_ref_period_mean(text, **kw), expect)
    if not out.ok:
        return "refused " + what
    compare(exp, from_table(out.value, sorted(m.cols), what), what, "wrong-result")
    st.hold("table of relative_to_ref_period_mean", out.value, out.value.copy())
    return "processed " + what


def append_args(rng, models):
    """(keyword arguments, whether a table is returned instead)."""
    dup, repeated = duplicates(models)
    msg = rng.choice(["warn", False, "return", None])
    kw = {} if msg is None else {"duplicate_msg": msg}
    return kw, msg == "return" and dup and repeated


def mergeable(models):
    return all(m.rows and m.unique() for m in models)


def h_append(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows:
        return None
    how = rng.choice(["frame", "frame", "self", "table", "new"])
    if how in ("frame", "self"):
        other = slot if how == "self" else rng.choice(st.slots)
        om, arg = other.model, other.frame
    else:
        om = draw_model(rng, st.cfg, times=rng.choice([None, slot.model.times]), nan=0,
                        relative_to=[r for r, _ in slot.model.rows])
        if how == "table":
            arg = table_for(rng, om)
        else:
            out, om, _ = make(st, rng, om)
            arg = out.value
    if not mergeable([slot.model, om]):
        return None
    kw, table = append_args(rng, [slot.model, om])
    inplace = rng.random() < 0.4
    what = "append({}, {}, inplace={})".format(how, kw, inplace)
    out, exp = attempt(st, what, lambda: slot.frame.append(arg, inplace=inplace, **kw),
                       lambda: merge([slot.model, om]))
    if how in ("frame", "self") and not (inplace and arg is slot.frame):
        compare(om, look(arg, what), what + ": frame appended", "operand-changed")
    if table:
        if not isinstance(out.value, L["pd"].DataFrame):
            raise Violation("wrong-result", what + " returned " + str(type(out.value)))
        return "returned " + what
    return finish(st, rng, slot, out, exp, inplace, what)


def h_append_many(st, step, rng):
    slots = [rng.choice(st.slots) for _ in range(rng.randint(1, 4))] if st.slots else []
    if not slots or not mergeable([s.model for s in slots]):
        return None
    kw, table = append_args(rng, [s.model for s in slots])
    inplace = rng.random() < 0.3
    args = [s.frame for s in slots]
    given = list(args)
    what = "df_append({} frames, {}, inplace={})".format(len(args), kw, inplace)
    out, exp = attempt(st, what, lambda: L["df_append"](args, inplace=inplace, **kw),
                       lambda: merge([s.model for s in slots]))
    if len(args) != len(given) or any(a is not b for a, b in zip(args, given)):
        raise Violation("argument-changed", what + ": the list of frames")
    if table:
        return "returned " + what
    return finish(st, rng, slots[0], out, exp, inplace, what)


def h_iam(st, step, rng):
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique():
        return None
    m = slot.model
    out, _ = attempt(st, "to_iamdataframe", slot.frame.to_iamdataframe, m.copy, unsure=m.missing() or m.has_nan())
    if not out.ok:
        return "refused to_iamdataframe"
    d = out.value.data
    if m.missing() or m.has_nan():
        return "iam"
    rows = {}
    for r in [dict(zip(d.columns, vals)) for vals in zip(*[list(d[c]) for c in d.columns])]:
        k = key_of({c: norm(r[c]) for c in m.cols}, m.cols)
        rows.setdefault(k, {})[to_secs(r["time"])] = float(r["value"])
    exp = {k: dict(zip(m.times, v)) for k, (_, v) in zip(m.keys(), m.rows)}
    if rows != exp:
        raise Violation("wrong-result", "to_iamdataframe: {} expected {}".format(rows, exp))
    if rng.random() < 0.5:
        back = call(L["Frame"], out.value)
        if not back.ok:
            raise Violation("refused", "frame from IamDataFrame: {}".format(back))
        settle(st.add(rng, back.value, m.copy()), m.copy(), "frame from IamDataFrame")
    st.hold("data of IamDataFrame", d, d.copy())
    return "iam"


TAKE = ["timeseries", "timeseries_some", "meta", "values", "head", "tail", "time_points", "time", "year", "column",
        "columns"]


def h_take(st, step, rng):
    """Take tables and arrays out."""
    slot = st.pick(step)
    if slot is None or not slot.model.rows or not slot.model.unique():
        return None
    f, m = slot.frame, slot.model
    what = rng.choice(TAKE)
    col = rng.choice(sorted(m.cols))
    some = None
    if what == "timeseries_some":
        some = rng.sample(sorted(m.cols), rng.randint(1, len(m.cols)))
    obj = {
        "timeseries": lambda: f.timeseries(),
        "timeseries_some": lambda: call(f.timeseries, some).value,
        "meta": lambda: f.meta,
        "values": lambda: f.values,
        "head": lambda: f.head(1),
        "tail": lambda: f.tail(1),
        "time_points": lambda: f.time_points,
        "time": lambda: f["time"],
        "year": lambda: f["year"],
        "column": lambda: f[col],
        "columns": lambda: f[["scenario", col]],
    }[what]()
    if what == "timeseries_some":
        subset = {key_of(r, some) for r, _ in m.rows}
        if (obj is None) != (len(subset) < len(m.rows)):
            raise Violation("wrong-result", "timeseries({}) gives {}".format(some, obj))
        if obj is None:
            return "refused timeseries"
        compare(MF(m.times, some, [({c: r.get(c) for c in some}, v) for r, v in m.rows]),
                from_table(obj, some, what), "timeseries({})".format(some), "wrong-result")
    st.hold(what, obj, obj.copy())
    return "took " + what


def h_scribble(st, step, rng):
    """A caller changes what was taken out or put in."""
    pd = L["pd"]
    pool = []
    if st.held:
        pool.append("held")
    if st.inputs:
        pool.append("input")
    if not pool:
        return None
    which = rng.choice(pool)
    if which == "held":
        name, obj, _ = st.held.pop(rng.randrange(len(st.held)))
    else:
        name, obj = st.inputs.pop(rng.randrange(len(st.inputs)))
    if len(st.slots) > 0:
        st.shared += 1
    call(scribble, rng, pd, obj)
    return "scribbled {} {}".format(which, name)


def scribble(rng, pd, obj):
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "M":
            obj[:] = np.datetime64("1900-01-01")
        else:
            obj[...] = 77
    elif isinstance(obj, pd.Series):
        obj.iloc[:] = obj.iloc[0] if rng.random() < 0.3 else None
    elif isinstance(obj, pd.DataFrame):
        how = rng.random()
        if how < 0.4:
            obj.values[:] = 55  # the array below, if the table has one
        elif how < 0.7:
            obj.iloc[:, :] = 66
        else:
            obj.columns = ["c%d" % i for i in range(len(obj.columns))]
            obj.drop(obj.index[:1], inplace=True)
    elif isinstance(obj, list):
        obj[:] = [None] * len(obj)
    elif isinstance(obj, dict):
        for k in sorted(obj):
            if isinstance(obj[k], list):
                obj[k][:] = ["scribbled"] * len(obj[k])
            obj[k] = "scribbled"


def h_rcps(st, step, rng):
    """The bundled scenarios: a filtered copy is worked on."""
    r = L["rcps"]
    kw = {"scenario": rng.choice(["RCP26", "RCP45", "RCP60", "RCP85"]), "variable": rng.choice(
        ["Emissions|CO2|*", "Emissions|CH4", "Emissions|N2O"]), "year": sorted(rng.sample(range(1990, 2020), 4))}
    base = L["rcps_model"]
    exp, _ = base.filter(kw)
    out = call(r.filter, **kw)
    if not out.ok:
        raise Violation("refused", "filter of bundled scenarios: {}".format(out))
    slot = st.add(rng, out.value, exp, "rcps")
    settle(slot, exp, "filter of bundled scenarios")
    t = r.timeseries()
    t.values[:] = 1
    r.meta.iloc[:, :] = "x"
    r.time_points[:] = np.datetime64("1900-01-01")
    st.shared += 1
    return "rcps"


# ------------------------------------------------------------------ refused and failing operations


class Odd:
    """Nothing a frame could be made of."""


REFUSE = ["filter_column", "filter_year", "filter_level", "filter_month", "filter_time", "rename_column", "rename_dup",
          "unit_unknown", "unit_impossible", "unit_context", "time_length", "time_text", "meta_name", "meta_length",
          "meta_index", "meta_unknown", "meta_column", "meta_twice", "meta_label",
          "filter_nan", "filter_text", "filter_regexp", "rename_dup", "interp_range", "interp_type", "resample_rule", "append_type",
          "append_columns", "append_msg", "append_msg", "append_dup", "append_inplace", "process_op", "process_col", "getitem", "create_columns",
          "create_time", "create_format", "create_length", "create_list", "paramset_meta", "paramset_model", "interp_ptype", "relative_bad"]


def refused_appends(st, rng, slot):
    """(function which appends others to a frame, others: several values for something, more and other metadata)."""
    f = slot.frame
    others = [f.copy()]
    if rng.random() < 0.6:
        extra = f.copy()
        extra.set_meta(rng.choice(["x", 1.5, -999]), name=rng.choice(["added", "another note"]))
        others += [extra, extra.copy()]
    others += [s.frame for s in rng.sample(st.slots, rng.randint(0, min(2, len(st.slots))))
               if s.model.rows and s.model.unique()]
    rng.shuffle(others)

    def append(others, inplace, msg):
        if len(others) == 1 and rng.random() < 0.6:
            return f.append(others[0], inplace=inplace, duplicate_msg=msg)
        return L["df_append"]([f] + others, inplace=inplace, duplicate_msg=msg)

    return append, others


def h_refuse(st, step, rng):
    pd = L["pd"]
    slot = st.pick(step)
    if slot is None:
        return None
    f, m = slot.frame, slot.model
    if not m.rows or not m.unique():
        return None
    n, nt = len(m.rows), len(m.times)
    inplace = rng.random() < 0.6
    what = rng.choice(REFUSE)
    row = rng.choice(m.rows)[0]
    fn = None
    if what == "filter_column":
        kw = dict(filter_args(rng, m), **{"no such column": "x"})
        fn = lambda: f.filter(inplace=inplace, **kw)  # noqa: E731
    elif what == "filter_year":
        fn = lambda: f.filter(year=rng.choice([2000.0, [2000, 2001.5], "2000"]), inplace=inplace)  # noqa: E731
    elif what == "filter_level":
        fn = lambda: f.filter(level=rng.choice(["1", "x-", "deep"]), inplace=inplace)  # noqa: E731
    elif what == "filter_month":
        fn = lambda: f.filter(inplace=inplace, **rng.choice([  # noqa: E731
            {"month": "Nov-Feb"}, {"month": "Smarch"}, {"day": "Fri-Mon"}, {"day": "Freitag"}]))
    elif what == "filter_time":
        fn = lambda: f.filter(time=rng.choice([2000, [2000, 2001]]), inplace=inplace)  # noqa: E731
    elif what == "rename_column":
        mp = {"scenario": {row["scenario"]: "renamed"}, "no such column": {"a": "b"}}
        fn = lambda: f.rename(mp, inplace=inplace)  # noqa: E731
    elif what == "rename_dup":
        for c in sorted(m.cols):
            vals = sorted({r.get(c) for r, _ in m.rows if isinstance(r.get(c), str)})
            if len(vals) < 2:
                continue
            mp = {c: {v: "same" for v in vals}}
            try:
                m.rename(mp)
            except Refused:
                first = {"scenario": {row["scenario"]: "renamed before"}} if c != "scenario" else {}
                fn = lambda: f.rename(dict(first, **mp), inplace=inplace)  # noqa: E731
                break
        if fn is None and n > 1 and all(isinstance(r.get(c), str) for r, _ in m.rows for c in m.cols):
            mp = {c: {r[c]: "same" for r, _ in m.rows} for c in rng.sample(sorted(m.cols), len(m.cols))}
            fn = lambda: f.rename(mp, inplace=inplace)  # noqa: E731
    elif what == "unit_unknown":
        fn = lambda: f.convert_unit(rng.choice(["GtXYZ/yr", "nounit", "m/"]), inplace=inplace)  # noqa: E731
    elif what in ("unit_impossible", "unit_context"):
        unit = rng.choice(UNIT_POOL)
        context = None if what == "unit_impossible" else "AR4GWP100"
        try:
            m.convert_unit(unit, context, {})
        except Refused:
            fn = lambda: f.convert_unit(unit, context=context, inplace=inplace)  # noqa: E731
        if fn is None and what == "unit_context" and any(
                r["unit"] != unit and any(not math.isnan(x) for x in v) for r, v in m.rows):
            fn = lambda: f.convert_unit(unit, context="AR9GWP100", inplace=inplace)  # noqa: E731
    elif what == "time_length":
        v = [year_secs(1900 + i) for i in range(nt + rng.choice([1, -1, 5]))]
        v = np.array([to_dt(t) for t in v], dtype="datetime64[s]")
        if len(v) and nt:
            fn = lambda: f.__setitem__("time", v)  # noqa: E731
    elif what == "time_text":
        fn = (lambda: f.__setitem__("time", ["noon"] * nt)) if nt else None  # noqa: E731
    elif what == "meta_name":
        fn = lambda: f.set_meta(rng.choice([1, [1] * n, pd.Series([1] * n)]))  # noqa: E731
    elif what == "meta_length":
        fn = lambda: f.set_meta(["a"] * (n + rng.choice([1, 2])), name=rng.choice(["new", "scenario"]))  # noqa: E731
    elif what == "meta_index":
        fn = lambda: f.set_meta("x", "new", rng.choice([np.array([1, 2]), ["scenario"], 5]))  # noqa: E731
    elif what == "meta_unknown":
        idx = pd.Index([row["scenario"], "no such scenario"], name="scenario")
        fn = lambda: f.set_meta([1, 2], name="new", index=idx)  # noqa: E731
    elif what == "meta_twice":
        idx = pd.Index([row["scenario"], row["scenario"]], name="scenario")
        v = [1, rng.choice([1, 2])]
        fn = rng.choice([lambda: f.set_meta(v, name="new", index=idx),  # noqa: E731
                         lambda: f.set_meta(pd.Series(v, index=idx), name=rng.choice(["new", "model"]))])
    elif what == "meta_label":
        labels = list(f.meta.index)
        idx = pd.Index(labels + [max(labels) + 1])
        fn = lambda: f.set_meta(pd.Series(["x"] * len(idx), index=idx), name="new")  # noqa: E731
    elif what == "filter_nan":
        cols = [c for c in sorted(m.cols) if m.missing([c])]
        if cols:
            fn = lambda: f.filter(has_nan=False, inplace=inplace, **{rng.choice(cols): "*"})  # noqa: E731
    elif what == "filter_text":
        cols = [c for c in sorted(m.cols) if any(isinstance(r.get(c), float) for r, _ in m.rows)]
        if cols:
            fn = lambda: f.filter(inplace=inplace, **{rng.choice(cols): rng.choice(["*", "1*", ["x"]])})  # noqa: E731
    elif what == "filter_regexp":
        fn = lambda: f.filter(inplace=inplace, regexp=True, variable=rng.choice(["*", "Emi(", "["]))  # noqa: E731
    elif what == "meta_column":
        idx = pd.Index(["a"], name="no such column")
        fn = lambda: f.set_meta([1], name="new", index=idx)  # noqa: E731
    elif what == "interp_range":
        if interpolatable(m) and nt > 2:
            v = [to_dt(m.times[0] - 86400 * 400), to_dt(m.times[-1])]
            fn = lambda: f.interpolate(v, extrapolation_type="none")  # noqa: E731
    elif what == "interp_type":
        if interpolatable(m):
            v = [to_dt(t) for t in m.times]
            fn = lambda: f.interpolate(v, **rng.choice([{"extrapolation_type": "wild"},  # noqa: E731
                                                        {"interpolation_type": "cubic"}]))
    elif what == "interp_ptype":
        if interpolatable(m):
            bad = slot.frame.copy()
            bad.set_meta("bogus", name="parameter_type")
            v = [to_dt(t) for t in m.times]
            fn = lambda: bad.interpolate(v)  # noqa: E731
    elif what == "resample_rule":
        if interpolatable(m):
            fn = lambda: f.resample(rng.choice(["B", "BMS", "nonsense"]))  # noqa: E731
    elif what == "append_type":
        fn = lambda: f.append(rng.choice([Odd(), 5, None, [1.0]]), inplace=inplace)  # noqa: E731
    elif what == "append_columns":
        fn = lambda: f.append(pd.DataFrame({"model": ["a"], "2000": [1.0]}), inplace=inplace)  # noqa: E731
    elif what == "append_msg":
        if any(not math.isnan(x) for _, v in m.rows for x in v):
            first, others = refused_appends(st, rng, slot)
            fn = lambda: first(others, inplace, rng.choice(["shout", "Return", 2]))  # noqa: E731
    elif what == "append_dup":
        # one of the frames has several timeseries with the same metadata
        if n > 1:
            bad = f.copy()
            for c in sorted(m.cols):
                bad.set_meta("same", name=c)
            first, others = refused_appends(st, rng, slot)
            others = list(others)
            others.insert(rng.randrange(len(others) + 1), bad)
            fn = lambda: first(others, inplace, rng.choice(["warn", False, "return"]))  # noqa: E731
    elif what == "append_inplace":
        t = f.timeseries()
        fn = lambda: L["df_append"]([t, f], inplace=True)  # noqa: E731
    elif what == "process_op":
        fn = lambda: f.process_over("scenario", rng.choice(["sum", "max", ""]))  # noqa: E731
    elif what == "process_col":
        fn = lambda: f.process_over(sorted(m.cols), "mean")  # noqa: E731
    elif what == "getitem":
        fn = lambda: f[rng.choice(["no such column", ("scenario", "no such column"), 3])]  # noqa: E731
    elif what == "create_columns":
        fn = lambda: L["Frame"](np.zeros((3, 1)), index=[2000, 2001, 2002], columns={"model": ["a"]})  # noqa: E731
    elif what == "create_time":
        df = pd.DataFrame({c: ["x"] for c in ("model", "scenario", "region", "variable", "unit", "other")})
        fn = lambda: L["Frame"](df)  # noqa: E731
    elif what == "create_format":
        df = pd.DataFrame({c: ["x"] for c in ("model", "scenario", "region", "variable", "unit")})
        df["value"] = 1.0
        for c in rng.choice([["date"], ["years"], ["2000 AD"], ["time", "year"]]):
            df[c] = 2000
        fn = lambda: L["Frame"](df)  # noqa: E731
    elif what == "create_length":
        cols = {c: ["x", "y"] for c in ("model", "scenario", "region", "variable", "unit")}
        fn = lambda: L["Frame"](np.zeros((2, 3)), index=[2000, 2001], columns=cols)  # noqa: E731
    elif what == "create_list":
        fn = lambda: L["Frame"](rng.choice([["a.csv", "b.csv"], "/nonexistent/file.csv", 5, Odd()]))  # noqa: E731
    elif what == "paramset_meta":
        rest = m.cols - {"variable", "region", "unit", "parameter_type"}
        if len({key_of(r, rest) for r, _ in m.rows}) > 1:
            fn = f.to_parameterset
    elif what == "paramset_model":
        if any(r.get("climate_model") not in (None, "unspecified") for r, _ in m.rows):
            fn = f.to_parameterset
    elif what == "relative_bad":
        fn = lambda: f.relative_to_ref_period_mean("x", **{"no such column": [1]})  # noqa: E731
    if fn is None:
        return None
    out = call(fn)
    if out.ok:
        raise Violation("not-refused", "{} accepted: {}\n{}".format(what, out.value, m.text()))
    st.refused += 1
    st.run.faults["refused:" + what] += 1
    return "refused {}: {}".format(what, type(out.exc).__name__)


def h_fault(st, step, rng):
    """An operation in which a numerical routine fails."""
    fault = {"site": rng.choice(SITES), "n": rng.choice([0, 0, 1, 2, rng.randrange(12)]),
             "exc": rng.choice(sorted(EXCEPTIONS))}
    op = rng.choice(["interpolate", "resample", "convert_unit", "convert_unit", "paramset"])
    if op == "convert_unit":
        fault["site"] = "to"
    if op == "paramset":
        slot = st.pick(step)
        if slot is None or not slot.model.rows or not slot.model.unique():
            return None
        ARM.set(dict(fault, site="to"))
        out = call(slot.frame.to_parameterset)
        if ARM.clear():
            st.run.faults["to:" + fault["exc"]] += 1
        if not out.ok:
            st.refused += 1
        return "paramset {}".format("ok" if out.ok else type(out.exc).__name__)
    return "fault {} {} {}: {}".format(fault["site"], fault["n"], fault["exc"],
                                       globals()["h_" + op](st, step, rng, fault=fault))


# ------------------------------------------------------------------ without pyam


def scratch(name):
    return os.path.join(os.environ["VERIF_SCRATCH"], "bare-{}-{}".format(os.getpid(), name))


def h_missing(st, step, rng):
    """What needs pyam is refused, saying so, and without effect."""
    slot = st.pick(step)
    if slot is None:
        return None
    f = slot.frame
    old, new = scratch("old.csv"), scratch("new.csv")
    what = rng.choice(["to_iamdataframe", "to_csv", "to_csv new", "line_plot", "scatter", "region_plot", "pivot_table"])
    fn = {
        "to_iamdataframe": f.to_iamdataframe,
        "to_csv": lambda: f.to_csv(old),
        "to_csv new": lambda: f.to_csv(new),
        "line_plot": f.line_plot,
        "scatter": lambda: f.scatter("scenario", "model"),
        "region_plot": f.region_plot,
        "pivot_table": lambda: f.pivot_table("year", "variable"),
    }[what]
    with open(old, "w") as h:
        h.write("kept\n")
    try:
        out = call(fn)
        with open(old) as h:
            content = h.read()
        left = os.path.exists(new)
    finally:
        for p in (old, new):
            if os.path.exists(p):
                os.unlink(p)
    if out.ok:
        raise Violation("not-refused", "{} without pyam gave {}".format(what, out.value))
    if not isinstance(out.exc, ImportError):
        raise Violation("wrong-refusal", "{} without pyam raised {} instead of an ImportError".format(what, out))
    if content != "kept\n" or left:
        raise Violation("files-touched", "refused {}: file there {!r}, new file: {}".format(what, content, left))
    st.refused += 1
    st.run.probes["refused for want of pyam"] += 1
    return "missing " + what


def h_load(st, step, rng):
    """A table from a file."""
    model = draw_model(rng, st.cfg)
    if not model.rows or not model.times or model.missing() or any(v == "" for m, _ in model.rows for v in m.values()):
        return None
    if any(isinstance(v, str) and re.fullmatch(r"[-+.\deEnaNIif/ ]*", v) for m, _ in model.rows for v in m.values()):
        return None  # comes back as a number or missing value
    df = long_table_for(rng, model) if rng.random() < 0.5 and not model.has_nan() else table_for(rng, model)
    path = scratch("load.csv")
    indexed = any(df.index.names)
    df.to_csv(path, index=indexed)
    try:
        out = call(L["Frame"], path)
    finally:
        os.unlink(path)
    if not out.ok:
        raise Violation("refused", "load refused: {}\n{}".format(out, model.text()))
    slot = st.add(rng, out.value, model)
    settle(slot, model, "loaded from a file")
    return "loaded"
