"""
World of threads: each works on its own objects (parameter sets, models, converters, data frames); the scheduler
preempts them at any line of openscm (and pint).

Reference: each thread's workload alone in a pristine process.
"""
import gc
import json
import math
import os
import shutil
import tempfile

import numpy as np

from ..common import Violation, call, rng_for, stable_hash, weighted
from .. import sched
from ..trace import ROOT
from . import units as U

BATCH = 1
L = {}
SOLO = {}


def setup(req):
    sched.install()
    import pint

    L["pint"] = os.path.dirname(pint.__file__) + os.sep
    import openscm.adapters
    import openscm.core
    import openscm.core.time
    import openscm.core.units
    import openscm.scmdataframe as sdf

    L["openscm"] = openscm
    L["OpenSCM"] = openscm.core.OpenSCM
    L["ParameterSet"] = openscm.core.ParameterSet
    L["UnitConverter"] = openscm.core.units.UnitConverter
    L["load_adapter"] = openscm.adapters.load_adapter
    L["create_time_points"] = openscm.core.time.create_time_points
    L["TimeseriesConverter"] = openscm.core.time.TimeseriesConverter
    L["ScmDataFrame"] = sdf.ScmDataFrame
    L["to_frame"] = sdf.convert_openscm_to_scmdataframe
    L["ParameterType"] = openscm.core.parameters.ParameterType


# ------------------------------------------------------------------ workloads

CONV = [["GtCH4/yr", "MtCO2/yr"], ["GtCO2/yr", "GtC/yr"], ["kg * N2O", "t * CO2"], ["degC", "K"], ["CH4", "C"],
        ["MtSF6/yr", "ktCO2/day"], ["NOx", "N"], ["tCF4/a", "tCH4/a"], ["W", "K"], ["ppm", "ppb"], ["HFC23", "HFC134a"]]
CTX = [None, None, "SARGWP100", "AR4GWP100", "AR5GWP100", "CH4_conversions", "NOx_conversions", "nonsense"]


def gen_op(rng):
    op = weighted(rng, {"conv": 6, "scalar": 2, "series": 1.5, "dice": 1, "frame": 2, "load": 0.7, "contexts": 0.5,
                        "points": 0.5, "back": 0.7, "averages": 2, "set_averages": 1.5, "regions": 1, "refused": 0.7,
                        "interpolate": 1, "resample": 0.5, "filters": 1, "append": 0.7, "times": 1, "csv": 0.4,
                        "change": 0.7})
    s = {"op": op, "x": rng.randrange(1000)}
    if op == "conv":
        s["key"] = rng.choice(CONV) + [rng.choice(CTX)]
    if op == "scalar":
        s["key"] = rng.choice(CONV) + [None]
    if op == "frame":
        s["ctx"] = rng.choice(CTX)
    return s


def generate(rng, check, idx, tier):
    n = rng.choice([2, 2, 2, 3])
    pool_rng = rng_for("threads", "pool")  # few different workloads: their solo results are kept
    if "scripts" not in L:
        L["scripts"] = [[gen_op(pool_rng) for _ in range(pool_rng.choice([1, 2, 2, 3, 4]))] for _ in range(110)]
    scripts = [rng.choice(L["scripts"]) for _ in range(n)]
    if rng.random() < 0.3:
        # all threads begin with the first use of something
        scripts = [rng.choice([s for s in L["scripts"] if s[0]["op"] in ("conv", "load", "dice", "frame")])
                   for _ in range(n)]
    elif rng.random() < 0.4:
        # all threads do the same kind of work
        kind = rng.choice(sorted({s[0]["op"] for s in L["scripts"]}))
        scripts = [rng.choice([s for s in L["scripts"] if any(o["op"] == kind for o in s)]) for _ in range(n)]
    pint = rng.random() < 0.35
    warm = rng.random() < 0.6
    scale = rng.choice([4, 15, 60, 300, 1500] if warm and not pint else [15, 100, 600, 4000])
    switches = [[1 + int(rng.expovariate(1 / scale)), rng.randrange(6)] for _ in range(rng.randint(2, 60))]
    for _ in range(rng.choice([0, 1, 2, 4])):
        # dense switching begins anywhere, not only at the start
        switches[rng.randrange(len(switches))][0] = rng.choice([50, 200, 500, 2000])
    steps = []
    for t, script in enumerate(scripts):
        for s in script:
            steps.append(dict(s, t=t))
    return {"cfg": {"pint": pint, "warm": warm, "n": n}, "switches": switches, "steps": steps}


def simplify(plan):
    if plan["cfg"]["pint"]:
        yield dict(plan, cfg=dict(plan["cfg"], pint=False))
    if not plan["cfg"]["warm"]:
        yield dict(plan, cfg=dict(plan["cfg"], warm=True))
    sw = plan["switches"]
    size = max(1, len(sw) // 2)
    while True:
        for i in range(0, len(sw), size):
            if len(sw) > 1:
                # the lines until a dropped switch are run without it
                rest = sw[:i] + sw[i + size:]
                yield dict(plan, switches=rest)
        for i in range(0, len(sw) - size, size):
            gap = sum(g for g, _ in sw[i:i + size])
            nxt = [[sw[i + size][0] + gap, sw[i + size][1]]]
            yield dict(plan, switches=sw[:i] + nxt + sw[i + size + 1:])
        if size == 1:
            break
        size //= 2


def scripts_of(plan):
    scripts = {}
    for s in plan["steps"]:
        scripts.setdefault(s["t"], []).append({k: v for k, v in s.items() if k != "t"})
    return [scripts[t] for t in sorted(scripts)]


def prepare(plans):
    from ..lane import in_pristine_fork

    for p in plans:
        for script in scripts_of(p):
            k = json.dumps(script, sort_keys=True)
            if k not in SOLO:
                SOLO[k] = in_pristine_fork(lambda s=script: work(s))


def work(script):
    """Execute a workload; list of what it saw."""
    res = []
    for s in script:
        out = call(globals()["w_" + s["op"]], s)
        res.append(out.value if out.ok else "raised " + type(out.exc).__name__)
    return res


def w_conv(s):
    u = L["UnitConverter"](*s["key"])
    return [float(u.convert_from(2.0)), float(u.convert_to(3.0)), u.source, u.target]


def w_contexts(s):
    return sorted(L["UnitConverter"]("C", "CO2").contexts)


def w_load(s):
    c = L["load_adapter"]("DICE")
    return [c.__name__, c is L["load_adapter"]("DICE")]


def w_scalar(s):
    p = L["ParameterSet"]()
    v = p.scalar("x", s["key"][0])
    w = p.scalar("x", s["key"][1])
    v.value = 1.0 + s["x"]
    a = float(w.value)
    w.value = 3.0
    return [a, float(v.value), s["key"][0]]


def w_series(s):
    p = L["ParameterSet"]()
    t = (np.datetime64("2000-01-01") + np.arange(5) * np.timedelta64(365, "D")).astype("datetime64[s]")
    v = p.timeseries(("Emissions", "CO2", "a"), "GtC/yr", t, timeseries_type="point")
    w = p.timeseries(("Emissions", "CO2", "b"), "GtC/yr", t, timeseries_type="point")
    v.values = np.arange(5.0) + s["x"]
    w.values = np.ones(5)
    t2 = t[:3] + np.timedelta64(100, "D")
    agg = p.timeseries(("Emissions", "CO2"), "MtCO2/day", t2, timeseries_type="point")
    a = [float(x) for x in agg.values]
    w.values = np.arange(5.0)
    return a + [float(x) for x in agg.values]


def w_points(s):
    t = L["create_time_points"](np.datetime64("2000-01-01"), np.timedelta64(30, "D"), 6,
                                L["ParameterType"].POINT_TIMESERIES)
    return [str(x) for x in t]


def w_dice(s):
    p, o = L["ParameterSet"](), L["ParameterSet"]()
    start = np.datetime64("2010-01-01")
    p.generic("Start Time").value = start
    p.generic("Stop Time").value = start + np.timedelta64(3 * 365, "D")
    b = start.astype("datetime64[s]") + np.arange(5) * np.timedelta64(365 * 86400, "s")
    m = L["OpenSCM"]("DICE", p, o)
    e = p.timeseries(("Emissions", "CO2"), "GtCO2/a", b, timeseries_type="average")
    e.values = np.array([20.0, 30, 40, 50]) + s["x"] % 10
    if s["x"] % 2:
        m.run()
        k = 4
    else:
        m.reset_stepping()
        m.step()
        m.step()
        k = 3
    r = []
    for name, unit in ((("Pool", "CO2", "Atmosphere"), "MtC"), (("Surface Temperature", "Increase"), "K")):
        v = o.timeseries(name, unit, b[:4], timeseries_type="point").values
        r += [float(x) for x in v[:k]]
    return r


def make_frame(s):
    return L["ScmDataFrame"](
        np.array([[1.0, 6.0 + s["x"], 2.0], [0.5, 3.0, 1.0], [5.0, 7.0, 3.0]]),
        index=[2005, 2010, 2015],
        columns={
            "model": ["a_model"], "climate_model": ["a_model"], "scenario": ["a", "b", "a"],
            "region": ["World", "World", "World|R"], "variable": ["Emissions|CH4", "Emissions|CO2", "Emissions|N2O"],
            "unit": ["MtCH4/yr", "GtC/yr", "kt N2O / yr"],
        })


def dump(df):
    ts = df.timeseries()
    rows = []
    for k, v in zip(ts.index.tolist(), ts.values.tolist()):
        rows.append([str(x) for x in k] + v)
    return [str(n) for n in ts.index.names] + [str(c) for c in ts.columns] + sorted(rows, key=str)


def w_frame(s):
    df = make_frame(s)
    a = df.convert_unit("GtCO2/yr", context=s["ctx"], variable=["*", "Emissions|CH4", "Emissions|CO2"][s["x"] % 3])
    b = a.filter(year=range(2005, 2011))
    return dump(a) + dump(b) + dump(df)


def w_back(s):
    df = make_frame(s).filter(scenario="a")
    if s["x"] % 4:
        df = L["ScmDataFrame"](df.timeseries().reset_index().drop(columns="climate_model").assign(climate_model="unspecified"))
    p = df.to_parameterset()
    back = L["to_frame"](p, model="a_model", scenario="a", time_points=df.time_points)
    return dump(back) + [str(p.generic("scenario").value)]


def days(start, n, step):
    return (np.datetime64(start) + np.arange(n) * np.timedelta64(step, "D")).astype("datetime64[s]")


def listed(v):
    return [float(x) for x in np.asarray(v, dtype=float).ravel()]


def w_averages(s):
    """Timeseries converters used directly."""
    x = s["x"]
    n, m = 4 + x % 3, 3 + x % 4
    a, b = days("2000-01-01", n + 1, 365), days("2000-0{}-11".format(1 + x % 9), m + 1, 200 + x % 100)
    pt, av = L["ParameterType"].POINT_TIMESERIES, L["ParameterType"].AVERAGE_TIMESERIES
    kind = [av, pt][x % 4 == 0]
    if kind is pt:
        a, b = a[:-1], b[:-1]
    time = L["openscm"].core.time
    c = L["TimeseriesConverter"](a, b, kind, time.InterpolationType.LINEAR,
                                 [time.ExtrapolationType.LINEAR, time.ExtrapolationType.CONSTANT][x % 2])
    out = listed(c.convert_from(np.arange(float(n)) * (1 + x % 7) + x))
    return out + listed(c.convert_to(np.arange(float(m)) + x)) + [c.source_length, c.target_length]


def w_set_averages(s):
    x = s["x"]
    p = L["ParameterSet"]()
    a, b = days("1990-01-01", 5, 365 + x % 2), days("1991-03-01", 5, 300)
    v = p.timeseries(("Emissions", "CO2"), "GtC/yr", a, timeseries_type="average", extrapolation="linear")
    w = p.timeseries(("Emissions", "CO2"), "MtCO2/yr", b, timeseries_type="average", extrapolation="linear")
    v.values = np.array([1.0, 4.0, 2.0, 8.0]) + x
    out = listed(w.values)
    w.values = np.array([1000.0, 3000.0, 500.0, 10.0])
    w.values[1] = 42.0
    return out + listed(v.values) + listed(w.values)


def w_regions(s):
    x = s["x"]
    p = L["ParameterSet"]()
    out = []
    for i, r in enumerate(("World", ("World", "A"), ("World", "A", "B"))):
        v = p.scalar(("Depth", "Sub{}".format(x % 5)), ["K", "degC"][i % 2], region=r)
        v.value = float(x + i)
        g = p.generic(("Names", str(i)), region=r)
        g.value = [x, i]
        out.append([float(p.scalar(("Depth", "Sub{}".format(x % 5)), "K", region=r).value), g.value])
        out.append(p.info(("Names", str(i)), region=r).name)
    return out


def w_refused(s):
    """Requests which raise errors that name what was wrong."""
    x = s["x"]
    p = L["ParameterSet"]()
    p.scalar(("A", "B{}".format(x)), "kg").value = 1.0
    out = []
    for f in (
        lambda: p.scalar(("A", "B{}".format(x)), "W"),
        lambda: p.timeseries(("A", "B{}".format(x)), "kg", days("2000-01-01", 3, 1), timeseries_type="point"),
        lambda: p.scalar(("A", "B{}".format(x), "C"), "kg"),
        lambda: p.scalar(("A",), "kg").__setattr__("value", 2.0),
        lambda: p.scalar(("E", str(x)), "kg").value,
        lambda: L["UnitConverter"]("NOx", "C{}".format(x)),
        lambda: L["OpenSCM"]("NOSUCH{}".format(x), p, p),
        lambda: p.scalar("x", "kg", region=("Moon", str(x))),
    ):
        r = call(f)
        out.append("fine" if r.ok else [type(r.exc).__name__, str(r.exc)])
    return out + [float(p.scalar(("A",), "t").value)]


def w_interpolate(s):
    x = s["x"]
    df = make_frame(s)
    t = days("2006-01-01", 4 + x % 3, 300)
    if x % 2:
        df = df.filter(variable="Emissions*", region="World")
        df.set_meta(["point", "average"][x % 3 > 0], "parameter_type")
    r = df.interpolate(t, extrapolation_type="linear")
    return dump(r) + dump(df)


def w_resample(s):
    return dump(make_frame(s).resample(["AS", "A", "2AS"][s["x"] % 3]))


def w_filters(s):
    x = s["x"]
    df = make_frame(s)
    k = [{"variable": "Emissions|C*"}, {"level": 1}, {"region": "World|*"}, {"scenario": ["b", "c"]}, {"year": 2010},
         {"variable": "*N2O", "keep": False}, {"month": "Jan"}, {"unit": "G*"}, {"level": "1-", "scenario": "a"},
         {"region": "Wor.d", "regexp": True}][x % 10]
    k = dict(k)
    if "scenario" in k and x % 3 == 0:
        k["has_nan"] = True
    return dump(df.filter(**k)) + dump(df.filter(scenario="a"))


def w_append(s):
    x = s["x"]
    df = make_frame(s)
    other = make_frame({"x": x + 5})
    if x % 2:
        other.set_meta("c{}".format(x), "scenario")
        r = df.append(other)
    else:
        r = df.append(other, duplicate_msg=False)
    return dump(r) + dump(df) + dump(other)


def w_times(s):
    x = s["x"]
    df = L["ScmDataFrame"](
        np.array([[1.0 + x], [2.0], [4.0]]), index=["{}-0{}-03".format(1950 + x % 80, 1 + i) for i in range(3)],
        columns={"model": ["m"], "climate_model": ["m"], "scenario": ["s{}".format(x)], "region": ["World"],
                 "variable": ["V"], "unit": ["K"]})
    g = L["ScmDataFrame"](
        np.array([[1.0], [2.0]]), index=[1990.5 + x, 2000.25 + x],
        columns={"model": ["m"], "climate_model": ["m"], "scenario": ["s"], "region": ["World"], "variable": ["V"],
                 "unit": ["K"]})
    return [str(t) for t in df.time_points] + dump(df) + dump(g) + listed(df["year"].values)


def w_csv(s):
    d = tempfile.mkdtemp(prefix="threads-")
    try:
        df = make_frame(s)
        path = os.path.join(d, "frame.csv")
        df.to_csv(path)
        return dump(L["ScmDataFrame"](path)) + dump(df)
    finally:
        shutil.rmtree(d)


def w_change(s):
    x = s["x"]
    df = make_frame(s)
    df["note"] = "n{}".format(x)
    c = df.rename({"scenario": {"a": "z{}".format(x)}})
    df.set_meta(["p", "q", "r"], "mark")
    r = df.process_over(["region"], "mean")
    rel = df.relative_to_ref_period_mean(year=range(2005, 2011))
    d = df.to_iamdataframe().data
    return dump(c) + dump(df) + listed(r.values) + listed(rel.values) + [str(v) for v in rel.index] + [str(x) for x in d["scenario"]] + listed(d["value"])


# ------------------------------------------------------------------ execution


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-10 * max(abs(a), abs(b))
    return a == b


def execute(plan, run):
    gc.disable()
    scripts = scripts_of(plan)
    if plan["cfg"]["warm"]:
        L["UnitConverter"]("CH4", "CO2", "AR4GWP100")
        L["load_adapter"]("DICE")
    traced = [ROOT] + ([L["pint"]] if plan["cfg"]["pint"] else [])
    s = sched.SCHED
    for st in plan["steps"]:
        run.stats[st["op"]] += 1
    dead = s.start([lambda sc=sc: work(sc) for sc in scripts], plan["switches"], traced)
    run.log("switched", s.switched, "contended", s.contended, "lines", s.lines)
    for h in s.history:
        run.log(*[str(x) for x in h])
        run.states.add(stable_hash(h))
    run.faults["preemption"] += s.switched
    run.faults["lock contention"] += s.contended
    run.probes["preempted in " + ("cold" if not plan["cfg"]["warm"] else "warm") + " process"] += bool(s.switched)
    run.signature = s.history
    run.nontrivial = s.switched > 1
    if dead:
        raise Violation("deadlock", dead + ": " + str(s.history[-10:]))
    for t, sc in zip(s.threads, scripts):
        if t.error is not None:
            raise t.error
        exp = SOLO[json.dumps(sc, sort_keys=True)]
        if not same(t.result, exp):
            for op, got, e in zip(sc, t.result, exp):
                if not same(got, e):
                    raise Violation("disturbed", "thread {}: {} gave {}, but alone {}".format(
                        t.index, op, str(got)[:500], str(e)[:500]))
    # and nothing is left behind
    for sc in scripts:
        got = work(sc[:1])
        exp = SOLO[json.dumps(sc, sort_keys=True)][:1]
        if not same(got, exp):
            raise Violation("left-behind", "{} afterwards gave {}, but alone {}".format(sc[0], got, exp))
