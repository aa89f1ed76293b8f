"""
World of environments: the same program executed in several interpreters with different hash seeds, time zones, wall
clocks (simulated, jumping between operations) and contents of fresh memory; all of them have to log the same.

Programs: own ones (times in all notations, order of timeseries, filters by date) and those of other worlds.
"""
import ctypes
import datetime
import importlib
import math
import os

import numpy as np

from ..common import HarnessError, Run, Violation, call, fmt, rng_for, stable_hash
from ..frames_model import to_dt, to_secs
from ..sibling import Others, Sibling
from . import dice
from . import frames as fw

BATCH = 1
L = fw.L
EMBEDDED = {"core": ["C01", "C02", "C03", "C05"], "dice": ["C07", "C09"], "frames": ["C13", "C14"],
            "transfer": ["C17"], "merge": ["C16"]}
SHARE = ["own"] * 8 + ["frames"] * 3 + ["dice"] * 3 + ["core"] * 2 + ["transfer"] * 2 + ["merge"]
ZONES = ["UTC", "Europe/Berlin", "America/Los_Angeles", "Asia/Kathmandu", "America/St_Johns", "Australia/Lord_Howe",
         "EST5EDT", "Africa/Casablanca", "Pacific/Apia"]
# wall clocks: ends of months and years, leap days, changes to and from daylight saving time, epochs
CLOCKS = ["2019-06-15 12:00:00", "2000-02-29 23:59:59", "2021-01-31 10:00:00", "2021-12-31 23:59:58",
          "2024-02-29 00:00:00", "1999-12-31 23:59:59", "1970-01-01 00:00:00", "1969-07-20 20:17:40",
          "2038-01-19 03:14:07", "2055-03-30 01:30:00", "2021-03-28 00:59:59", "2021-10-31 00:59:59",
          "2100-05-31 12:00:00", "1950-10-30 06:00:00", "2023-04-30 23:00:00", "2199-08-31 00:00:00"]
JUMPS = [1, -1, 3600, -3600, 86400, -86400, 31 * 86400, -31 * 86400, 366 * 86400, 20 * 31557600, -20 * 31557600]


def secs(s):
    return int(np.datetime64(s.replace(" ", "T"), "s").astype(np.int64))


class Clock:
    """The simulated wall clock of this process."""

    def __init__(self):
        lib = os.environ.get("LD_PRELOAD")
        if not lib:
            raise HarnessError("no simulated clock")
        self.lib = ctypes.CDLL(lib)
        self.lib.verif_clock_set.argtypes = [ctypes.c_longlong]
        self.lib.verif_clock_readings.restype = ctypes.c_ulonglong
        self.now = None
        self.moved = 0

    def set(self, now):
        if self.now is not None:
            self.moved += abs(now - self.now)
        self.now = now
        self.lib.verif_clock_set(now)

    def jump(self, rng):
        now = self.now + rng.choice(JUMPS)
        if not -2 * 10 ** 9 < now < 8 * 10 ** 9:
            now = secs(CLOCKS[0])
        self.set(now)

    def readings(self):
        return int(self.lib.verif_clock_readings())


def setup(req):
    worlds = {}
    sibling = os.environ.pop("VERIF_SIBLING", None)
    os.environ["VERIF_SIBLING"] = "1"  # (the embedded worlds do not need siblings of their own)
    for name, checks in EMBEDDED.items():
        worlds[name] = importlib.import_module("sim.worlds." + name)
        worlds[name].setup(dict(req, check=checks[0]))
    if sibling is None:
        del os.environ["VERIF_SIBLING"]
    L["worlds"] = worlds
    import openscm.core
    import openscm.core.time

    L["ParameterSet"] = openscm.core.ParameterSet
    L["TimePoints"] = openscm.core.time.TimePoints
    L["UnitConverter"] = openscm.core.units.UnitConverter
    L["clock"] = Clock()
    L["index"] = int(os.environ.get("VERIF_INDEX", "0"))
    real = np.empty_like

    def empty_like(*args, **kwargs):
        a = real(*args, **kwargs)
        if dice.L.get("garbage") is not None and a.dtype.kind == "f" and type(a) is np.ndarray:
            a.fill(dice.L["garbage"])
        return a

    np.empty_like = empty_like
    if sibling is None:
        seed = int(os.environ.get("PYTHONHASHSEED", "0"))
        rng = rng_for("env", seed)
        siblings = []
        for i in (1, 2):
            siblings.append(Sibling({
                "PYTHONHASHSEED": str((seed * 31 + 7 * i) % 4294967295), "TZ": rng.choice(ZONES),
                "VERIF_CLOCK": str(secs(rng.choice(CLOCKS))), "MALLOC_PERTURB_": str(rng.choice([0, 1, 85, 170, 255])),
                "VERIF_INDEX": str(i),
            }, "env", req["check"]))
        L["others"] = Others(siblings)


def prepare(plans):
    if "others" in L:
        L["others"].prepare(plans)


# ------------------------------------------------------------------ generation

OWN = ["parse", "parse", "parse", "parse_twice", "order", "order", "order", "dates", "units", "wide"]


def generate(rng, check, idx, tier):
    name = rng.choice(SHARE)
    clocks = [secs(rng.choice(CLOCKS)) for _ in range(3)]
    garbage = rng.sample(range(len(dice.GARBAGE)), 3)
    plan = {"world": name, "clocks": clocks, "garbage": garbage, "jump": rng.randrange(10 ** 9)}
    if name == "own":
        plan["steps"] = [{"op": rng.choice(OWN), "s": rng.randrange(10 ** 9)} for _ in range(rng.randint(2, 6))]
        return plan
    c = rng.choice(EMBEDDED[name])
    w = L["worlds"][name]
    w.L["check"] = c
    sub = w.generate(rng, c, idx, tier)
    plan["check"] = c
    plan["steps"] = [s for s in sub.pop("steps") if not s.get("fault") and s["op"] not in ("fault", "crash")]
    if name == "merge":
        sub["cfg"]["sibling"] = False
    plan["sub"] = sub
    return plan


def simplify(plan):
    if plan["world"] == "own":
        return
    w = L["worlds"][plan["world"]]
    sub = dict(plan["sub"], steps=plan["steps"])
    if hasattr(w, "simplify"):
        for cand in w.simplify(sub):
            cand = dict(cand)
            yield dict(plan, steps=cand.pop("steps"), sub=cand)


# ------------------------------------------------------------------ execution


def execute(plan, run):
    i = L["index"]
    clock = L["clock"]
    clock.set(plan["clocks"][i])
    before = clock.readings()
    rng = rng_for("jumps", plan["jump"], i)
    if run.events is None:
        run.events = []
    run.stats[plan["world"]] += 1
    garbage = dice.GARBAGE[plan["garbage"][i]]
    dice.L["garbage"] = garbage
    if plan["world"] == "own":
        for k, step in enumerate(plan["steps"]):
            clock.jump(rng)
            run.faults["clock jump"] += 1
            run.stats["own: " + step["op"]] += 1
            dice.L["garbage"] = garbage
            res = globals()["h_" + step["op"]](run, rng_for("env", step["s"]), clock, rng)
            run.log(k, step["op"], res)
            if res[-1] == "refused":
                run.stats["own: refused " + (res[0] if step["op"] == "order" else step["op"])] += 1
            run.signature.append((step["op"], stable_hash(str(res))))
            run.states.add(stable_hash(str(res)))
    else:
        embed(plan, run, clock, rng, garbage)
    dice.L["garbage"] = None
    run.sim_seconds = clock.moved
    run.probes["clock read"] += clock.readings() - before
    run.nontrivial = True
    mine = run.digest.hexdigest()
    for s, other in L["others"].of(plan) if "others" in L else ():
        env = {k: v for k, v in s.env.items()}
        if other["digest"] != mine:
            raise Violation("environment-dependent", "in {} at {}: {}".format(
                env, to_dt(plan["clocks"][int(env["VERIF_INDEX"])]), difference(plan, run, other)))
        run.probes["compared with another environment"] += 1
        run.faults["other hash seed"] += 1
        run.faults["other time zone"] += env["TZ"] != os.environ.get("TZ")
        run.faults["other wall clock"] += 1
        run.faults["other contents of fresh memory"] += 1


def difference(plan, run, other):
    mine = run.events
    theirs = other.get("events", [])
    for a, b in zip(mine, theirs):
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            k = max(0, k - 300)
            return "\n{}\ninstead of\n{}".format(b[k:k + 700], a[k:k + 700])
    return "{} lines instead of {}".format(len(theirs), len(mine))


def embed(plan, run, clock, rng, garbage):
    """A program of another world."""
    w = L["worlds"][plan["world"]]
    w.L["check"] = plan["check"]
    sub = dict(plan["sub"], steps=plan["steps"])
    cfg = sub.get("cfg")
    if plan["world"] == "dice":
        sub["cfg"] = dict(cfg, garbage=dice.GARBAGE.index(garbage) if garbage == garbage else 0)
    inner = Run(True)
    log = inner.log

    def jumping(*parts):
        log(*parts)
        if rng.random() < 0.5:
            clock.jump(rng)
            run.faults["clock jump"] += 1

    inner.log = jumping
    try:
        w.execute(sub, inner)
        end = "held"
    except Violation as v:
        end = "{}: {}".format(v.kind, v.detail)  # (the other properties' business, but it has to be the same)
    except (TypeError, AttributeError, ValueError, KeyError, IndexError, ZeroDivisionError) as e:
        end = type(e).__name__
    for line in inner.events:
        run.log(line)
    run.log("end", end)
    run.stats[plan["check"]] += 1
    run.signature += inner.signature
    run.states |= inner.states


# ------------------------------------------------------------------ own programs

DATES = [(2000, 1, 1), (1999, 12, 31), (2004, 2, 29), (2010, 7, 1), (1850, 3, 15), (2100, 12, 1), (2001, 10, 31),
         (1968, 5, 30), (1969, 1, 1), (2069, 6, 2), (2261, 4, 30)]
FORMS = ["%Y", "%Y-%m", "%Y-%m-%d", "%B %Y", "%d %b %Y", "%Y-%m-%d %H:%M", "%Y-%m-%dT%H:%M:%S", "%b %y", "%Y/%m/%d",
         "%m/%d/%Y", "%d.%m.%Y %H:%M", "%Y-%m-%d %H:%M:%SZ", "%Y-%m-%d %H:%M:%S+02:00", "%Y-%m-%d %H:%M {tz}", "%m/%d/%y",
         "%B", "%H:%M", "%A %d %B %Y", "%d %B", "%Y%m%d", "%b %d, %Y %I%p"]
NAMES = ["CET", "CEST", "EST", "EDT", "PST", "PDT", "UTC", "GMT", "WET", "JST", "+0545", "NST"]


def spelled(rng):
    """Times as texts or in another notation."""
    if rng.random() < 0.3:
        return notated(rng)
    form = rng.choice(FORMS)
    dates = [np.datetime64("{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}".format(*d, rng.randrange(24), rng.randrange(60), 0))
             .astype(object) for d in rng.sample(DATES, rng.randint(1, 5))]
    form = form.replace("{tz}", rng.choice(NAMES))
    return form, sorted({d.strftime(form) for d in dates})


def notated(rng):
    """Times as numbers or objects."""
    kind = rng.choice(["decimal", "decimal", "decimal text", "year", "datetime", "date", "timestamp", "datetime64", "aware"])
    n = rng.randint(1, 5)
    if kind in ("decimal", "decimal text"):
        times = sorted({round(rng.choice([1850, 1972, 1995, 2004, 2010, 2100]) + rng.choice([0.125, 0.25, 0.5, 0.625, 0.3]), 3)
                        for _ in range(n)})
        return kind, [str(t) for t in times] if kind == "decimal text" else times
    if kind == "year":
        return kind, sorted(rng.sample([1850, 1950, 1969, 1970, 1995, 2010, 2100, 2300], n))
    # hours which do not exist or exist twice in some zones among them
    base = [datetime.datetime(*d) + datetime.timedelta(hours=rng.choice([0, 0, 1, 2, 3, 12, 23]), minutes=rng.choice([0, 30]))
            for d in rng.sample(DATES + [(2021, 3, 28), (2010, 10, 31), (2010, 3, 14), (2010, 11, 7), (2011, 12, 30)], n)]
    base.sort()
    if kind == "date":
        return kind, sorted({t.date() for t in base})
    if kind == "timestamp":
        return kind, [L["pd"].Timestamp(t) for t in base]
    if kind == "datetime64":
        return kind, [np.datetime64(t, rng.choice(["s", "ms", "ns"])) for t in base]
    if kind == "aware":
        return kind, [t.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=2))) for t in base]
    return kind, base


def meta_for(n, **kw):
    return dict({"model": ["m"], "scenario": ["s"], "region": ["World"], "variable": ["v{}".format(i) for i in range(n)],
                 "unit": ["K"]}, **kw)


def times_of(frame):
    return [to_secs(t) for t in frame.time_points]


def shown(frame):
    """All a frame shows, in order."""
    ts = frame.timeseries()
    return [times_of(frame), list(ts.index.names), [list(map(str, k)) for k in ts.index.tolist()], ts.values.tolist(),
            list(frame.meta.columns), [str(t) for t in ts.columns], [str(x) for x in frame["time"]],
            [int(y) for y in frame["year"]]]


def read_times(rng, texts):
    """The same texts read through one of the interfaces."""
    n = len(texts)
    pd = L["pd"]
    how = rng.choice(["index", "index_array", "points", "long", "wide", "iam", "view", "set_time", "interpolate", "csv",
                      "filter"])
    data = np.arange(float(n)).reshape(n, 1)
    if how == "index":
        return how, lambda: times_of(L["Frame"](data, index=list(texts), columns=meta_for(1)))
    if how == "index_array":
        return how, lambda: times_of(L["Frame"](data, index=np.array(texts), columns=meta_for(1)))
    if how == "points":
        return how, lambda: [to_secs(t) for t in L["TimePoints"](texts).values]
    table = dict({k: v * n if len(v) == 1 else v for k, v in meta_for(1).items()}, variable="v", value=data[:, 0])
    if how == "long":
        column = "year" if rng.random() < 0.3 else "time"
        return how, lambda: times_of(L["Frame"](pd.DataFrame(dict(table, **{column: list(texts)}))))
    if how == "wide":
        wide = {k: v for k, v in meta_for(1).items()}
        wide.update({t: [float(i)] for i, t in enumerate(texts)})
        return how, lambda: shown(L["Frame"](pd.DataFrame(wide)))
    if how == "iam":
        return how, lambda: [str(t) for t in L["Iam"](pd.DataFrame(dict(table, time=list(texts)))).data["time"]]
    if how == "view":
        def view():
            v = L["ParameterSet"]().timeseries("a", "K", np.array(texts), timeseries_type="point")
            v.values = data[:, 0]
            return [float(x) for x in v.values]

        return how, view
    if how == "set_time":
        def set_time():
            f = L["Frame"](data, index=np.arange(2000, 2000 + n), columns=meta_for(1))
            f["time"] = list(texts)
            return times_of(f)

        return how, set_time
    if how == "interpolate":
        def interpolate():
            f = L["Frame"](np.arange(4.0).reshape(4, 1), index=np.array([1800, 1900, 2000, 2300]), columns=meta_for(1))
            return shown(f.interpolate(np.array(texts), extrapolation_type="linear"))

        return how, interpolate
    if how == "csv":
        def csv():
            path = os.path.join(os.environ["VERIF_SCRATCH"], "env-{}.csv".format(os.getpid()))
            try:
                with open(path, "w") as out:
                    out.write("model,scenario,region,variable,unit," + ",".join('"%s"' % t for t in texts) + "\n")
                    out.write("m,s,World,v,K," + ",".join(str(i) for i in range(n)) + "\n")
                return shown(L["Frame"](path))
            finally:
                if os.path.exists(path):
                    os.unlink(path)

        return how, csv

    def filtered():
        f = L["Frame"](data, index=list(texts), columns=meta_for(1))
        t = [to_dt(x) for x in times_of(f)]
        return (times_of(f.filter(year=t[0].year)), times_of(f.filter(month=t[-1].month)),
                times_of(f.filter(time=t[:2])), times_of(f.filter(hour=t[0].hour)), times_of(f.filter(day=t[0].day)),
                shown(f.resample("AS")) if len(t) > 2 and (t[-1] - t[0]).days < 40000 else None)

    return how, filtered


def outcome(fn):
    out = call(fn)
    if out.ok:
        return fmt(out.value)
    return "refused" if isinstance(out.exc, Exception) else str(out)


def h_parse(run, rng, clock, jumps):
    form, texts = spelled(rng)
    how, fn = read_times(rng, texts)
    run.stats["own: read by " + how] += 1
    return [form, texts, how, outcome(fn)]


def h_parse_twice(run, rng, clock, jumps):
    """Read again at another time."""
    form, texts = spelled(rng)
    how, fn = read_times(rng, texts)
    first = outcome(fn)
    for _ in range(3):
        clock.jump(jumps)
        run.faults["clock jump"] += 1
        again = outcome(fn)
        if again != first:
            raise Violation("read-again", "{} read by {} at {}: {} before {}".format(
                texts, how, to_dt(clock.now), again, first))
    return [form, texts, how, first]


def h_wide(run, rng, clock, jumps):
    """Tables whose columns could be dates or metadata."""
    pd = L["pd"]
    names = rng.sample(["2001", "2002-03-01", "June 2003", "29 Feb", "31 day", "Mon", "May", "noon", "12h", "1st", "30 Apr",
                        "note", "Ensemble", "2001-02-03 04:05:06", "b", "climate_model", "zeta", "eta", "10 pm"],
                       rng.randint(2, 7))
    cols = dict(meta_for(1), **{c: [rng.choice([1.0, 2.5])] for c in names})
    order = list(cols)
    rng.shuffle(order)
    frame = pd.DataFrame({c: cols[c] for c in order})
    return [order, outcome(lambda: shown(L["Frame"](frame)))]


def h_order(run, rng, clock, jumps):
    """Orders of timeseries and columns in results."""
    model = fw.draw_model(rng, {"nan": 0, "extra": 2})
    more = fw.draw_model(rng, {"nan": 0, "extra": 2}, times=model.times, relative_to=[m for m, _ in model.rows])
    if not model.rows or not more.rows:
        return "skip"
    st = fw.State(run, {"cfg": {}})
    outs = [fw.make(st, rng, m)[0] for m in (model, more)]
    if not all(o.ok for o in outs):
        return "refused"
    f, g = (o.value for o in outs)
    how = rng.choice(["show", "append", "process_over", "timeseries", "iam", "relative", "rename", "set_meta", "resample",
                      "parameterset", "long", "ensemble", "meta", "head", "convert"])
    pd = L["pd"]

    def run_it():
        if how == "show":
            return shown(f)
        if how == "append":
            return shown(L["df_append"]([f, g], duplicate_msg=False))
        if how == "process_over":
            cols = rng.sample(["model", "scenario", "region", "variable"], rng.randint(1, 2))
            r = f.process_over(cols, rng.choice(["mean", "median"]))
            return [list(r.index.names), [list(map(str, k)) if isinstance(k, tuple) else str(k) for k in r.index],
                    r.values.tolist(), [str(c) for c in r.columns]]
        if how == "timeseries":
            cols = list(f.meta.columns)
            rng.shuffle(cols)
            r = f.timeseries(meta=cols)
            return [list(r.index.names), [list(map(str, k)) for k in r.index.tolist()], r.values.tolist()]
        if how == "iam":
            r = f.to_iamdataframe().data
            cols = sorted(r.columns)  # (pyam itself orders columns of its own by hash)
            return [cols, sorted(list(map(str, k)) for k in r[cols].values.tolist())]
        if how == "relative":
            years = sorted({to_dt(t).year for t in model.times})
            r = f.relative_to_ref_period_mean(year=years[:2])
            return [list(r.index.names), [list(map(str, k)) for k in r.index.tolist()], r.values.tolist()]
        if how == "rename":
            c = f.copy()
            c.rename({"scenario": {model.rows[0][0]["scenario"]: "zzz"}, "region": {"World": "Earth"}}, inplace=True)
            return shown(c)
        if how == "set_meta":
            c = f.copy()
            c.set_meta([str(i) for i in range(len(model.rows))], "zz")
            c.set_meta(1, "aa")
            return shown(c)
        if how == "resample":
            return shown(f.resample("AS" if rng.random() < 0.5 else "A"))
        if how == "parameterset":
            back = importlib.import_module("openscm.scmdataframe").convert_openscm_to_scmdataframe
            m = model.rows[0][0]
            part = f.filter(model=m["model"], scenario=m["scenario"])
            return shown(back(part.to_parameterset(), part.time_points))
        if how == "long":
            r = f.timeseries().reset_index()
            r = r.melt(id_vars=[c for c in r.columns if isinstance(c, str)], var_name="time")
            return shown(L["Frame"](pd.DataFrame(r)))
        if how == "ensemble":  # timeseries which only differ in further metadata
            cols = ["ensemble", "note", "member", "source"]
            rng.shuffle(cols)
            rows = [dict({k: v[0] for k, v in meta_for(1).items()}, variable="v", value=float(i), time=2000 + i % 2,
                         **{c: rng.choice(["a", "b", "c"]) for c in cols}) for i in range(8)]
            r = L["Frame"](pd.DataFrame(rows))
            return [shown(r), shown(L["df_append"]([r, L["Frame"](pd.DataFrame(rows[:2]))], duplicate_msg=False)),
                    str(r.process_over("member", "mean").values.tolist())]
        if how == "head":
            return [f.head(2).values.tolist(), f.tail(2).values.tolist(), str(f.meta.values.tolist())]
        if how == "convert":
            return shown(f.convert_unit("MtCO2/yr", variable="Emissions|CO2*"))
        r = f.meta
        return [list(r.columns), [list(map(str, k)) for k in r.values.tolist()]]

    run.stats["own: order of " + how] += 1
    return [how, outcome(run_it)]


def h_dates(run, rng, clock, jumps):
    """Filters by parts of dates."""
    times = fw.draw_times(rng)
    f = L["Frame"](np.arange(float(len(times))).reshape(len(times), 1),
                   index=np.array(times, dtype=np.int64).astype("datetime64[s]"), columns=meta_for(1))
    kw = rng.choice([{"month": "Jan"}, {"month": ["Jan", "July"]}, {"month": "Nov-Dec"}, {"day": "Mon"}, {"day": "Sat-Sun"},
                     {"day": 1}, {"day": ["Mon", "Fri"]}, {"hour": 0}, {"hour": [6, 12]}, {"year": 2000},
                     {"year": range(2000, 2003)}, {"time": to_dt(times[0])}, {"month": 1, "day": 1},
                     {"day": "Monday"}, {"month": "December"}])
    keep = rng.random() < 0.7
    return [sorted(kw), keep, outcome(lambda: shown(f.filter(keep=keep, **kw)))]


def h_units(run, rng, clock, jumps):
    """Conversions between units."""
    group = rng.choice([["MtCO2/yr", "GtC / a", "kg CO2 / s", "tC/day"], ["MtCH4/yr", "kt CH4 / day"], ["kt N2O / day", "MtN/yr"],
                        ["MtS/yr", "MtSO2/a"], ["ppm", "ppb"], ["W/m^2", "mW/cm^2"], ["delta_degC", "K"],
                        ["MtCO2/yr", "MtCH4/yr", "kt N2O / day", "MtSF6/yr"]])
    a, b = rng.sample(group, 2)
    ctx = rng.choice([None, None, "AR4GWP100", "AR5GWP100", "CH4_conversions"])

    def convert():
        u = L["UnitConverter"](a, b, ctx)
        return [u.source, u.target, float(u.convert_from(3.5)), float(u.convert_to(3.5)), sorted(map(str, u.contexts))
                if isinstance(u.contexts, (list, set, tuple)) else str(u.contexts)]

    return [a, b, ctx, outcome(convert)]
