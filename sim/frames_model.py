"""
Reference model of data frames: times (seconds since 1970), metadata columns, rows (metadata, values).

Independent of the code under test; worked on by the frame, merge, transfer, disk and environment worlds.
"""
import datetime
import math
import re

import numpy as np

from .common import Violation, fmt
from .reference import UNITS, Insufficient, tconv, uconv

REQUIRED = ["model", "scenario", "region", "variable", "unit"]
EPOCH = datetime.datetime(1970, 1, 1)
NAN = float("nan")

# further units: (group, factor); the groups ch4 and co2 (flux) are linked by metric contexts
MORE_UNITS = {"MtCH4/yr": 1.0, "GtCH4/yr": 1e3, "ktCH4 / a": 1e-3}
UNDEFINED = {"widgets", "GtXYZ", "GtXYZ/yr", "nounit", "m/"}
GWP_CH4 = {"SARGWP100": 21.0, "AR4GWP100": 25.0, "AR5GWP100": 28.0}
TIMED = {"flux", "forcing", "ch4"}  # groups with a time dimension in the unit
BY_NAME = [(r"^Emissions", True), (r".*_(GWP)?EMIS", True), (r".*Flux", True), (r".*_(PEFF|EFF|S)?RF", True),
           (r"^Radiative Forcing", True), (r"HEATUPTAKE_EBALANCE_TOTAL", True), (r"^Atmospheric Concentrations", False),
           (r".*_CONC", False), (r"(Surface Temperature|.*TEMP)", False)]


def group_of(unit):
    if unit in UNITS:
        return UNITS[unit][0]
    return "ch4" if unit in MORE_UNITS else None


def is_average(variable, unit):
    """Whether values are averages, guessed from unit and name."""
    g = group_of(unit)
    if g is not None:
        return g in TIMED
    for pattern, average in BY_NAME:
        if re.match(pattern, variable):
            return average
    return False


class Refused(Exception):
    """The operation has to be refused."""


class Unknown(Exception):
    """The model does not say whether the operation is refused."""


def convert(values, a, b, context):
    ga, gb = group_of(a), group_of(b)
    if a == b and ga is not None:
        return list(values)
    if ga is None or gb is None:
        if a in UNDEFINED or b in UNDEFINED:
            raise Refused("unit")
        raise Unknown
    if ga != gb:
        if {ga, gb} != {"ch4", "flux"} or context not in GWP_CH4:
            raise Refused("unit")
        w = GWP_CH4[context]
        if ga == "ch4":
            return [uconv(v * MORE_UNITS[a] * w, "MtCO2/yr", b) for v in values]
        return [uconv(v, a, "MtCO2/yr") / w / MORE_UNITS[b] for v in values]
    if ga == "ch4":
        return [v * MORE_UNITS[a] / MORE_UNITS[b] for v in values]
    return [uconv(v, a, b) for v in values]


def norm(x):
    """Metadata value: None (missing), number or text."""
    if x is None:
        return None
    if isinstance(x, str):
        return x
    try:
        f = float(x)
    except (TypeError, ValueError):
        return repr(x)
    return None if math.isnan(f) else f


def to_secs(t):
    """Seconds since 1970 of a datetime, Timestamp or datetime64."""
    if isinstance(t, np.datetime64):
        return int(t.astype("datetime64[s]").astype(np.int64))
    if hasattr(t, "to_pydatetime"):
        t = t.to_pydatetime()
    d = t - EPOCH
    return d.days * 86400 + d.seconds


def to_dt(secs):
    return EPOCH + datetime.timedelta(seconds=int(secs))


def year_secs(y):
    return to_secs(datetime.datetime(y, 1, 1))


def key_of(meta, cols):
    return tuple((c, meta.get(c)) for c in sorted(cols))


def sort_key(key):
    return [(c, str(type(v)), str(v)) for c, v in key]


class MF:
    """Model of a data frame."""

    def __init__(self, times, cols, rows):
        self.times = list(times)
        self.cols = set(cols)
        self.rows = rows  # [(meta, values)]
        self.tol = {}  # row index -> absolute tolerance

    def copy(self):
        return MF(self.times, self.cols, [(dict(m), list(v)) for m, v in self.rows])

    def keys(self, cols=None):
        return [key_of(m, self.cols if cols is None else cols) for m, _ in self.rows]

    def unique(self):
        return len(set(self.keys())) == len(self.rows)

    def has_nan(self):
        return any(math.isnan(x) for _, v in self.rows for x in v)

    def regular(self):
        return all(a < b for a, b in zip(self.times, self.times[1:]))

    def missing(self, cols=None):
        return any(m.get(c) is None for m, _ in self.rows for c in (self.cols if cols is None else cols))

    def compact(self):
        """Without timeseries and times which have no values."""
        rows = [(m, v) for m, v in self.rows if any(not math.isnan(x) for x in v)]
        keep = [i for i in range(len(self.times)) if any(not math.isnan(v[i]) for _, v in rows)]
        return MF([self.times[i] for i in keep], self.cols, [(m, [v[i] for i in keep]) for m, v in rows])

    def text(self):
        return "times {} rows {}".format([str(to_dt(t)) for t in self.times],
                                         [(sorted(m.items()), fmt(v)) for m, v in self.rows])

    # -------------------------------------------------------------- operations

    def match(self, col, values, level=None, regexp=False, has_nan=True):
        """Rows selected by one metadata filter."""
        res = []
        vals = values if isinstance(values, (list, tuple)) else [values]
        for m, _ in self.rows:
            x = m.get(col)
            ok = False
            for s in vals:
                if isinstance(s, str):
                    if x is None:
                        if not has_nan:
                            raise Refused("text pattern for missing values")
                        x = ""
                    if not isinstance(x, str):
                        raise Refused("text pattern for numbers")
                    if regexp:
                        hit = re.match(s, x) is not None
                    else:
                        hit = re.match(".*".join(re.escape(p) for p in s.split("*")) + "$", x) is not None
                    if hit and level is not None:
                        depth = x.replace(s.replace("*", ""), "").count("|")
                        hit = deep(depth, level)
                else:
                    hit = m.get(col) == norm(s)
                ok = ok or hit
            res.append(ok)
        return res

    def selection(self, kw):
        kw = dict(kw)
        how = {"regexp": kw.pop("regexp", False), "has_nan": kw.pop("has_nan", True)}
        ts = [True] * len(self.times)
        rows = [True] * len(self.rows)
        dts = [to_dt(t) for t in self.times]

        def both(a, b):
            return [x and y for x, y in zip(a, b)]

        unsure = False
        for col in sorted(kw):
            v = kw[col]
            lst = v if isinstance(v, list) else [v]
            if col in self.cols:
                if how["has_nan"] and any(m.get(col) is None for m, _ in self.rows):
                    unsure = True
                rows = both(rows, self.match(col, v, kw.get("level") if col == "variable" else None, **how))
            elif col == "year":
                ts = both(ts, [d.year in lst for d in dts])
            elif col == "month":
                ts = both(ts, [d.month in numbers(lst, MONTHS) for d in dts])
            elif col == "day":
                if isinstance(lst[0], str):
                    ts = both(ts, [d.weekday() + 1 in numbers(lst, DAYS) for d in dts])
                else:
                    ts = both(ts, [d.day in lst for d in dts])
            elif col == "hour":
                ts = both(ts, [d.hour in lst for d in dts])
            elif col == "time":
                ts = both(ts, [d in lst for d in dts])
            elif col == "level":
                if "variable" not in kw:
                    rows = both(rows, self.match("variable", "*", v, has_nan=how["has_nan"]))
            else:
                raise Refused("column")
        return ts, rows, unsure

    def filter(self, kw, keep=True):
        ts, rows, unsure = self.selection(kw)
        out = MF(self.times, self.cols, [
            (dict(m), [x if (a and b) == keep else NAN for a, x in zip(ts, v)]) for b, (m, v) in zip(rows, self.rows)])
        return out.compact(), unsure

    def rename(self, mapping):
        out = self.copy()
        for col, mp in mapping.items():
            if col not in out.cols:
                raise Refused("column")
            for m, _ in out.rows:
                if m.get(col) in mp:
                    m[col] = mp[m[col]]
            if not out.unique():
                raise Refused("not unique")
        return out

    def set_meta(self, name, value):
        out = self.copy()
        if isinstance(value, (list, tuple)):
            if len(value) != len(out.rows):
                raise Refused("length")
            for (m, _), x in zip(out.rows, value):
                m[name] = norm(x)
        else:
            for m, _ in out.rows:
                m[name] = norm(value)
        out.cols.add(name)
        return out

    def set_meta_where(self, name, cols, mapping):
        """mapping: {tuple of values of cols: value}; others keep what they have."""
        out = self.copy()
        seen = set()
        for m, _ in out.rows:
            k = tuple(m.get(c) for c in cols)
            if k in mapping:
                m[name] = norm(mapping[k])
                seen.add(k)
        if seen != set(mapping):
            raise Refused("no such timeseries")
        out.cols.add(name)
        return out

    def types(self):
        """Per row whether it is an average."""
        res = []
        for m, _ in self.rows:
            p = m.get("parameter_type")
            if p is None:
                res.append(is_average(m["variable"], m["unit"]))
            elif p in ("average", "point"):
                res.append(p == "average")
            else:
                raise Refused("parameter type")
        return res

    def interpolate(self, target, extra):
        out = MF(target, self.cols | {"parameter_type"}, [])
        if not self.rows:
            raise Unknown
        types = self.types()
        src = np.array(self.times, dtype=np.int64)
        tgt = np.array(target, dtype=np.int64)
        for i, ((m, v), average) in enumerate(zip(self.rows, types)):
            s, t = src, tgt
            if average:
                if len(src) < 2 or len(tgt) < 2:
                    raise Refused("too few times")
                s = np.append(src, 2 * src[-1] - src[-2])
                t = np.append(tgt, 2 * tgt[-1] - tgt[-2])
            if s[0] > t[1]:
                raise Refused("too far outside")
            try:
                new = tconv(v, s, t, average, extra)
            except Insufficient:
                raise Refused("extrapolation or too few values")
            out.rows.append((dict(m, parameter_type="average" if average else "point"), [float(x) for x in new]))
            scale = max([abs(x) for x in v] + [abs(x) for x in new])
            out.tol[i] = accuracy(average, s, t, extra) * scale
        return out

    def convert_unit(self, unit, context, kw):
        sel, unsure = self.filter(kw)
        chosen = set(sel.keys())
        out = self.copy()
        out.cols.add("unit_context")
        for i, (m, v) in enumerate(out.rows):
            if key_of(m, self.cols) in chosen:
                new = convert(v, m["unit"], unit, context)
                out.tol[i] = 1e-9 * max(abs(x) for x in new + [0.0] if not math.isnan(x))
                if group_of(unit) == "temperature":
                    out.tol[i] += 1e-9 * 1000
                m["unit"] = unit
                m["unit_context"] = context
                out.rows[i] = (m, new)
        return out, unsure


def accuracy(average, source, target, extra):
    """Relative accuracy of a conversion between time grids (numerical quadrature over kinks and jumps)."""
    if not average:
        return 1e-9
    if len(source) == len(target) and np.array_equal(source, target):
        return 1e-7
    if extra == "constant" and (target[0] < source[0] or target[-1] > source[-1]):
        return 3e-2
    return 1e-3


def deep(depth, level):
    if isinstance(level, str):
        n = int(level[:-1])
        return depth <= n if level[-1] == "-" else depth >= n
    return depth == level


MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
          "December"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def numbers(lst, names):
    """Numbers of months and days given as number, name or range of names."""
    def number(s):
        for i, n in enumerate(names):
            if s in (n, n[:3]):
                return i + 1
        raise Refused("name")

    out = []
    for x in lst:
        if not isinstance(x, str):
            out.append(x)
        elif "-" in x:
            a, b = x.split("-")
            out += list(range(number(a), number(b) + 1))
        else:
            out.append(number(x))
    return out


def merge(frames):
    """All timeseries of all frames: values for the same timeseries and time are averaged."""
    cols = set().union(*[f.cols for f in frames])
    times = sorted(set(t for f in frames for t in f.times))
    rows = {}
    for f in frames:
        for m, v in f.rows:
            k = key_of(m, cols)
            slot = rows.setdefault(k, {})
            for t, x in zip(f.times, v):
                if not math.isnan(x):
                    slot.setdefault(t, []).append(x)
    out = MF(times, cols, [])
    for i, (k, slot) in enumerate(rows.items()):
        out.rows.append(({c: x for c, x in k}, [math.fsum(slot[t]) / len(slot[t]) if t in slot else NAN for t in times]))
        scale = max([abs(x) for xs in slot.values() for x in xs] + [0.0])
        out.tol[i] = 1e-11 * scale
    return out


def duplicates(frames):
    """Whether values for the same timeseries and time arrive from several rows; whether rows are repeated at all."""
    cols = set().union(*[f.cols for f in frames])
    seen, rows = set(), set()
    dup = repeated = False
    for f in frames:
        for m, v in f.rows:
            k = key_of(m, cols)
            repeated = repeated or k in rows
            rows.add(k)
            for t, x in zip(f.times, v):
                if not math.isnan(x):
                    dup = dup or (k, t) in seen
                    seen.add((k, t))
    return dup, repeated


# ------------------------------------------------------------------ looking at a frame


def fail(kind, what, detail):
    raise Violation(kind, "{}: {}".format(what, detail))


def look(f, what="frame", kind="inconsistent"):
    """What the public interface of a frame shows, as a model; None for values which cannot be told apart."""
    times = [to_secs(t) for t in f.time_points]
    meta = f.meta
    cols = list(meta.columns)
    for i, c in enumerate(REQUIRED):
        if i >= len(cols) or cols[i] != c:
            fail(kind, what, "metadata columns {}".format(cols))
    if len(set(cols)) != len(cols):
        fail(kind, what, "metadata columns {}".format(cols))
    metas = [{c: norm(x) for c, x in zip(cols, row)} for row in meta.values.tolist()]
    if len(f) != len(metas):
        fail(kind, what, "{} timeseries but metadata of {}".format(len(f), len(metas)))
    shown = [to_secs(t) for t in f["time"]]
    if shown != times:
        fail(kind, what, "time_points {} but time {}".format(times, shown))
    years = [int(y) for y in f["year"]]
    if years != [to_dt(t).year for t in times]:
        fail(kind, what, "year {}".format(years))
    keys = [key_of(m, cols) for m in metas]
    if len(set(keys)) != len(keys):
        try:
            f.timeseries()
        except ValueError:
            return MF(times, cols, [(m, None) for m in metas])
        fail(kind, what, "timeseries() with duplicated metadata")
    ts = f.timeseries()
    if [to_secs(t) for t in ts.columns] != times:
        fail(kind, what, "times of timeseries() {} but time {}".format(list(ts.columns), times))
    if metas:
        if list(ts.index.names) != cols:
            fail(kind, what, "index of timeseries() {} but metadata {}".format(ts.index.names, cols))
        got = [{c: norm(x) for c, x in zip(cols, k)} for k in ts.index.tolist()]
        if got != metas:
            fail(kind, what, "index of timeseries() {} but metadata {}".format(got, metas))
    values = np.asarray(ts.values, dtype=float)
    if values.shape != (len(metas), len(times)) and metas:
        fail(kind, what, "values of shape {} for {} timeseries and {} times".format(
            values.shape, len(metas), len(times)))
    if metas and not np.array_equal(np.asarray(f.values, dtype=float), values, equal_nan=True):
        fail(kind, what, "values differ from timeseries()")
    return MF(times, cols, [(m, [float(x) for x in v]) for m, v in zip(metas, values)])


def compare(exp, got, what, kind):
    """Violation unless the frame is as expected; order of timeseries is free."""
    if exp.cols != got.cols:
        fail(kind, what, "metadata columns {} expected {}".format(sorted(got.cols), sorted(exp.cols)))
    if exp.times != got.times:
        fail(kind, what, "times {} expected {}".format([str(to_dt(t)) for t in got.times],
                                                      [str(to_dt(t)) for t in exp.times]))
    a = sorted(exp.keys(), key=sort_key)
    b = sorted(got.keys(), key=sort_key)
    if a != b:
        fail(kind, what, "timeseries {} expected {}".format(b, a))
    values = {k: v for k, (_, v) in zip(got.keys(), got.rows)}
    if len(values) != len(got.rows):
        return
    for i, (k, (_, v)) in enumerate(zip(exp.keys(), exp.rows)):
        w = values[k]
        tol = exp.tol.get(i, 0.0)
        for t, x, y in zip(exp.times, v, w):
            if math.isnan(x) and math.isnan(y):
                continue
            if not abs(x - y) <= tol + 1e-12 * abs(x):
                fail(kind, what, "{} at {}: {!r} expected {!r}".format(k, to_dt(t), y, x))
