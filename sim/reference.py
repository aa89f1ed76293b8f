"""Independent reference: units, time grids, conversions. Uses nothing of the code under test."""
import numpy as np

# unit: (group, factor, offset), value in base unit of the group = value * factor + offset
_Y = 365.25
UNITS = {
    "GtC/yr": ("flux", 1.0, 0.0),
    "GtC / a": ("flux", 1.0, 0.0),
    "MtCO2/yr": ("flux", 12 / 44 / 1000, 0.0),
    "GtCO2/yr": ("flux", 12 / 44, 0.0),
    "MtC/day": ("flux", _Y / 1000, 0.0),
    "ktC / month": ("flux", 12 / 1e6, 0.0),
    "W/m^2": ("forcing", 1.0, 0.0),
    "mW/m^2": ("forcing", 1e-3, 0.0),
    "kW/m^2": ("forcing", 1e3, 0.0),
    "K": ("temperature", 1.0, 0.0),
    "degC": ("temperature", 1.0, 273.15),
    "degF": ("temperature", 5 / 9, 459.67 * 5 / 9),
    "m": ("length", 1.0, 0.0),
    "km": ("length", 1e3, 0.0),
    "cm": ("length", 1e-2, 0.0),
    "ppm": ("concentration", 1.0, 0.0),
    "ppb": ("concentration", 1e-3, 0.0),
}
BAD_UNITS = ["notaunit", "GtXYZ/yr", "m/"]
GROUPS = {}
for _u, (_g, _, _) in UNITS.items():
    GROUPS.setdefault(_g, []).append(_u)


def unit_ok(a, b):
    return a in UNITS and b in UNITS and UNITS[a][0] == UNITS[b][0]


def uconv(v, a, b):
    _, fa, oa = UNITS[a]
    _, fb, ob = UNITS[b]
    return (v * fa + (oa - ob)) / fb


def _ymd(items, unit):
    return np.array(items, dtype="datetime64[{}]".format(unit))


def _days(d, unit="D"):
    return (np.datetime64("2000-01-01", "D") + np.array(d)).astype("datetime64[{}]".format(unit))


GRIDS = {
    "year": _ymd(["2000", "2001", "2002", "2003", "2004", "2005", "2006"], "Y"),
    "half": _ymd(["2000-01", "2000-07", "2001-01", "2001-07", "2002-01", "2002-07", "2003-01"], "M"),
    "days": _days([0, 100, 400, 900, 1500, 2000]),
    "two": _ymd(["2000", "2002", "2004", "2006"], "Y"),
    "mid": _ymd(["2000-07", "2001-07", "2002-07", "2003-07", "2004-07"], "M"),
    "secs": _days([0, 365, 731, 1096, 1461], "s"),
    "nano": _days([200, 300, 420, 700, 1000], "ns"),
    "int": _days([31, 60, 91, 500, 1234], "s").astype(np.int64),
    "late": _ymd(["2003", "2004", "2006", "2007", "2009"], "Y"),
    "early": _ymd(["1990", "1991", "1993", "1995"], "Y"),
    "after": _ymd(["2010", "2011", "2012", "2014"], "Y"),
    "short": _ymd(["2000", "2006"], "Y"),
    "single": _ymd(["2001"], "Y"),
    "none": _ymd([], "Y"),
}


def secs(grid):
    """Seconds since 1970 of a time grid."""
    g = np.array(grid)
    if g.dtype.kind == "M":
        return g.astype("datetime64[s]").astype(np.int64)
    return g.astype(np.int64)


def nvalues(g, average):
    return len(g) - 1 if average else len(g)


class Insufficient(Exception):
    """Conversion is impossible."""


def _linear(xs, ys, x, extrapolation, outside):
    """Piecewise linear function through (xs, ys); `outside`: values left and right of it."""
    out = np.empty(len(x))
    for i, xi in enumerate(x):
        if xi < xs[0] or xi > xs[-1]:
            if extrapolation == "none":
                raise Insufficient
            if extrapolation == "constant":
                out[i] = outside[0] if xi < xs[0] else outside[1]
                continue
        k = int(np.searchsorted(xs, xi, side="right")) - 1
        k = min(max(k, 0), len(xs) - 2)
        out[i] = ys[k] + (ys[k + 1] - ys[k]) * ((xi - xs[k]) / (xs[k + 1] - xs[k]))
    return out


def _average_knots(t, v):
    """Mean preserving piecewise linear function of interval averages."""
    n = len(v)
    edges = np.empty(n + 1)
    for i in range(1, n):
        edges[i] = (v[i - 1] + v[i]) / 2
    edges[0] = 2 * v[0] - edges[1]
    edges[n] = 2 * v[n - 1] - edges[n - 1]
    xs, ys = [], []
    for i in range(n):
        xs += [t[i], (t[i] + t[i + 1]) / 2]
        ys += [edges[i], (4 * v[i] - edges[i] - edges[i + 1]) / 2]
    xs.append(t[n])
    ys.append(edges[n])
    return np.array(xs), np.array(ys)


def tconv(values, source, target, average, extrapolation):
    """Convert values on the source grid (seconds) to the target grid."""
    values = np.asarray(values, dtype=float)
    if len(values) < 3:
        raise Insufficient
    s = source.astype(float)
    t = target.astype(float)
    if not average:
        return _linear(s, values, t, extrapolation, (values[0], values[-1]))
    xs, ys = _average_knots(s, values)
    if len(t) > 1 and extrapolation == "none" and (t[0] < s[0] or t[-1] > s[-1]):
        raise Insufficient
    return np.array([_mean(xs, ys, l, u, extrapolation, (values[0], values[-1])) for l, u in zip(t[:-1], t[1:])])


def _mean(xs, ys, l, u, extrapolation, outside):
    total = 0.0
    if l < xs[0]:
        end = min(u, xs[0])
        if extrapolation == "constant":
            total += outside[0] * (end - l)
        else:
            slope = (ys[1] - ys[0]) / (xs[1] - xs[0])
            total += (end - l) * (ys[0] + slope * ((l + end) / 2 - xs[0]))
    if u > xs[-1]:
        start = max(l, xs[-1])
        if extrapolation == "constant":
            total += outside[1] * (u - start)
        else:
            slope = (ys[-1] - ys[-2]) / (xs[-1] - xs[-2])
            total += (u - start) * (ys[-1] + slope * ((u + start) / 2 - xs[-1]))
    for k in range(len(xs) - 1):
        a = max(l, xs[k])
        b = min(u, xs[k + 1])
        if b > a:
            slope = (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k])
            total += (b - a) * (ys[k] + slope * ((a + b) / 2 - xs[k]))
    return total / (u - l)
