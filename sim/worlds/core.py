"""
World of parameter sets: holders of views which read, write, lock, fail in the order the scheduler decides.

Reference: single-copy model of every parameter (`MParam`), a cache per view (a writer reads back exactly what it wrote
until somebody else writes), pending writes of locked views, and the rule table for requests.
"""
import numpy as np

from .. import reference as ref
from .. import seams
from ..common import HarnessError, Violation, call, fmt, stable_hash, weighted

BATCH = 6
POINT, AVERAGE, SCALAR, GENERIC = "point", "average", "scalar", "generic"

L = {}  # the library, set by setup


def setup(req):
    seams.install()
    import openscm.core
    import openscm.core.parameters
    import openscm.core.time
    import openscm.core.units
    import openscm.errors

    L["ParameterSet"] = openscm.core.ParameterSet
    L["PT"] = openscm.core.parameters.ParameterType
    L["IT"] = openscm.core.time.InterpolationType
    L["ET"] = openscm.core.time.ExtrapolationType
    L["errors"] = openscm.errors
    L["check"] = req["check"]
    for a in ("GtC/yr", "m", "K", "ppm"):
        openscm.core.units.UnitConverter(a, a)


# ------------------------------------------------------------------ plan generation

TREES = [
    ["A|B", "A|C", "A|B|D", "A|B|E", "A", "A|C|F", "A|C|F|G"],
    ["A|A", "A", "A|A|A", "AA", "A|AA", "a", "A|a"],
    ["Emissions|CO2", "Emissions|CH4", "Emissions", "Emissions|CO2|Energy", "Emissions|CO2|Energy|Coal",
     "Emissions|CO2|AFOLU"],
    ["X", "Y", "X|Y", "Y|X", "World", "X|Y|Z", "X Y"],
]
# parts of names which are not the same, though similar
PARTS = ["A", "a", "A ", " A", "A_", "A-B", "A_B", "A B", "AB", "Ab", "Ä", "A\u0308", "0", "00", "A.B", "A*", "*", "World",
         "R1", "None", "A/B", "A\t"]
REGIONS = ["World", "World|R1", "World|R2", "World|R1|S", "World|S", "World|World", "World|r1", "World|R1 ", "World|R1|R1",
           "World|S|R1"]
OPS = {
    "C01": {"view": 1, "read": 6, "hold": 3, "hread": 6, "write": 7, "elem": 5, "slice": 3, "ufunc": 4, "iop": 3,
            "at": 2, "assign": 2, "arith": 4, "two": 1, "info": 0.5},
    "C02": {"view": 2, "read": 9, "hold": 3, "hread": 5, "write": 6, "elem": 3, "slice": 1, "ufunc": 1.5, "iop": 1,
            "at": 1, "arith": 2, "agwrite": 6, "info": 1, "assign": 1},
    "C03": {"view": 14, "read": 2, "write": 4, "info": 6, "ensure": 2, "badview": 3, "unread": 2},
    "C04": {"view": 4, "read": 3, "hold": 2, "hread": 3, "write": 5, "elem": 3, "ufunc": 2, "iop": 1, "at": 1,
            "badview": 6, "badwrite": 7, "badelem": 5, "agwrite": 2, "info": 1, "ensure": 1, "slice": 1, "arith": 1,
            "assign": 1},
    "C05": {"view": 1, "read": 6, "hold": 2, "hread": 4, "write": 7, "elem": 5, "slice": 2, "ufunc": 3, "iop": 2,
            "at": 1, "lock": 6, "unlock": 6, "arith": 1, "info": 0.5, "assign": 1},
    "C06": {"view": 3, "read": 5, "hold": 2, "hread": 3, "write": 7, "elem": 3, "slice": 1, "ufunc": 2, "iop": 1,
            "at": 1, "assign": 4, "arith": 3, "mutate": 8, "info": 2, "take": 3},
}


def _fault(rng, average):
    site = rng.choice(seams.SITES)
    n = rng.choice([0, 0, 0, 1, 2, 3]) if site != "interp_call" else rng.choice([0, 1, 5, 20, 60])
    return {"site": site, "n": n, "exc": rng.choice(sorted(seams.EXCEPTIONS))}


def generate(rng, check, idx, tier):
    average_plan = rng.random() < 0.35
    observe = rng.choice([0, 1, 2])
    if check == "C04":
        observe = 2
    good = rng.sample(["year", "half", "days", "two", "mid", "secs", "nano", "int", "late"], rng.randint(1, 4))
    if average_plan and observe < 2:
        good = good[:1]
    tree = rng.choice(TREES)
    if check in ("C03", "C06") and rng.random() < 0.3:
        parts = rng.sample(PARTS, rng.randint(2, 4))
        if rng.random() < 0.5:
            a = rng.choice(["A", "R1"])
            parts = [p for p in PARTS if p.strip(" \t_*").lower()[:1] == a[0].lower()][:5] if a == "A" else ["R1", "r1", "R1 ", "R"]
        tree = sorted({"|".join(rng.choice(parts) for _ in range(rng.choice([1, 1, 2, 2, 3]))) for _ in range(8)})
        tree += [t for t in parts if t not in tree][:2]
    if check == "C01" or check == "C05":
        names = [n for n in tree if not any(m.startswith(n + "|") for m in tree)]
        names = rng.sample(names, min(len(names), rng.choice([1, 1, 2])))
    elif check == "C02":
        names = tree[: rng.randint(3, len(tree))]
    else:
        names = rng.sample(tree, rng.randint(2, len(tree)))
    groups = sorted(ref.GROUPS)
    g0 = rng.choice(groups)
    units = list(ref.GROUPS[g0])
    roots = ["World"]
    if check == "C06":
        roots = ["World", "World"] if rng.random() < 0.7 else ["World", "Root", "World"]
    regions = ["World"]
    if check in ("C03", "C06"):
        regions = ["World"] + rng.sample(REGIONS[1:], rng.randint(1, 3))
    elif rng.random() < 0.3:
        regions = [rng.choice(REGIONS)]
    main_kind = AVERAGE if average_plan else rng.choice([POINT, POINT, POINT, SCALAR])
    if check == "C05":
        main_kind = AVERAGE if average_plan else POINT
    cfg = {"observe": observe, "roots": roots, "average": average_plan}

    def kind():
        r = rng.random()
        if check == "C03":
            return rng.choice([main_kind, main_kind, POINT, SCALAR, GENERIC, AVERAGE])
        if r < 0.9 or check == "C02":
            return main_kind
        return rng.choice([SCALAR, GENERIC, main_kind])

    def view(name=None, wild=0.0):
        k = kind()
        u = rng.choice(units)
        g = rng.choice(good)
        x = rng.choice(["none", "constant", "linear", "constant", "linear"])
        if rng.random() < wild:
            w = rng.random()
            if w < 0.25:
                u = rng.choice(sorted(ref.UNITS) + ref.BAD_UNITS)
            elif w < 0.6:
                g = rng.choice(sorted(ref.GRIDS))
            elif w < 0.8:
                x = "none"
        return {
            "op": "view", "set": rng.randrange(len(roots)), "name": name or rng.choice(names),
            "region": rng.choice(regions), "kind": k, "unit": u, "grid": g, "extra": x, "sp": rng.randrange(1 << 16),
        }

    steps = []
    if check in ("C01", "C05"):
        n_holders = rng.randint(2, 5)
        for name in names:
            for _ in range(n_holders):
                steps.append(view(name, 0.04))
    elif check == "C02":
        leaves = [n for n in names if not any(m.startswith(n + "|") for m in names)]
        for name in leaves:
            for _ in range(rng.randint(1, 2)):
                steps.append(view(name, 0.02))
        if rng.random() < 0.5:
            for name in leaves:
                steps.append({"op": "write", "v": steps.index(next(s for s in steps if s["name"] == name)),
                              "s": rng.randrange(1 << 20)})
        for name in names:
            if name not in leaves and rng.random() < 0.8:
                for _ in range(rng.randint(1, 2)):
                    steps.append(view(name, 0.05))
    else:
        for _ in range(rng.randint(2, 6)):
            steps.append(view(None, 0.1 if check != "C03" else 0.2))
    n = rng.randint(10, 30 if tier == "quick" else 60)
    wild = {"C03": 0.2, "C04": 0.15}.get(check, 0.05)
    for _ in range(n):
        op = weighted(rng, OPS[check])
        if op == "view":
            s = view(None, wild)
        elif op == "badview":
            s = view(None, wild)
            s["op"] = "badview"
            s["bad"] = rng.choice(["unit", "incompatible", "grid", "root", "noname", "noregion", "tstype", "extra",
                                   "type", "gridobject"])
        elif op in ("info", "ensure"):
            s = {"op": op, "set": rng.randrange(len(roots)), "name": rng.choice(tree), "region": rng.choice(regions),
                 "sp": rng.randrange(1 << 16), "v": rng.randrange(64)}
        else:
            s = {"op": op, "v": rng.randrange(64), "s": rng.randrange(1 << 20)}
            if op in ("assign", "two", "ufunc", "arith"):
                s["w"] = rng.randrange(64)
        if check == "C04" and op not in ("info", "ensure") and rng.random() < 0.35:
            s["fault"] = _fault(rng, average_plan)
        steps.append(s)
    if len({s["grid"] for s in steps if s.get("kind") == AVERAGE}) > 1:
        cfg["observe"] = 2
    return {"cfg": cfg, "steps": steps}


def simplify(plan):
    """Simpler candidates of a plan."""
    for i, s in enumerate(plan["steps"]):
        for key, val in (("grid", "year"), ("extra", "constant"), ("sp", 0), ("s", 1), ("region", "World"), ("v", 0),
                         ("w", 0), ("set", 0)):
            if key in s and s[key] != val:
                yield dict(plan, steps=plan["steps"][:i] + [dict(s, **{key: val})] + plan["steps"][i + 1:])
        if "fault" in s:
            yield dict(plan, steps=plan["steps"][:i] + [{k: v for k, v in s.items() if k != "fault"}]
                       + plan["steps"][i + 1:])


# ------------------------------------------------------------------ reference model


class MParam:
    """Reference of one parameter."""

    def __init__(self, sid, region, name, parent):
        self.sid, self.region, self.name, self.parent = sid, region, name, parent
        self.children = {}
        self.kind = None
        self.unit = None
        self.grid = None
        self.read = False
        self.written = False
        self.data = None
        self.version = 0
        self.writers = set()
        self.tol = 0.0
        self.scale = 0.0  # magnitude of what the present value was computed from
        self.hist = 0.0  # largest magnitude so far

    def leaves(self):
        if not self.children:
            return [self]
        return [x for c in self.children.values() for x in c.leaves()]

    def kinds(self):
        res = {self.kind}
        for c in self.children.values():
            res |= c.kinds()
        return res


class MView:
    """Reference of one view together with the view."""

    def __init__(self, index, lib, param, kind, unit, grid, extra):
        self.index, self.lib, self.param, self.kind = index, lib, param, kind
        self.unit, self.grid, self.extra = unit, grid, extra
        self.cache = None
        self.cache_int = False
        self.cache_version = 0
        self.locked = False
        self.pending = False
        self.scale = 0.0
        self.tol = 0.0

    @property
    def average(self):
        return self.kind == AVERAGE

    @property
    def is_ts(self):
        return self.kind in (POINT, AVERAGE)

    @property
    def length(self):
        return ref.nvalues(self.grid, self.average)


class Refused(Exception):
    """The reference refuses; `errors`: names of the exceptions allowed (None: any)."""

    def __init__(self, *errors):
        super().__init__(errors)
        self.errors = errors


ANY = "*"


class State:
    """Everything of one run."""

    def __init__(self, plan, run):
        self.run = run
        self.cfg = plan["cfg"]
        self.sets = [L["ParameterSet"](r) if r != "World" or i % 2 else L["ParameterSet"]()
                     for i, r in enumerate(self.cfg["roots"])]
        self.params = [{} for _ in self.sets]  # (region, name) -> MParam
        self.views = []
        self.held = []  # (view, library object, slice or None)
        self.passed = []  # arrays handed to the library: [array, copy, mutable?]
        self.step = 0
        self.scale = 0.0
        self.tol = 0.0
        self.hist = 0.0
        self.op_tol = self.op_scale = 0.0
        self.refused = 0
        self.wrote_after = {}
        self.flags = set()

    def fail(self, kind, detail):
        raise Violation(kind, "step {}: {}".format(self.step, detail), self.step)

    # ---------------- parameters

    def get(self, sid, region, name):
        return self.params[sid].get((region, name))

    def request_errors(self, sid, region, name, kind, unit, grid):
        """Names of the exceptions with which this request has to be refused (empty: accepted)."""
        errs = set()
        root = self.cfg["roots"][sid]
        if not region or not name or region[0] != root:
            return {"ValueError"}
        p = None
        missing = False
        for i in range(1, len(name) + 1):
            q = self.get(sid, region, name[:i])
            if q is None:
                missing = True
                break
            p = q
        if missing:
            if p is not None:
                if p.written:
                    errs.add("ParameterWrittenError")
                a = p
                while a is not None:
                    if a.read:
                        errs.add("ParameterReadError")
                    a = a.parent
            param = None
        else:
            param = p
        agg = param is not None and param.children
        if param is not None:
            if param.kind is not None and param.kind != kind:
                errs.add("ParameterTypeError")
            if param.kind is None:
                if kind == GENERIC and param.children:
                    errs.add("ParameterAggregationError")
                if any(k not in (None, kind) for k in param.kinds()):
                    errs.add("ParameterTypeError")
        if kind != GENERIC:
            base = param.unit if param is not None and param.kind not in (None, GENERIC) else unit
            units = [base] + ([x.unit for x in param.leaves() if x.unit] if agg else [])
            if any(not ref.unit_ok(u, unit) for u in units):
                errs.add(ANY)
        if kind in (POINT, AVERAGE):
            if len(grid) < 2:
                errs.add(ANY)
            else:
                base = param.grid if param is not None and param.grid is not None else grid
                grids = [base] + ([x.grid for x in param.leaves() if x.grid is not None] if agg else [])
                if any(g[0] > grid[1] for g in grids):
                    errs.add("InsufficientDataError" if not errs else ANY)
        return errs

    def apply_request(self, sid, region, name, kind, unit, grid):
        parent = None
        for i in range(1, len(name) + 1):
            q = self.get(sid, region, name[:i])
            if q is None:
                q = MParam(sid, region, name[:i], parent)
                if parent is not None:
                    parent.children[name[i - 1]] = q
                self.params[sid][(region, name[:i])] = q
            parent = q
        if q.kind is None:
            q.kind = kind
            q.unit = None if kind == GENERIC else unit
            q.grid = None if grid is None else grid.copy()
        q.read = True
        return q

    # ---------------- values

    def leaf_value(self, p, view):
        """Current value of a parameter without children as seen through a (new) view."""
        if not p.written:
            raise Refused("ParameterEmptyError")
        if view.kind == GENERIC:
            return p.data
        v = ref.uconv(p.data, p.unit, view.unit)
        r = ratio(p.unit, view.unit)
        self.scale = max(self.scale, p.scale * r)
        self.hist = max(self.hist, p.hist * r)
        self.tol = max(self.tol, 4 * p.tol + conv_tol(view.kind, p.grid, view.grid, view.extra))
        if view.kind == SCALAR:
            self.scale = max(self.scale, abs(v), abs(ref.uconv(0.0, p.unit, view.unit)))
            return v
        self.scale = max(self.scale, float(np.max(np.abs(v))) if len(v) else 0.0)
        try:
            return ref.tconv(v, p.grid, view.grid, view.average, view.extra)
        except ref.Insufficient:
            raise Refused("InsufficientDataError")

    def expected(self, view, refresh=True):
        """Value a read of this view has to give; raises Refused."""
        p = view.param
        self.scale = 0.0
        self.tol = 0.0
        self.hist = 0.0 if p.children or not view.is_ts else p.hist * ratio(p.unit, view.unit)
        if p.children:
            total = 0.0
            errs = set()
            for leaf in p.leaves():
                try:
                    total = total + self.leaf_value(leaf, view)
                except Refused as e:
                    errs.update(e.errors)
            if errs:
                raise Refused(*errs)
            return total
        if not view.is_ts:
            return self.leaf_value(p, view)
        if view.pending:
            self.scale = view.scale
            self.tol = view.tol
            return view.cache
        if view.cache is None or view.cache_version != p.version:
            v = self.leaf_value(p, view)
            if refresh:
                view.cache = np.array(v, dtype=float)
                view.cache_version = p.version
                view.scale = self.scale
                view.tol = self.tol
            return v
        self.tol = view.tol
        self.scale = max(view.scale, float(np.max(np.abs(view.cache))) if len(view.cache) else 0.0)
        return view.cache

    def publish(self, view, data):
        """Reference of a completed write of a view; raises Refused."""
        p = view.param
        if p.children:
            raise Refused("ParameterReadonlyError")
        if view.kind == GENERIC:
            p.data = data
        elif view.kind == SCALAR:
            p.data = ref.uconv(data, view.unit, p.unit)
            p.tol = 1e-11
            p.hist = max(p.hist, abs(p.data), abs(ref.uconv(0.0, view.unit, p.unit)))
        else:
            v = ref.uconv(data, view.unit, p.unit)
            try:
                p.data = ref.tconv(v, view.grid, p.grid, view.average, view.extra)
            except ref.Insufficient:
                raise Refused("InsufficientDataError")
            p.scale = view.scale * ratio(view.unit, p.unit)
            p.hist = max([p.hist, p.scale] + [abs(x) for x in p.data])
            p.tol = view.tol * 4 + conv_tol(view.kind, view.grid, p.grid, view.extra)
        p.written = True
        p.version += 1
        p.writers.add(view.index)
        view.cache_version = p.version
        view.pending = False

    def write_ts(self, view, data, is_int=False, tol=0.0, scale=0.0):
        """Reference of changing the cached values of a timeseries view."""
        if view.param.children:
            raise Refused("ParameterReadonlyError")
        view.tol = tol
        view.scale = max([scale] + [abs(x) for x in np.asarray(data, dtype=float)])
        if view.locked:
            view.pending = True
        else:
            self.publish(view, data)
        view.cache_int = is_int  # the array might be one of integers (until fractional values are written as a whole)
        view.cache = np.array(data, dtype=float)

    # ---------------- comparison

    def same(self, got, exp, kind, scale):
        if kind == GENERIC:
            return got is exp or got == exp
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            return False
        e = np.asarray(exp, dtype=float)
        if g.shape != e.shape:
            return False
        s = max(scale, float(np.max(np.abs(e))) if e.size else 0.0)
        return bool(np.all(np.abs(g - e) <= (self.tol + 1e-9) * s + 1e-11 * self.hist + 1e-300))

    def check_value(self, what, view, out, exp, errors, fault_fired=False):
        """Compare the outcome of a read with the reference; returns the value if there is one."""
        if fault_fired and not out.ok:
            return None
        if errors is not None:
            if out.ok:
                self.fail("read-not-refused", "{} through view {} gave {} but had to raise {}".format(
                    what, view.index, fmt(out.value), sorted(errors)))
            if ANY not in errors and type(out.exc).__name__ not in errors:
                self.fail("wrong-refusal", "{} through view {} raised {} instead of {}".format(
                    what, view.index, out, sorted(errors)))
            return None
        if not out.ok:
            self.fail("unexpected-error", "{} through view {} raised {}, expected {}".format(
                what, view.index, out, fmt(exp)))
        if not self.same(out.value, exp, view.kind, self.scale):
            self.fail("wrong-value", "{} through view {} ({} in {}) gave {}, expected {}".format(
                what, view.index, "|".join(view.param.name), view.unit, fmt(out.value), fmt(exp)))
        return out.value

    def try_expected(self, view, refresh=True):
        try:
            return self.expected(view, refresh), None
        except Refused as e:
            return None, set(e.errors)

    # ---------------- observation through fresh views, in storage unit and grid

    def fresh_view(self, p):
        s = self.sets[p.sid]
        if p.kind == SCALAR:
            return s.scalar(p.name, p.unit, region=p.region)
        if p.kind == GENERIC:
            return s.generic(p.name, region=p.region)
        return s.timeseries(p.name, p.unit, p.grid.astype("datetime64[s]"), region=p.region, timeseries_type=p.kind)

    def observe(self, p, what):
        view = MView(-1, None, p, p.kind, p.unit, p.grid, "none")
        exp, errs = self.try_expected(view)
        v = call(self.fresh_view, p)
        if not v.ok:
            self.fail("unexpected-error", "{}: new view of {} raised {}".format(what, "|".join(p.name), v))
        out = call(read_lib, v.value, p.kind)
        got = self.check_value(what + ": new view", view, out, exp, errs)
        if got is not None and not p.children and p.kind != GENERIC:
            # take over rounding so that it does not accumulate
            p.data = float(got) if p.kind == SCALAR else np.array(got, dtype=float)
            p.tol = 1e-9
            p.scale = 0.0

    def check_info(self, p, what):
        info = call(self.sets[p.sid].info, p.name, p.region)
        if not info.ok or info.value is None:
            self.fail("info", "{}: info of existing {} gave {}".format(what, "|".join(p.name), info))
        self.compare_info(info.value, p, what)

    def compare_info(self, i, p, what, unit=None):
        got = (tuple(i.name), tuple(i.region), i.parameter_type, i.unit if unit is None else p.unit)
        exp = (p.name, p.region, lib_kind(p.kind), p.unit)
        if got != exp:
            self.fail("info", "{}: info of {} is {}, expected {}".format(what, "|".join(p.name), got, exp))
        if not p.children:
            if i.empty != (not p.written):
                self.fail("info", "{}: emptiness of {} is {}, expected {}".format(
                    what, "|".join(p.name), i.empty, not p.written))
            e = call(i.ensure)
            if e.ok != p.written or (not e.ok and type(e.exc).__name__ != "ParameterEmptyError"):
                self.fail("info", "{}: ensure of {} gave {}".format(what, "|".join(p.name), e))

    def observe_all(self, what):
        for sid, ps in enumerate(self.params):
            for p in list(ps.values()):
                self.check_info(p, what)
                if p.kind is not None:
                    self.observe(p, what)

    def check_absent(self, sid, region, name, what):
        if not name or not region:
            return
        if self.get(sid, region, name) is None:
            i = call(self.sets[sid].info, name, region)
            if not i.ok or i.value is not None:
                self.fail("info", "{}: info of non-existing {} in {} gave {}".format(
                    what, "|".join(name), "|".join(region), i))

    # ---------------- arrays handed in

    def hand_in(self, arr):
        self.passed.append([arr, arr.copy()])
        return arr

    def check_passed(self):
        for arr, copy in self.passed[-6:]:
            if arr.dtype != copy.dtype or not np.array_equal(arr, copy):
                self.fail("caller-array-changed", "array {} handed in was changed to {}".format(fmt(copy), fmt(arr)))


def ratio(a, b):
    return 1.0 if a is None or b is None else ref.UNITS[a][1] / ref.UNITS[b][1]


def conv_tol(kind, source, target, extra):
    """Relative accuracy of a conversion between time grids (numerical quadrature over kinks and jumps)."""
    if kind == SCALAR:
        return 1e-11
    if kind == POINT:
        return 1e-9
    if len(source) == len(target) and np.array_equal(source, target):
        return 1e-7
    if extra == "constant" and (target[0] < source[0] or target[-1] > source[-1]):
        return 3e-2
    return 1e-3


def lib_kind(kind):
    PT = L["PT"]
    return {None: None, SCALAR: PT.SCALAR, GENERIC: PT.GENERIC, POINT: PT.POINT_TIMESERIES,
            AVERAGE: PT.AVERAGE_TIMESERIES}[kind]


def read_lib(view, kind):
    if kind in (POINT, AVERAGE):
        return np.asarray(view.values)
    return view.value


# ------------------------------------------------------------------ spelling of arguments


def spell_name(name, sp):
    return ["|".join(name), tuple(name), list(name)][sp % 3] if name else [(), []][sp % 2]


def spell_ts(kind, sp):
    PT = L["PT"]
    return {POINT: ["point", PT.POINT_TIMESERIES, "Point", "POINT"],
            AVERAGE: ["average", PT.AVERAGE_TIMESERIES, "Average", "AVERAGE"]}[kind][sp % 4]


def spell_extra(x, sp):
    return [x, L["ET"][x.upper()], x.upper()][sp % 3]


def spell_inter(sp):
    return ["linear", L["IT"].LINEAR, "LINEAR"][sp % 3]


# ------------------------------------------------------------------ execution


def array_for(seed, n, ints=False):
    """Values derived from a number: all different."""
    x = (seed * 2654435761 + 12345) % (1 << 32)
    res = []
    for _ in range(n):
        x = (x * 1103515245 + 12345) % (1 << 31)
        res.append(((x >> 8) % 20001 - 10000) / 100.0)
    return np.array(np.round(res), dtype=np.int64) if ints else np.array(res)


def num_for(seed):
    return float(array_for(seed, 1)[0])


def pick(views, i, pred):
    c = [v for v in views if pred(v)]
    return c[i % len(c)] if c else None


def execute(plan, run):
    st = State(plan, run)
    for i, step in enumerate(plan["steps"]):
        st.step = i
        do_step(st, step, run)
    st.step = len(plan["steps"])
    finish(st, run)
    run.sim_seconds += len(plan["steps"])
    run.nontrivial = nontrivial(st, run)


def nontrivial(st, run):
    check = L["check"]
    f = st.flags
    if check == "C01":
        return "foreign-read" in f and "shared-write" in f
    if check == "C02":
        return "aggregate-read" in f
    if check == "C03":
        return "refused-request" in f and len(st.views) >= 2
    if check == "C04":
        return st.refused > 0 and len(st.views) >= 1
    if check == "C05":
        return "published-by-unlock" in f or "locked-foreign-read" in f
    return "mutated" in f and "written" in f


def do_step(st, step, run):
    op = step["op"]
    fault = step.get("fault")
    if fault:
        seams.ARM.set(fault)
    fired = [0]

    def disarm():
        if fault:
            n = seams.ARM.clear()
            fired[0] += n
            if n:
                run.faults["{}:{}".format(fault["site"], fault["exc"])] += n
        return fired[0]

    st.disarm = disarm
    run.stats[op] += 1
    res = HANDLERS[op](st, step, run)
    disarm()
    run.log(st.step, op, res or "skip")
    run.signature.append((op, (res or "skip")[:12]))
    st.check_passed()
    if res and (res.startswith("refused") or res.startswith("faulted")):
        st.refused += 1
        run.stats["refusals"] += 1
        if st.cfg["observe"] >= 1:
            st.observe_all("after {} ({})".format(op, res))
    elif res == "written" and st.cfg["observe"] >= 2:
        st.observe_all("after " + op)
    run.states.add(stable_hash([
        (p.kind, len(p.children), p.written, p.read, tuple(
            (v.locked, v.pending, v.cache is not None, v.cache_version == p.version)
            for v in st.views if v.param is p))
        for ps in st.params for p in ps.values()]))


def finish(st, run):
    st.observe_all("at the end")
    for v in st.views:
        exp, errs = st.try_expected(v)
        got = st.check_value("final read", v, call(read_lib, v.lib, v.kind), exp, errs)
        run.log("final", v.index, "none" if got is None or v.kind == GENERIC else shorten(got))
    for v, h, sl in st.held:
        hread(st, v, h, sl)
    run.probes["views"] += len(st.views)


def shorten(x):
    return fmt(np.round(np.asarray(x, dtype=float), 3))


# ---- requests


def do_request(st, step, bad=None):
    sid = step["set"] % len(st.sets)
    sp = step["sp"]
    name = tuple(step["name"].split("|"))
    region = list(step["region"].split("|"))
    region[0] = st.cfg["roots"][sid] if region[0] == "World" else region[0]
    region = tuple(region)
    kind, unit, extra = step["kind"], step["unit"], step["extra"]
    grid = ref.GRIDS[step["grid"]]
    force = None
    ts_arg = spell_ts(kind, sp >> 2) if kind in (POINT, AVERAGE) else None
    extra_arg = spell_extra(extra, sp >> 4)
    gridobject = None
    if bad == "unit":
        unit = ref.BAD_UNITS[sp % len(ref.BAD_UNITS)]
        if kind == GENERIC:
            kind, ts_arg = POINT, "point"
    elif bad == "incompatible":
        p = st.get(sid, region, name)
        if kind == GENERIC:
            kind, ts_arg = POINT, "point"
        if p is None or p.unit is None:
            unit = ref.BAD_UNITS[0]
        else:
            unit = "km" if ref.UNITS[p.unit][0] != "length" else "K"
    elif bad == "grid":
        if kind not in (POINT, AVERAGE):
            kind, ts_arg = POINT, "point"
        grid = ref.GRIDS[["single", "none"][sp % 2]]
    elif bad == "root":
        region = ("Elsewhere",) + region[1:]
    elif bad == "noname":
        name = ()
    elif bad == "noregion":
        region = ()
    elif bad == "tstype":
        kind = POINT
        ts_arg = ["nonsense", L["PT"].SCALAR, 17][sp % 3]
        force = {ANY}
    elif bad == "extra":
        kind = POINT
        ts_arg = "point"
        extra_arg = "nonsense"
        force = {ANY}
    elif bad == "type":
        p = st.get(sid, region, name)
        if p is not None and p.kind is not None:
            kind = [k for k in (POINT, AVERAGE, SCALAR, GENERIC) if k != p.kind][sp % 3]
        else:
            kind = kind if kind in (POINT, AVERAGE) else POINT
            force = {ANY}
            ts_arg = "nonsense"
        if force is None and kind in (POINT, AVERAGE):
            ts_arg = kind
    elif bad == "gridobject":
        if kind not in (POINT, AVERAGE):
            kind, ts_arg = POINT, "point"
        gridobject = seams.Faulty(list(range(5)), "array", "MemoryError")
        gridobject._hit("len")
        force = {ANY}
    gsec = ref.secs(grid) if kind in (POINT, AVERAGE) else None
    errs = force or st.request_errors(sid, region, name, kind, unit, gsec if gsec is not None else ())
    s = st.sets[sid]
    nm = spell_name(name, sp)
    default_region = region == ("World",) and sp & 64
    kw = {} if default_region else {"region": spell_name(region, sp >> 1)}
    if kind == SCALAR:
        out = call(s.scalar, nm, unit, **kw)
    elif kind == GENERIC:
        out = call(s.generic, nm, **kw)
    else:
        g = gridobject if gridobject is not None else st.hand_in(np.array(grid))
        out = call(s.timeseries, nm, unit, g, timeseries_type=ts_arg, interpolation=spell_inter(sp >> 6),
                   extrapolation=extra_arg, **kw)
    faulted = st.disarm()
    label = "{} {} of {} in {} for {}".format(
        kind, "view", "|".join(name), unit if kind != GENERIC else None, "|".join(region))
    if faulted and not out.ok:
        st.check_absent(sid, region, name, "after failed request")
        return "faulted"
    if errs:
        if out.ok:
            st.fail("request-not-refused", "{} had to be refused with {}".format(label, sorted(errs)))
        if ANY not in errs and type(out.exc).__name__ not in errs:
            st.fail("wrong-refusal", "{} raised {} instead of {}".format(label, out, sorted(errs)))
        if ANY in errs and not isinstance(out.exc, Exception):
            st.fail("wrong-refusal", "{} raised {}".format(label, out))
        st.check_absent(sid, region, name, "after refused request")
        st.flags.add("refused-request")
        st.run.probes["refused:" + "/".join(sorted(errs))] += 1
        return "refused"
    if not out.ok:
        st.fail("unexpected-error", "{} raised {}".format(label, out))
    p = st.apply_request(sid, region, name, kind, unit, gsec)
    v = MView(len(st.views), out.value, p, kind, unit, gsec, extra)
    if kind in (POINT, AVERAGE) and out.value.length != v.length:
        st.fail("info", "length of {} is {}, expected {}".format(label, out.value.length, v.length))
    if kind != GENERIC and out.value.unit != unit:
        st.fail("info", "unit of {} is {}".format(label, out.value.unit))
    st.compare_info(out.value, p, "new " + label, unit)
    st.views.append(v)
    return "view"


def h_view(st, step, run):
    return do_request(st, step)


def h_badview(st, step, run):
    return do_request(st, step, step["bad"])


# ---- reading


def h_read(st, step, run):
    v = pick(st.views, step["v"], lambda v: True)
    if v is None:
        return None
    exp, errs = st.try_expected(v)
    before = v.cache_version
    out = call(read_lib, v.lib, v.kind)
    fired = st.disarm()
    got = st.check_value("read", v, out, exp, errs, fired)
    if fired and not out.ok:
        st.observe_all("after failed read")
        exp, errs = st.try_expected(v)
        out = call(read_lib, v.lib, v.kind)
        st.check_value("read after failed read", v, out, exp, errs)
        return "faulted"
    if got is None:
        return "refused read"
    note_read(st, v, run)
    adopt(v, got)
    if isinstance(got, np.ndarray) and step["s"] % 3 == 0:
        got[...] = 1000  # what was read belongs to the reader
    if step["s"] % 5 == 0:
        call(repr, v.lib.values if v.is_ts else v.lib)
    return "read"


def adopt(v, got):
    if v.is_ts and not v.param.children and v.cache is not None:
        v.cache = np.array(got, dtype=float)
        v.tol = 1e-11


def note_read(st, v, run):
    p = v.param
    if p.children:
        st.flags.add("aggregate-read")
        if any(x.version for x in p.leaves()):
            run.probes["aggregate reads"] += 1
    elif p.writers - {v.index}:
        st.flags.add("foreign-read")
        run.probes["reads of others' writes"] += 1
    if any(w.locked and w.pending for w in st.views if w.param is p and w is not v):
        st.flags.add("locked-foreign-read")
        run.probes["reads while others have pending writes"] += 1


def h_hold(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts)
    if v is None:
        return None
    exp, errs = st.try_expected(v)
    out = call(lambda: v.lib.values)
    fired = st.disarm()
    if fired and not out.ok:
        return "faulted"
    if errs is not None:
        st.check_value("values", v, out, exp, errs)
        return "refused read"
    if not out.ok:
        st.fail("unexpected-error", "values of view {} raised {}".format(v.index, out))
    h = out.value
    sl = None
    if step["s"] % 3 == 0 and v.length > 1:
        a = step["s"] % v.length
        sl = [slice(a, None), slice(None, None, 2), slice(None, a + 1), slice(-2, None)][(step["s"] >> 6) % 4]
        hs = call(lambda: h[sl])
        if not hs.ok:
            st.fail("unexpected-error", "slice of view {} raised {}".format(v.index, hs))
        h = hs.value
    st.held.append((v, h, sl))
    return "held"


def hread(st, v, h, sl, s=0):
    exp, errs = st.try_expected(v)
    if exp is not None and sl is not None:
        exp = exp[sl]
    way = s % 4
    fns = [lambda: np.asarray(h), lambda: np.array(list(h)), lambda: h + 0.0, lambda: np.array([h[i] for i in range(len(h))])]
    out = call(fns[way])
    fired = st.disarm()
    got = st.check_value("array handed out earlier", v, out, exp, errs, fired)
    if got is None:
        return "refused read" if not fired else "faulted"
    if sl is None:
        adopt(v, got)
    return "read"


def h_hread(st, step, run):
    if not st.held:
        return None
    v, h, sl = st.held[step["v"] % len(st.held)]
    note_read(st, v, run)
    return hread(st, v, h, sl, step["s"])


def h_take(st, step, run):
    """Take an array out and change it."""
    v = pick(st.views, step["v"], lambda v: v.is_ts)
    if v is None:
        return None
    exp, errs = st.try_expected(v)
    out = call(lambda: np.asarray(v.lib.values) if step["s"] % 2 else v.lib.values * 1.0)
    got = st.check_value("array taken out", v, out, exp, errs)
    if got is None:
        return "refused read"
    adopt(v, got)
    got[...] = -17
    st.flags.add("mutated")
    return "taken"


# ---- writing


def finish_write(st, v, out, apply, what, exact=None):
    """Judge the outcome of a write; `apply` does it in the reference."""
    fired = st.disarm()
    if fired and not out.ok:
        return "faulted"
    snap = (v.cache, v.cache_int, v.cache_version, v.pending, v.tol, v.scale)
    p = v.param
    psnap = (p.data, p.written, p.version, set(p.writers), p.tol, p.scale, p.hist)
    try:
        apply()
        errs = None
    except Refused as e:
        errs = set(e.errors)
        v.cache, v.cache_int, v.cache_version, v.pending, v.tol, v.scale = snap
        p.data, p.written, p.version, p.writers, p.tol, p.scale, p.hist = psnap
    if errs is not None:
        if out.ok:
            st.fail("write-not-refused", "{} through view {} of {} had to raise {}".format(
                what, v.index, "|".join(p.name), sorted(errs)))
        if ANY not in errs and type(out.exc).__name__ not in errs:
            st.fail("wrong-refusal", "{} through view {} raised {} instead of {}".format(
                what, v.index, out, sorted(errs)))
        return "refused " + "/".join(sorted(errs))
    if not out.ok:
        st.fail("unexpected-error", "{} through view {} of {} raised {}".format(
            what, v.index, "|".join(p.name), out))
    if any(w.param is p and w is not v for w in st.views):
        st.flags.add("shared-write")
    st.flags.add("written")
    if v.is_ts and step_own_read(st):
        exp, errs = st.try_expected(v)
        got = st.check_value("own read after " + what, v, call(read_lib, v.lib, v.kind), exp, errs)
        if exact is not None and got is not None and not np.array_equal(np.asarray(got, dtype=float), exact):
            if np.max(np.abs(np.asarray(got, dtype=float) - exact)) > 1e-12 * max(1e-300, np.max(np.abs(exact))):
                st.fail("wrong-value", "writer reads {} after writing {}".format(fmt(got), fmt(exact)))
        if got is not None:
            adopt(v, got)
    return "written"


def step_own_read(st):
    return st.step % 3 == 0 or st.cfg["observe"] >= 2


def h_write(st, step, run):
    v = pick(st.views, step["v"], lambda v: True)
    if v is None:
        return None
    s = step["s"]
    if v.kind == GENERIC:
        val = [s, "text%d" % s, True, None, {"a": s}, (s, 2), 1.5][s % 7]
        out = call(setattr, v.lib, "value", val)
        return finish_write(st, v, out, lambda: st.publish(v, val), "write")
    if v.kind == SCALAR:
        val = num_for(s)
        if s % 5 == 0:
            val = int(val)
        elif s % 5 == 1:
            val = np.float64(val)
        out = call(setattr, v.lib, "value", val)
        return finish_write(st, v, out, lambda: st.publish(v, float(val)), "write")
    ints = s % 8 == 0
    arr = array_for(s, v.length, ints)
    data = np.array(arr, dtype=float)
    val = st.hand_in(arr) if s % 3 else arr.tolist()
    if s % 3 and s % 7 == 0 and not ints:
        val = st.hand_in(np.repeat(arr, 2))[::2]
    out = call(setattr, v.lib, "values", val)
    return finish_write(st, v, out, lambda: st.write_ts(v, data, ints), "write", data)


def current(st, v):
    """Current values for a change of single elements; raises Refused. Read-only is refused first or last."""
    if v.param.children:
        raise Refused("ParameterReadonlyError", "ParameterEmptyError", "InsufficientDataError")
    return np.array(st.expected(v), dtype=float)


def element_write(st, v, lib_op, change, what, held=None):
    try:
        return element_write_(st, v, lib_op, change, what, held)
    finally:
        st.op_tol = st.op_scale = 0.0


def element_write_(st, v, lib_op, change, what, held=None):
    """`lib_op(h)` changes the library's array, `change(x)` a numpy array."""
    pre, errs = None, None
    try:
        pre = current(st, v)
        scale, tol = max(st.scale, st.scale * (1 + st.op_scale), st.op_scale), max(st.tol, st.op_tol) * 2
    except Refused as e:
        errs = set(e.errors)
    out = call(lambda: lib_op(held if held is not None else v.lib.values))

    def apply():
        if errs is not None:
            raise Refused(*errs)
        new = pre.copy()
        change(new)
        st.write_ts(v, new, v.cache_int, tol, scale)

    return finish_write(st, v, out, apply, what)


def val_for(v, s):
    """A value which fits the array (whole numbers for arrays of integers)."""
    x = num_for(s)
    return int(round(x)) if v.cache_int else x


def prepare_ints(st, v):
    st.try_expected(v)  # brings cache_int up to date


def h_elem(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0)
    if v is None:
        return None
    prepare_ints(st, v)
    s = step["s"]
    i = s % v.length
    if s & 1024:
        i -= v.length
    x = val_for(v, s)
    held = pick([h for h in st.held if h[0] is v and h[2] is None], s >> 4, lambda h: True)

    def lib_op(h):
        h[i] = x

    def change(a):
        a[i] = x

    return element_write(st, v, lib_op, change, "element write", held[1] if held and s & 2048 else None)


def h_slice(st, step, run):
    s = step["s"]
    held = pick(st.held, step["v"], lambda h: h[2] is not None)
    if held is not None and s % 2:  # through a slice handed out earlier
        v, h, sl = held
        prepare_ints(st, v)
        n = len(range(*sl.indices(v.length)))
        if n == 0:
            return None
        x = val_for(v, s)
        i = s % n

        def lib_op(h):
            h[i] = x

        def change(a):
            a[sl][i] = x

        return element_write(st, v, lib_op, change, "write to slice", h)
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 1)
    if v is None:
        return None
    prepare_ints(st, v)
    a = s % v.length
    key = [slice(a, None), slice(None, None, 2), slice(0, a + 1), slice(None), [0, v.length - 1], slice(a, a)][(s >> 5) % 6]
    n = v.length if not isinstance(key, list) else 2
    n = len(np.arange(v.length)[key])
    x = array_for(s, n, v.cache_int)
    if s & 4096:
        x = val_for(v, s)

    def lib_op(h):
        h[key] = x

    def change(a):
        a[key] = x

    return element_write(st, v, lib_op, change, "slice write")


def operand(st, v, step):
    """Second operand: number, array or another view's array; (library value, reference value)."""
    s = step["s"]
    if s % 3 == 0:
        x = val_for(v, s)
        return x, x
    if s % 3 == 1 or "w" not in step:
        x = array_for(s, v.length, v.cache_int)
        return st.hand_in(x), x.copy()
    w = pick(st.views, step["w"], lambda w: w.is_ts and w.length == v.length and w.kind == v.kind)
    exp, errs = st.try_expected(w)
    st.op_tol, st.op_scale = st.tol, st.scale
    if errs is not None or v.cache_int:
        x = val_for(v, s)
        return x, x
    out = call(lambda: w.lib.values)
    if not out.ok:
        x = val_for(v, s)
        return x, x
    return out.value, np.array(exp, dtype=float)


UFUNCS = [np.add, np.subtract, np.multiply, np.maximum, np.minimum]


def h_ufunc(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0)
    if v is None:
        return None
    prepare_ints(st, v)
    s = step["s"]
    uf = UFUNCS[(s >> 3) % len(UFUNCS)]
    b_lib, b = operand(st, v, step)
    if isinstance(b, np.ndarray) and s & 64:
        # result of others into this one
        y = array_for(s + 1, v.length, v.cache_int)
        return element_write(st, v, lambda h: uf(y, b_lib, out=h), lambda a: uf(y, b, out=a, casting="unsafe"),
                             "output argument")
    return element_write(st, v, lambda h: uf(h, b_lib, out=h), lambda a: uf(a.copy(), b, out=a, casting="unsafe"),
                         "output argument")


def h_two(st, step, run):
    """A ufunc with two outputs in two views."""
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0 and not v.param.children)
    if v is None:
        return None
    w = pick(st.views, step["w"], lambda w: w.is_ts and w.length == v.length and w.param is not v.param
             and not w.param.children)
    if w is None:
        return None
    prepare_ints(st, v)
    prepare_ints(st, w)
    if v.cache_int or w.cache_int or st.try_expected(v)[1] or st.try_expected(w)[1]:
        return None
    # both need to be publishable
    for z in (v, w):
        try:
            ref.tconv(np.zeros(z.length), z.grid, z.param.grid, z.average, z.extra)
        except ref.Insufficient:
            return None
    x = array_for(step["s"], v.length)
    out = call(lambda: np.modf(x, out=(v.lib.values, w.lib.values)))
    frac, whole = np.modf(x)
    res = finish_write(st, v, out, lambda: st.write_ts(v, frac), "first output", frac)
    finish_write(st, w, out, lambda: st.write_ts(w, whole), "second output", whole)
    return res


def h_iop(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0)
    if v is None:
        return None
    prepare_ints(st, v)
    s = step["s"]
    x = val_for(v, s)
    k = (s >> 3) % 3
    import operator

    iop = [operator.iadd, operator.isub, operator.imul][k]
    op = [operator.add, operator.sub, operator.mul][k]

    def change(a):
        a[:] = op(a.copy(), x)

    if s & 64 or "fault" in step:  # the statement below consists of two writes
        def lib_op(h):
            iop(h, x)
        return element_write(st, v, lib_op, change, "in-place operator")
    # v.values += x reads, changes, and writes as a whole

    def stmt(_):
        if k == 0:
            v.lib.values += x
        elif k == 1:
            v.lib.values -= x
        else:
            v.lib.values *= x

    return element_write(st, v, stmt, change, "in-place operator")


def h_at(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 1)
    if v is None:
        return None
    prepare_ints(st, v)
    s = step["s"]
    x = val_for(v, s)
    idx = [0, s % v.length, v.length - 1]
    return element_write(st, v, lambda h: np.add.at(h, idx, x), lambda a: np.add.at(a, idx, x), "ufunc.at")


def h_assign(st, step, run):
    """Write what another view has."""
    v = pick(st.views, step["v"], lambda v: v.is_ts)
    if v is None:
        return None
    w = pick(st.views, step["w"], lambda w: w.is_ts and w.length == v.length)
    exp, errs = st.try_expected(w)
    if errs is not None:
        return None
    src = call(lambda: w.lib.values)
    if not src.ok:
        st.disarm()
        if not seams_fired(st):
            st.fail("unexpected-error", "values of view {} raised {}".format(w.index, src))
        return "faulted"
    data = np.array(exp, dtype=float)
    tol, scale = st.tol * 2, st.scale * 2
    is_int = w.cache_int
    if step["s"] % 2:
        data = data * 2
        out = call(lambda: setattr(v.lib, "values", src.value * 2))
    else:
        out = call(setattr, v.lib, "values", src.value)
    return finish_write(st, v, out, lambda: st.write_ts(v, data, is_int, tol, scale), "assignment")


def seams_fired(st):
    return st.disarm() > 0


def h_arith(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0)
    if v is None:
        return None
    s = step["s"]
    exp, errs = st.try_expected(v)
    if errs is not None:
        return None
    exp = np.array(exp, dtype=float)
    tol1, scale = st.tol, st.scale
    held = pick([h for h in st.held if h[0] is v and h[2] is None], s >> 4, lambda h: True)
    h = call(lambda: held[1] if held else v.lib.values)
    if not h.ok:
        if not seams_fired(st):
            st.fail("unexpected-error", "values of view {} raised {}".format(v.index, h))
        return "faulted"
    h = h.value
    w = pick(st.views, step["w"], lambda w: w.is_ts and w.length == v.length)
    exp2, errs2 = st.try_expected(w)
    h2 = call(lambda: w.lib.values) if errs2 is None else None
    scale = max(scale, st.scale)
    c = num_for(s)
    k = s % 9
    if k >= 7 and (h2 is None or not h2.ok):
        k = 0
    table = [
        (lambda: h + c, lambda: exp + c),
        (lambda: c - h, lambda: c - exp),
        (lambda: h * c, lambda: exp * c),
        (lambda: np.abs(h), lambda: np.abs(exp)),
        (lambda: np.maximum(h, c), lambda: np.maximum(exp, c)),
        (lambda: np.array([float(np.sum(np.asarray(h)))]), lambda: np.array([exp.sum()])),
        (lambda: -h, lambda: -exp),
        (lambda: h + h2.value, lambda: exp + exp2),
        (lambda: np.subtract(h2.value, h), lambda: exp2 - exp),
    ]
    out = call(table[k][0])
    e = table[k][1]()
    if seams_fired(st) and not out.ok:
        return "faulted"
    if not out.ok:
        st.fail("unexpected-error", "arithmetic with view {} raised {}".format(v.index, out))
    got = np.asarray(out.value, dtype=float)
    tol = (st.tol + tol1 + 1e-9) * (max(scale, np.max(np.abs(exp)), np.max(np.abs(e))) * (1 + abs(c)) * len(exp)
                            + (0 if exp2 is None else np.max(np.abs(exp2)) if len(exp2) else 0) + 1)
    if got.shape != e.shape or np.any(np.abs(got - e) > tol):
        st.fail("wrong-value", "arithmetic {} with view {} gave {}, expected {}".format(k, v.index, fmt(got), fmt(e)))
    if isinstance(out.value, np.ndarray) and out.value.flags.writeable and out.value.shape:
        out.value[...] = 4711.0  # a result belongs to the caller
    return "arith"


# ---- refused writes


def h_agwrite(st, step, run):
    """All means of writing, through an aggregated view."""
    v = pick(st.views, step["v"], lambda v: bool(v.param.children))
    if v is None:
        return None
    s = step["s"]
    run.probes["writes to aggregates attempted"] += 1
    if v.kind == SCALAR:
        out = call(setattr, v.lib, "value", num_for(s))
    elif v.kind == GENERIC:
        return None
    else:
        arr = array_for(s, max(1, v.length))
        held = pick([h for h in st.held if h[0] is v], s >> 4, lambda h: True)

        def h():
            return held[1] if held and s & 4096 else v.lib.values

        def inplace():
            x = h()
            x += 1.0

        def stmt():
            v.lib.values += 1.0

        def elem():
            h()[0] = 3.0

        def full():
            h()[:] = 5.0

        def sl():
            h()[0:1][0] = 7.0

        def out_slice():
            x = h()[:1]
            np.add(x, 1.0, out=x)

        def locked():
            v.lib.lock()
            try:
                v.lib.values = arr
            finally:
                v.lib.unlock()

        ways = [
            lambda: setattr(v.lib, "values", arr), elem, full, inplace, stmt, sl,
            lambda: np.multiply(h(), 2.0, out=h()), lambda: np.add.at(h(), [0], 1.0), out_slice,
            lambda: np.add(np.arange(float(len(arr))), 1.0, out=h()), locked,
            lambda: np.modf(arr, out=(h(), np.empty(len(arr)))),
            lambda: np.modf(arr, out=(np.empty(len(arr)), h())),
        ]
        out = call(ways[s % len(ways)])
    st.disarm()
    if out.ok:
        st.fail("write-not-refused", "write {} to aggregated {} was accepted".format(s % 13, "|".join(v.param.name)))
    exp, errs = st.try_expected(v)
    allowed = {"ParameterReadonlyError"} | (errs or set())
    if type(out.exc).__name__ not in allowed and not step.get("fault"):
        st.fail("wrong-refusal", "write to aggregated {} raised {} instead of {}".format(
            "|".join(v.param.name), out, sorted(allowed)))
    return "refused readonly"


def h_badwrite(st, step, run):
    """Whole values which cannot be written."""
    s = step["s"]
    v = pick(st.views, step["v"], lambda v: v.kind != GENERIC)
    if v is None:
        return None
    exc = sorted(seams.EXCEPTIONS)[(s >> 3) % len(seams.EXCEPTIONS)]
    if v.kind == SCALAR:
        val = ["text", None, {}, seams.FaultyNumber(exc)][s % 4]
        if s % 4 == 3:
            run.faults["input-number:" + exc] += 1
        out = call(setattr, v.lib, "value", val)
    else:
        if v.locked:
            return None
        n = v.length
        arr = array_for(s, n)
        k = s % 9
        val = [
            lambda: array_for(s, n + 1),
            lambda: array_for(s, max(0, n - 1)),
            lambda: ["a"] * n,
            lambda: [None] + list(arr[1:]),
            lambda: seams.Faulty(arr, "array", exc),
            lambda: seams.Faulty(arr, "len", exc),
            lambda: list(arr[1:]) + [seams.FaultyNumber(exc)],
            lambda: 5.0,
            lambda: np.array([arr, arr]).T,
        ][k]()
        if n == 0 and k in (1, 2, 3, 6, 8):
            return None
        if k in (4, 5, 6):
            run.faults["input-array:" + exc] += 1
        if k == 5:
            class Bad(seams.Faulty):
                __array__ = None
            val = Bad(arr, "len", exc)
            if n == 0:
                return None
        out = call(setattr, v.lib, "values", val)
    st.disarm()
    if out.ok:
        st.fail("write-not-refused", "write of unusable value ({}) through view {} was accepted".format(
            s % 9 if v.is_ts else s % 4, v.index))
    return "refused badwrite"


def h_badelem(st, step, run):
    """Elements which cannot be written."""
    s = step["s"]
    v = pick(st.views, step["v"], lambda v: v.is_ts and v.length > 0)
    if v is None:
        return None
    exc = sorted(seams.EXCEPTIONS)[(s >> 3) % len(seams.EXCEPTIONS)]
    n = v.length
    prepare_ints(st, v)

    def idx():
        v.lib.values[n + 3] = 1.0

    def text():
        v.lib.values[0] = "x"

    def length():
        v.lib.values[:] = array_for(s, n + 1)

    def key():
        v.lib.values["a"] = 1.0

    def number():
        v.lib.values[0] = seams.FaultyNumber(exc)

    def faulty():
        v.lib.values[:] = seams.Faulty(array_for(s, n), "array", exc)

    def out_shape():
        np.add(v.lib.values, array_for(s, n + 1), out=v.lib.values)

    def at():
        np.add.at(v.lib.values, [0, n + 5], 1.0)

    def uf():
        np.add(v.lib.values, "x", out=v.lib.values)

    def partial():
        calls = [0]

        def f(x):
            calls[0] += 1
            if calls[0] > n // 2:
                raise seams.EXCEPTIONS[exc]("injected")
            return x + 1

        np.frompyfunc(f, 1, 1)(v.lib.values, out=v.lib.values, casting="unsafe")

    ways = [idx, text, length, key, number, faulty, out_shape, at, uf, partial]
    if n == 1:
        ways = [idx, text, key, number, faulty, at, uf, partial]
    k = s % len(ways)
    if ways[k] in (number, faulty, partial):
        run.faults["input-element:" + exc] += 1
    out = call(ways[k])
    st.disarm()
    if out.ok:
        st.fail("write-not-refused", "unusable element ({}) through view {} was accepted".format(
            ways[k].__name__, v.index))
    return "refused badelem"


# ---- locks


def h_lock(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and not v.param.children)
    if v is None:
        return None
    out = call(v.lib.lock)
    if not out.ok:
        st.fail("unexpected-error", "lock raised {}".format(out))
    v.locked = True
    return "locked"


def h_unlock(st, step, run):
    v = pick(st.views, step["v"], lambda v: v.is_ts and (v.locked or step["s"] % 5 == 0) and not v.param.children)
    if v is None:
        return None
    out = call(v.lib.unlock)
    had = v.pending

    def apply():
        v.locked = False
        if v.pending:
            try:
                st.publish(v, v.cache)
            except Refused:
                v.locked = True
                raise

    if not had:
        fired = st.disarm()
        if not out.ok:
            st.fail("unexpected-error", "unlock without pending writes raised {}".format(out))
        v.locked = False
        if step["s"] % 2:
            st.observe(v.param, "after unlock without pending writes")
        run.probes["unlocked without pending"] += 1
        return "unlocked"
    res = finish_write(st, v, out, apply, "unlock")
    if res == "written":
        st.flags.add("published-by-unlock")
        run.probes["unlocked with pending"] += 1
    return res


# ---- information


def h_info(st, step, run):
    sid = step["set"] % len(st.sets)
    name = tuple(step["name"].split("|"))
    region = tuple([st.cfg["roots"][sid]] + step["region"].split("|")[1:])
    p = st.get(sid, region, name)
    out = call(st.sets[sid].info, spell_name(name, step["sp"]), spell_name(region, step["sp"] >> 2))
    if p is None:
        if not out.ok or out.value is not None:
            st.fail("info", "info of non-existing {} gave {}".format("|".join(name), out))
        other = call(st.sets[sid].info, name, ("Elsewhere",))
        if not other.ok or other.value is not None:
            st.fail("info", "info for a foreign root region gave {}".format(other))
        return "absent"
    if not out.ok or out.value is None:
        st.fail("info", "info of {} gave {}".format("|".join(name), out))
    st.compare_info(out.value, p, "info")
    return "info"


def h_ensure(st, step, run):
    v = pick(st.views, step["v"], lambda v: not v.param.children)
    if v is None:
        return None
    st.compare_info(v.lib, v.param, "view", v.unit)
    return "ensured"


def h_unread(st, step, run):
    """Read what has never been written."""
    v = pick(st.views, step["v"], lambda v: not v.param.written)
    if v is None:
        return None
    exp, errs = st.try_expected(v)
    got = st.check_value("read", v, call(read_lib, v.lib, v.kind), exp, errs)
    return "read" if got is not None else "refused read"


# ---- caller's arrays


def h_mutate(st, step, run):
    """The caller changes an array it handed in before."""
    if not st.passed:
        return None
    arr, copy = st.passed[step["v"] % len(st.passed)]
    if arr.dtype.kind == "M":
        arr += np.timedelta64(3, np.datetime_data(arr.dtype)[0])
    else:
        arr *= 2
        arr += 4711
    st.passed[step["v"] % len(st.passed)][1] = arr.copy()
    st.flags.add("mutated")
    if step["s"] % 3 == 0:
        st.observe_all("after the caller changed its array")
    return "mutated"


HANDLERS = {k[2:]: f for k, f in list(globals().items()) if k.startswith("h_")}
