"""
World of unit conversions: one process-wide registry, a history of conversions with and without metric contexts, refused
ones, interrupted ones and failing reads of the conversion table.

Reference: the same conversion alone in a pristine process, and, for the units built from documented pieces, factors
worked out independently.
"""
import builtins
import io
import math

import numpy as np

from ..common import Violation, call, rng_for, stable_hash, weighted
from ..seams import ARM, EXCEPTIONS
from ..trace import LineFault

BATCH = 1
L = {}
SOLO = {}

MASS = {"g": 1e-12, "kg": 1e-9, "t": 1e-6, "kt": 1e-3, "Mt": 1.0, "Gt": 1e3}
TIME = {"yr": 1.0, "a": 1.0, "year": 1.0, "annum": 1.0, "d": 1 / 365.25, "day": 1 / 365.25, "s": 1 / 365.25 / 86400}
GASES = {  # name: (base, factor)
    "C": ("C", 1.0), "CO2": ("C", 12 / 44), "carbon_dioxide": ("C", 12 / 44), "CH4": ("CH4", 1.0), "N": ("N", 1.0),
    "N2O": ("N", 14 / 44), "N2ON": ("N", 14 / 28), "NH3": ("N", 14 / 17), "NOx": ("NOx", 1.0), "NOX": ("NOx", 1.0),
    "SF6": ("SF6", 1.0), "CF4": ("CF4", 1.0), "HFC23": ("HFC23", 1.0), "HFC134a": ("HFC134a", 1.0),
    "HFC134A": ("HFC134a", 1.0), "BC": ("BC", 1.0),
}
JOINT = {"C", "CO2", "CH4", "N", "N2O", "N2ON", "NH3", "NOx", "SF6", "CF4", "HFC23", "HFC134a", "BC"}
GWP = {  # mass of CO2 equivalent to one mass of gas
    "SARGWP100": {"CO2": 1, "CH4": 21, "N2O": 310, "SF6": 23900, "CF4": 6500, "HFC23": 11700, "HFC134a": 1300},
    "AR4GWP100": {"CO2": 1, "CH4": 25, "N2O": 298, "SF6": 22800, "CF4": 7390, "HFC23": 14800, "HFC134a": 1430},
    "AR5GWP100": {"CO2": 1, "CH4": 28, "N2O": 265, "SF6": 23500, "CF4": 6630, "HFC23": 12400, "HFC134a": 1300},
}
OTHER = [
    ["W/m^2", "mW/m^2", "kW/m^2", "W / meter ** 2", "W", "J/s/m^2"],
    ["K", "degC", "degF", "mK", "delta_degC", "degreeC", "degreeF", "kelvin"],
    ["ppm", "ppb", "ppt"],
    ["m", "km", "mm"], ["s", "day", "h", "yr", "d"], ["", "dimensionless", "percent"],
    ["GtC", "CO2 * Gt", "Mt CO2", "kg C"],
    ["HFC143a", "C2F6", "cC4F8", "CFC11", "HALON1211", "CH3Br", "NF3", "CH2Cl2"],
]
BAD = ["bogus", "GtXX/yr", "tSO3", "K/", "degC * m", "SO2", "kt//d", "1/0"]
CONTEXTS = ["SARGWP100", "AR4GWP100", "AR5GWP100", "CH4_conversions", "NOx_conversions"]
BAD_CONTEXTS = ["AR6GWP100", "", "ar4gwp100", "CH4"]


def setup(req):
    import pandas

    read_csv = pandas.read_csv

    def sim_read_csv(*args, **kwargs):
        L["reads"] = L.get("reads", 0) + 1
        ARM.hit("read_csv")
        return read_csv(*args, **kwargs)

    pandas.read_csv = sim_read_csv
    for mod in (builtins, io):
        def sim_open(file, *args, _open=mod.open, **kwargs):
            if str(file).endswith("metric_conversions.csv"):
                ARM.hit("read_csv")
            return _open(file, *args, **kwargs)

        mod.open = sim_open
    from .. import seams

    seams.install()
    import openscm.core
    import openscm.core.units

    L["UnitConverter"] = openscm.core.units.UnitConverter
    L["ParameterSet"] = openscm.core.ParameterSet
    L["registry"] = getattr(openscm.core.units, "_unit_registry", None)  # only to count states


# ------------------------------------------------------------------ solo reference


def observe(u):
    """Everything a converter does."""
    x = np.array([-3.0, 0.0, 2.5, 1e6])
    keep = x.copy()
    f, b = u.convert_from(x), u.convert_to(x)
    if not np.array_equal(x, keep):
        raise Violation("argument-changed", "the array converted was changed")
    return {"f": [float(v) for v in f] + [float(u.convert_from(1.0))],
            "b": [float(v) for v in b] + [float(u.convert_to(1.0))]}


def outcome(key):
    out = call(L["UnitConverter"], key[0], key[1], key[2])
    if not out.ok:
        return {"exc": type(out.exc).__name__}
    return observe(out.value)


def keys_of(plan):
    for s in plan["steps"]:
        if s["op"] == "contexts":
            yield "contexts"
        if "key" in s:
            yield tuple(s["key"])


def prepare(plans):
    """Results of conversions alone, each in its own process; the contexts are loaded once before a set of them."""
    from ..lane import in_pristine_fork

    todo = sorted({k for p in plans for k in keys_of(p)} - set(SOLO), key=str)

    def all_alone(keys):
        return [in_pristine_fork(lambda k=k: outcome(k)) for k in keys]

    cold = [k for k in todo if k != "contexts" and k[2] is None]
    warm = [k for k in todo if k != "contexts" and k[2] is not None]
    SOLO.update(zip(cold, all_alone(cold)))
    if "contexts" in todo:
        SOLO["contexts"] = in_pristine_fork(lambda: sorted(L["UnitConverter"]("C", "CO2").contexts))
    if warm:
        def load_first():
            L["UnitConverter"]("CH4", "CO2", "AR4GWP100")
            return all_alone(warm)

        SOLO.update(zip(warm, in_pristine_fork(load_first)))


# ------------------------------------------------------------------ generation


def pieces(rng, joint_only=False):
    g = rng.choice(sorted(JOINT if joint_only else GASES))
    kind = rng.choice(["flux", "flux", "mass", "bare", "rate"])
    m = rng.choice(sorted(MASS)) if kind in ("flux", "mass") else None
    t = rng.choice(sorted(TIME)) if kind in ("flux", "rate") else None
    if m in ("t", "kt", "Mt", "Gt", "g") and g in JOINT and m != "kt" and rng.random() < 0.7:
        s = m + g
    else:
        s = (m + " * " if m else "") + g
    return {"g": g, "m": m, "t": t}, s + (" / " + t if t else "")


def expected(a, b, ctx):
    """Factor between units built from pieces; "DimensionalityError", "KeyError" or None: not known here."""
    if ctx is not None and ctx not in CONTEXTS:
        return "KeyError" if ctx in BAD_CONTEXTS else None
    if (a["m"] is None) != (b["m"] is None) or (a["t"] is None) != (b["t"] is None):
        return "DimensionalityError"
    f = (MASS[a["m"]] / MASS[b["m"]] if a["m"] else 1) / (TIME[a["t"]] / TIME[b["t"]] if a["t"] else 1)
    (ba, fa), (bb, fb) = GASES[a["g"]], GASES[b["g"]]
    if ba == bb:
        return f * fa / fb
    if ctx is None:
        return "DimensionalityError"
    if ctx in GWP:
        w = {}
        for g, v in GWP[ctx].items():
            base, factor = GASES[g]
            w[base] = v / factor  # CO2 equivalent of one mass of the base species
        if ba not in w or bb not in w:
            return "DimensionalityError"
        return f * fa * w[ba] / (fb * w[bb])
    if a["m"] or a["t"]:
        return "DimensionalityError"
    pair = {"CH4_conversions": {("CH4", "C"): 12 / 16, ("C", "CH4"): 16 / 12},
            "NOx_conversions": {("NOx", "N"): 14 / 46, ("N", "NOx"): 46 / 14}}[ctx].get((ba, bb))
    return f * fa * pair / fb if pair else "DimensionalityError"


def conversion(rng):
    r = rng.random()
    ctx = rng.choice([None, None] + CONTEXTS[:3] + rng.choice([CONTEXTS, CONTEXTS, BAD_CONTEXTS]))
    if r < 0.7:
        a, sa = pieces(rng)
        for _ in range(20):
            b, sb = pieces(rng)
            if (a["m"] is None) == (b["m"] is None) and (a["t"] is None) == (b["t"] is None) or rng.random() < 0.1:
                break
        return {"key": [sa, sb, ctx], "a": a, "b": b}
    if r < 0.9:
        fam = rng.choice(OTHER)
        return {"key": [rng.choice(fam), rng.choice(fam), rng.choice([None, ctx])]}
    if r < 0.95:
        return {"key": [rng.choice(rng.choice(OTHER)), rng.choice(rng.choice(OTHER)), ctx]}
    ab = [rng.choice(BAD), pieces(rng)[1]]
    rng.shuffle(ab)
    return {"key": ab + [ctx]}


def make_pool(n):
    """Conversions in groups: the same two units with and without contexts and the other way round."""
    rng = rng_for("units", "pool")
    groups = []
    for _ in range(n):
        c = conversion(rng)
        ab = {k: c[k] for k in ("a", "b") if k in c}
        groups.append([c, {"key": c["key"][:2] + [None], **ab},
                       {"key": c["key"][:2] + [rng.choice(CONTEXTS)], **ab},
                       {"key": [c["key"][1], c["key"][0], c["key"][2]],
                        **({"a": c["b"], "b": c["a"]} if ab else {})}])
    return groups


def generate(rng, check, idx, tier):
    if "pool" not in L or len(L["pool"]) != (200 if tier == "quick" else 1500):
        L["pool"] = make_pool(200 if tier == "quick" else 1500)
    pool = [c for _ in range(rng.randint(2, 5)) for c in rng.choice(L["pool"])]
    steps = []
    table = {"convert": 10, "reuse": 3, "contexts": 1, "scalar": 2, "fault": 5, "abandon": 1}
    for _ in range(rng.randint(6, 25)):
        op = weighted(rng, table)
        s = {"op": op}
        if op in ("convert", "fault", "scalar", "abandon"):
            s.update(rng.choice(pool))
        if op == "scalar":
            s["key"] = s["key"][:2] + [None]
        if op == "reuse":
            s["i"] = rng.randrange(64)
        if op == "fault":
            r = rng.random()
            s["exc"] = rng.choice(sorted(EXCEPTIONS))
            if r < 0.35:
                s["site"], s["n"] = "read_csv", 0
            elif r < 0.6:
                s["site"], s["n"] = "to", rng.choice([0, 1, 1, rng.randrange(3)])
            else:
                s["site"] = "line"
                s["n"] = rng.choice([rng.randint(1, 40), int(math.exp(rng.uniform(0, math.log(22000))))])
        steps.append(s)
    return {"cfg": {}, "steps": steps}


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        if s["op"] == "fault":
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, op="convert")] + plan["steps"][i + 1:])
        for key, val in (("n", 0), ("exc", "RuntimeError"), ("i", 0)):
            if key in s and s[key] != val:
                yield dict(plan, steps=plan["steps"][:i] + [dict(s, **{key: val})] + plan["steps"][i + 1:])


# ------------------------------------------------------------------ execution


class State:
    def __init__(self, run):
        self.run = run
        self.held = []  # (key, converter)
        self.step = 0
        self.used = []

    def fail(self, kind, detail):
        raise Violation(kind, "step {}: {}".format(self.step, detail), self.step)


def close(xs, ys):
    return all((math.isnan(x) and math.isnan(y)) or abs(x - y) <= 1e-11 * max(abs(x), abs(y), 1e-300) or
               abs(x - y) <= 1e-11 * max(1e-300, max(map(abs, ys))) for x, y in zip(xs, ys))


def same(a, b):
    if "exc" in a or "exc" in b:
        return a == b
    return close(a["f"], b["f"]) and close(a["b"], b["b"])


def execute(plan, run):
    st = State(run)
    L["reads"] = 0
    for i, step in enumerate(plan["steps"]):
        st.step = i
        run.stats[step["op"]] += 1
        res = globals()["h_" + step["op"]](st, step, run) or "skip"
        run.log(i, step["op"], res)
        run.signature.append((step["op"], res, stable_hash(step.get("key"))))
        reg = L["registry"]
        run.states.add(stable_hash([sorted(set(st.used)), len(getattr(reg, "_contexts", ())),
                                    bool(getattr(reg, "_active_ctx", ()))]))
    run.nontrivial = len(set(st.used)) > 1


def judge(st, step, got):
    key = tuple(step["key"])
    exp = SOLO[key]
    if not same(got, exp):
        st.fail("history", "{} -> {} with {}: {} but alone {}".format(*key, got, exp))
    if "a" in step and step["op"] != "scalar":
        e = expected(step["a"], step["b"], key[2])
        if isinstance(e, str):
            if got.get("exc") != e:
                st.fail("wrong-result", "{} -> {} with {}: {} but expected {}".format(*key, got, e))
        elif e is not None and ("exc" in got or not close(got["f"][-1:], [e])):
            st.fail("wrong-result", "{} -> {} with {}: {} but expected a factor of {}".format(*key, got, e))
    if "exc" in got:
        st.used.append("refused " + str(key[2]))
        return "refused"
    st.used.append("ok " + str(key[2]))
    return "converted"


def round_trip(st, u, key):
    x = np.array([-3.0, 2.5, 1e6])
    y = u.convert_from(x)
    if np.all(np.isfinite(y)):
        z = u.convert_to(y)
        if not np.allclose(z, x, rtol=1e-9, atol=1e-9 * max(1, abs(u.convert_to(0.0)))):
            st.fail("round-trip", "{} -> {} -> {}: {} became {}".format(key[0], key[1], key[0], x, z))


def h_convert(st, step, run):
    out = call(L["UnitConverter"], *step["key"])
    if out.ok:
        st.held.append((step, out.value))
        round_trip(st, out.value, step["key"])
        if (out.value.source, out.value.target) != tuple(step["key"][:2]):
            st.fail("wrong-result", "source and target of {}: {} {}".format(
                step["key"], out.value.source, out.value.target))
    return judge(st, step, observe(out.value) if out.ok else {"exc": type(out.exc).__name__})


def h_reuse(st, step, run):
    if not st.held:
        return None
    s, u = st.held[step["i"] % len(st.held)]
    judge(st, dict(s, op="reuse"), observe(u))
    return "reused"


def h_abandon(st, step, run):
    """A converter is created and dropped without being used."""
    call(L["UnitConverter"], *step["key"])
    return "abandoned"


def h_contexts(st, step, run):
    got = sorted(L["UnitConverter"]("C", "CO2").contexts)
    if got != SOLO["contexts"] or not set(CONTEXTS) <= set(got):
        st.fail("contexts", "available: {}, alone: {}".format(got, SOLO["contexts"]))
    return "listed"


def h_scalar(st, step, run):
    """Another user of conversions: a scalar parameter viewed in two units."""
    a, b, _ = step["key"]
    exp = SOLO[(a, b, None)]

    def use():
        p = L["ParameterSet"]()
        v = p.scalar("x", a)
        w = p.scalar("x", b)
        v.value = 1.0
        return w.value

    out = call(use)
    if out.ok:
        if "exc" in exp or not close([float(out.value)], exp["f"][-1:]):
            st.fail("history", "parameter in {} read in {}: {} but alone {}".format(a, b, out.value, exp))
        st.used.append("ok scalar")
        return "converted"
    if exp != {"exc": type(out.exc).__name__}:
        if a == b and "exc" not in exp:
            pass
        st.fail("history", "parameter in {} read in {}: {} but alone {}".format(a, b, out, exp))
    st.used.append("refused scalar")
    return "refused"


def h_fault(st, step, run):
    fired = False
    if step["site"] == "line":
        lf = LineFault(step["n"], step["exc"])
        with lf:
            out = call(L["UnitConverter"], *step["key"])
        fired = bool(lf.fired)
        if fired:
            run.probes["crash in " + ":".join(lf.fired)] += 1
    else:
        ARM.set(step)
        out = call(L["UnitConverter"], *step["key"])
        fired = ARM.clear()
    if fired:
        run.faults[step["site"] + ":" + step["exc"]] += 1
        if out.ok:
            st.fail("fault-swallowed", "an injected {} at {} was swallowed by {}".format(
                step["exc"], step["site"], step["key"]))
        st.used.append("fault " + step["site"])
        return "failed"
    return judge(st, step, observe(out.value) if out.ok else {"exc": type(out.exc).__name__})
