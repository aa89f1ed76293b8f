"""
World of deployments without the optional dependencies: pyam (and with it matplotlib) is not installed, or is there but
cannot be imported. Programs of the other worlds run as ever; what needs pyam says so and does no harm.
"""
import importlib
import os
import sys

from ..common import HarnessError, Violation

BATCH = 1
L = {}
DEPLOYMENTS = [("pyam",), ("matplotlib",), ("pyam", "matplotlib"), ("pyam!",)]
EMBEDDED = {"frames": ["C19"], "transfer": ["C17"], "core": ["C01"], "dice": ["C07"]}
SHARE = ["frames"] * 8 + ["transfer"] * 3 + ["core", "dice"]


class Missing:
    """Import finder to which some packages do not exist, or (!) cannot be imported completely."""

    def __init__(self, names):
        self.names = names
        self.asked = 0

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in self.names:
            self.asked += 1
            raise ModuleNotFoundError("No module named {!r}".format(name), name=name)
        if top + "!" in self.names:
            self.asked += 1
            raise ImportError("cannot import name 'broken' from {!r}".format(name), name=name)
        return None


def setup(req):
    gone = {m.split(".")[0] for m in sys.modules} & {"pyam", "matplotlib"}
    if gone:
        raise HarnessError("already imported: {}".format(gone))
    names = DEPLOYMENTS[int(os.environ.get("PYTHONHASHSEED", "0")) % len(DEPLOYMENTS)]
    L["deployment"] = names
    L["finder"] = Missing(names)
    sys.meta_path.insert(0, L["finder"])
    L["failed"] = None
    os.environ["VERIF_SIBLING"] = "1"  # (the embedded worlds do not need siblings)
    L["worlds"] = {}
    try:
        for name in ("openscm", "openscm.core", "openscm.adapters", "openscm.scmdataframe", "openscm.scenarios"):
            importlib.import_module(name)
        for name, checks in EMBEDDED.items():
            L["worlds"][name] = importlib.import_module("sim.worlds." + name)
            L["worlds"][name].setup(dict(req, check=checks[0]))
    except ImportError as e:
        L["failed"] = e


def generate(rng, check, idx, tier):
    if L["failed"] is not None:
        return {"world": None, "steps": []}
    name = rng.choice(SHARE)
    c = rng.choice(EMBEDDED[name])
    w = L["worlds"][name]
    w.L["check"] = c
    sub = w.generate(rng, c, idx, tier)
    steps = sub.pop("steps")
    return {"world": name, "check": c, "steps": steps, "sub": sub}


def simplify(plan):
    if plan["world"] is None:
        return
    w = L["worlds"][plan["world"]]
    if hasattr(w, "simplify"):
        for cand in w.simplify(dict(plan["sub"], steps=plan["steps"])):
            cand = dict(cand)
            yield dict(plan, steps=cand.pop("steps"), sub=cand)


def execute(plan, run):
    what = " and ".join(n.replace("!", " (broken)") for n in L["deployment"])
    if L["failed"] is not None:
        raise Violation("import", "without {}: {!r}".format(what, L["failed"]))
    if not L["finder"].asked:
        raise HarnessError("nothing asked for " + what)
    run.faults["missing: " + what] += 1
    w = L["worlds"][plan["world"]]
    w.L["check"] = plan["check"]
    run.stats["world: " + plan["world"]] += 1
    try:
        w.execute(dict(plan["sub"], steps=plan["steps"]), run)
    except Violation as v:
        v.detail = "without {}: {}".format(what, v.detail)
        raise
    run.nontrivial = run.nontrivial or run.probes["refused for want of pyam"] > 0
