"""
The engine: starts lanes (fresh interpreters importing the code under test from /repo), hands out run indices, collects
results, minimises and re-executes a violation, writes the evidence file.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
LANES = 8
ZONES = ["UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Auckland", "Europe/Berlin", "Pacific/Kiritimati",
         "America/Los_Angeles", "Asia/Tokyo"]


class Broken(Exception):
    """The machinery (or its environment) failed: no verdict."""


def library(scratch, name):
    """Library simulating the wall clock or the disk, compiled from its source."""
    path = os.path.join(scratch, name + ".so")
    if not os.path.exists(path):
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", path, os.path.join(VERIF, "sim", name + ".c"), "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("compiling {}.c: {}".format(name, r.stdout))
    return path


class Lane:
    """One lane process."""

    def __init__(self, scratch, env, name="lane"):
        self.env = env
        e = {
            "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
            "HOME": scratch,
            "TMPDIR": scratch,
            "LANG": "C.UTF-8",
            "PYTHONDONTWRITEBYTECODE": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
            "MPLBACKEND": "agg",
            "VERIF_REPO": os.environ.get("VERIF_REPO", "/repo"),
            "VERIF_SCRATCH": scratch,
        }
        e.update(env)
        if "VERIF_CLOCK" in e:
            e["LD_PRELOAD"] = library(scratch, "clock")
        if "VERIF_DISK" in e:
            e["LD_PRELOAD"] = library(scratch, "disk")
        self.log = open(os.path.join(scratch, name + ".log"), "a+")
        self.p = subprocess.Popen(
            [PYTHON, "-B", os.path.join(VERIF, "sim", "lane.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=e, text=True, cwd=scratch,
            start_new_session=True,
        )

    def send(self, **kw):
        try:
            self.p.stdin.write(json.dumps(kw) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.log.flush()
            self.log.seek(0)
            raise Broken("lane died: " + self.log.read()[-4000:])
        msg = json.loads(line)
        if msg["t"] == "harness-error":
            raise Broken(msg["error"])
        return msg

    def ask(self, **kw):
        self.send(**kw)
        return self.recv()

    def close(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.log.close()


def lane_env(seed, lane):
    return {"PYTHONHASHSEED": str((seed * 7919 + lane * 104729 + 1) % 4294967295), "TZ": ZONES[lane % len(ZONES)]}


class Scratch:
    """Scratch directory of a check, removed at the end."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-sim-")
        os.chmod(self.path, 0o755)
        mpl = "/opt/vp/mplconfig"
        if os.path.isdir(mpl):
            shutil.copytree(mpl, os.path.join(self.path, "mpl"))
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def replay_plans(world, check, plans, env, log=False, tier="quick"):
    """Execute plans in a fresh interpreter."""
    with Scratch() as scratch:
        lane = Lane(scratch, env)
        try:
            lane.ask(cmd="setup", world=world, check=check, tier=tier)
            return lane.ask(cmd="replay", plans=plans, log=log)["results"]
        finally:
            lane.close()


def write_evidence(check, data):
    path = os.path.join(VERIF, "evidence", check + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def load_known():
    """Findings recorded rather than repaired: {property: [entry]}."""
    res = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known":
                        res.setdefault(d["property"], []).append(d)
    return res


def run_check(check, tier, seed, runs=None, seconds=None, lanes=LANES, quiet=False, digests=False, evidence=True):
    """Search; returns (exit code, info)."""
    spec = registry.CHECKS[check]
    world = spec["world"]
    conf = spec[tier]
    runs = runs if runs is not None else conf["runs"]
    seconds = seconds if seconds is not None else conf["seconds"]
    t0 = time.monotonic()
    with Scratch() as scratch:
        pool = [Lane(scratch, dict(lane_env(seed, i), **spec.get("env", {})), "lane%d" % i) for i in range(lanes)]
        try:
            return _run(check, spec, world, tier, seed, runs, seconds, pool, t0, quiet, digests, evidence)
        finally:
            for p in pool:
                p.close()


def _run(check, spec, world, tier, seed, runs, seconds, pool, t0, quiet, digests, evidence):
    n = len(pool)
    for p in pool:
        p.send(cmd="setup", world=world, check=check, tier=tier)
    for p in pool:
        p.recv()
    t_setup = time.monotonic() - t0

    # known findings: each has its own probe plan
    known_lines = []
    known_failed = []
    for entry in load_known().get(check, []):
        r = pool[0].ask(cmd="replay", plans=entry["plans"])["results"]
        v = r[-1].get("violation")
        if v and v["kind"] == entry["kind"]:
            known_lines.append("KNOWN-FINDING: property={} {}".format(check, entry["what"]))
        elif v:
            known_failed.append((entry, v))

    found = []
    dones = []
    errors = []

    def drive(i, lane):
        try:
            lane.send(
                cmd="batch", check=check, seed=seed, tier=tier, start=i, stop=runs, stride=n, seconds=seconds,
                min_runs=max(1, spec.get("min_runs", 40) // n), repeat=spec.get("repeat", 25), digests=digests,
            )
            while True:
                msg = lane.recv()
                if msg["t"] == "violation":
                    found.append((i, msg))
                elif msg["t"] == "done":
                    dones.append(msg)
                    return
        except Broken as e:
            errors.append(str(e))
        except Exception as e:  # pylint: disable=broad-except
            errors.append(repr(e))

    threads = [threading.Thread(target=drive, args=(i, p), daemon=True) for i, p in enumerate(pool)]
    for t in threads:
        t.start()
    hard = time.monotonic() + seconds + 240
    first_found = None
    while any(t.is_alive() for t in threads):
        time.sleep(0.02)
        now = time.monotonic()
        if found and first_found is None:
            first_found = now
        if first_found is not None and now > first_found + 3:
            break  # the others need not go on
        if now > hard:
            errors.append("lanes did not come to an end")
            break
    t_search = time.monotonic() - t0 - t_setup

    agg = {"runs": 0, "steps": 0, "sim_seconds": 0.0, "nontrivial": 0, "stats": {}, "faults": {}, "probes": {}}
    states, sigs, nsigs, samples, digs = set(), set(), set(), [], {}
    repeat = [0, 0]
    for d in list(dones):
        a = d["agg"]
        for k in ("runs", "steps", "sim_seconds", "nontrivial"):
            agg[k] += a[k]
        for key in ("stats", "faults", "probes"):
            for k, v in a[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        states.update(d["states"])
        sigs.update(d["sigs"])
        nsigs.update(d["nsigs"])
        samples += d["samples"]
        digs.update(d["digests"])
        repeat[0] += d["repeat"][0]
        repeat[1] += d["repeat"][1]
    samples.sort(key=lambda s: s["run"])

    violation = None
    if known_failed and not found:
        entry, v = known_failed[0]
        violation = {"plans": entry["plans"], "violation": v, "env": pool[0].env, "run": -1, "tries": 0}
    if found:
        found.sort(key=lambda f: f[1]["idx"])
        for i, msg in found[:3]:
            lane = None
            try:
                with Scratch() as scratch:
                    lane = Lane(scratch, pool[i].env)
                    lane.ask(cmd="setup", world=world, check=check, tier=tier)
                    r = lane.ask(cmd="minimise", plans=msg["plans"], kind=msg["violation"]["kind"],
                                 budget=60 if tier == "quick" else 180)
            except Broken as e:
                errors.append(str(e))
                continue
            finally:
                if lane is not None:
                    lane.close()
            if r["t"] == "irreproducible":
                errors.append("violation of run {} did not reproduce: {}".format(msg["idx"], msg["violation"]))
                continue
            violation = {"plans": r["plans"], "violation": r["violation"], "env": pool[i].env, "run": msg["idx"],
                         "tries": r["tries"], "digest": r["digest"], "original": msg["violation"]}
            break

    wall = time.monotonic() - t0
    ev = {
        "property": check,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(nsigs),
            "rule": spec["rule"],
            "samples": samples[:3],
            "seeds": "VERIF_SEED={}; run i uses the generator (seed, check, i), i=0..{}".format(seed, agg["runs"] - 1),
            "runs_per_hour": int(agg["runs"] / max(t_search, 1e-9) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(t_search, 1e-9) * 3600),
            "steps_scheduled": agg["steps"],
            "simulated_time": {"amount": round(agg["sim_seconds"], 3), "unit": spec["time_unit"]},
            "faults_fired": dict(sorted(agg["faults"].items())),
            "operations": dict(sorted(agg["stats"].items())),
            "reachability_probes": dict(sorted(agg["probes"].items())),
            "distinct_runs": {"count": len(sigs), "measure": spec["signature"]},
            "distinct_states": {"count": len(states), "measure": spec["states"]},
            "nontrivial_runs": agg["nontrivial"],
            "real_components": spec["real"],
            "stubbed_components": spec["stub"],
            "runs_repeated_for_determinism": repeat[0],
            "runs_diverged": repeat[1],
            "lanes": [p.env for p in pool],
            "search_wall_s": round(t_search, 2),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    info = {"agg": agg, "digests": digs, "errors": errors, "violation": violation, "evidence": ev}
    if repeat[1]:
        errors.append("{} of {} repeated runs diverged".format(repeat[1], repeat[0]))
    missing = [p for p in spec.get("probes", []) if not agg["probes"].get(p)]
    for k in spec.get("must_fault", []):
        if not agg["faults"].get(k):
            missing.append("fault " + k)
    if missing and not violation and agg["runs"] >= spec.get("probe_runs", 200):
        ev["coverage"]["never_reached"] = missing
    if not violation and not errors and agg["runs"] < min(runs, spec.get("min_runs", 40)):
        errors.append("only {} runs".format(agg["runs"]))
    if evidence:
        write_evidence(check, ev)

    if violation:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "{}-seed{}-run{}.json".format(check, seed, violation["run"]))
        doc = dict(violation, property=check, world=world, seed=seed, tier=tier)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")
        code, text = replay_file(path, quiet=True)
        if code == 1:
            if not quiet:
                print("{}: {}".format(violation["violation"]["kind"], violation["violation"]["detail"]))
                print("seed {} run {}, minimised to {} steps with {} executions".format(
                    seed, violation["run"], sum(len(p.get("steps", ())) for p in violation["plans"]),
                    violation["tries"]))
                for line in known_lines:
                    print(line)
                print("VIOLATION property={} replay={}".format(check, path))
            info["replay"] = path
            return 1, info
        errors.append("replay in a fresh process differs: " + text)
    if not quiet:
        for line in known_lines:
            print(line)
    if errors:
        if not quiet:
            for e in errors:
                print("HARNESS: " + e, file=sys.stderr)
        return 2, info
    if not quiet:
        print("{}: {} runs ({} distinct non-trivial), {} steps, {} faults, {} states, {} repeated for determinism, "
              "{:.1f} s; held".format(check, agg["runs"], len(nsigs), agg["steps"], sum(agg["faults"].values()),
                                      len(states), repeat[0], wall))
    return 0, info


def replay_file(path, quiet=False, log=False):
    """Re-execute a replay file; exit code 1 if it reproduces."""
    with open(path) as f:
        doc = json.load(f)
    try:
        res = replay_plans(doc["world"], doc["property"], doc["plans"], doc["env"], log=log)
    except Broken as e:
        if not quiet:
            print("HARNESS: {}".format(e), file=sys.stderr)
        return 2, str(e)
    last = res[-1]
    if log:
        for line in last.get("events", ()):
            print(line)
    v = last.get("violation")
    if v is None:
        if not quiet:
            print("replay: no violation (property {} held)".format(doc["property"]))
        return 0, "no violation"
    same = v["kind"] == doc["violation"]["kind"] and (not doc.get("digest") or doc["digest"] == last["digest"])
    if not quiet:
        print("{}: {}".format(v["kind"], v["detail"]))
        if not same:
            print("(differs from the recorded execution)")
        print("VIOLATION property={} replay={}".format(doc["property"], path))
    return (1 if same or not quiet else 3), json.dumps(v)
