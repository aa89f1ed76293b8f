"""
A lane: one fresh interpreter (own PYTHONHASHSEED/TZ) which imports the code under test from /repo, then executes
plans, each batch of plans in a forked child, so that nothing carries over.

stdin: one JSON request per line; stdout: one JSON reply per line (see engine.py).
"""
import gc
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

from sim.common import HarnessError, Violation, Run, rng_for  # noqa: E402

OUT = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(2, 1)  # whatever the code under test prints does not end up in the protocol


def reply(**kw):
    OUT.write(json.dumps(kw) + "\n")
    OUT.flush()


def execute_plan(world, plan, log_events=False):
    """Execute one plan in this process."""
    run = Run(log_events)
    try:
        world.execute(plan, run)
    except Violation as v:
        return run.result(v)
    except (TypeError, AttributeError, ValueError, KeyError, IndexError, ZeroDivisionError) as e:
        # does not happen with any result of the documented kind (see DESIGN.md)
        return run.result(Violation("unusable-result:" + type(e).__name__, traceback.format_exc()))
    return run.result()


def child_main(world, plans, wfd, log_events):
    res = []
    try:
        for plan in plans:
            r = execute_plan(world, plan, log_events)
            res.append(r)
            if "violation" in r:
                break
        payload = ("ok", res)
    except BaseException:  # pylint: disable=broad-except
        payload = ("harness", traceback.format_exc())
    data = pickle.dumps(payload)
    with os.fdopen(wfd, "wb") as f:
        f.write(struct.pack("<Q", len(data)))
        f.write(data)
    os._exit(0)


def in_pristine_fork(fn):
    """Result of fn() in a child forked from this (still pristine) process."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                payload = ("ok", fn())
            except BaseException:  # pylint: disable=broad-except
                payload = ("harness", traceback.format_exc())
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(payload))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("forked child died")
    kind, payload = pickle.loads(data)
    if kind != "ok":
        raise HarnessError(payload)
    return payload


def fork_execute(world, plans, timeout=120.0, log_events=False):
    """Execute plans one after the other in a forked child; list of results."""
    if hasattr(world, "prepare"):
        world.prepare(plans)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(rfd)
            child_main(world, plans, wfd, log_events)
        finally:
            os._exit(3)
    os.close(wfd)
    buf = bytearray()
    end = time.monotonic() + timeout
    status = "ok"
    while True:
        left = end - time.monotonic()
        if left <= 0:
            status = "timeout"
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            status = "timeout"
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        buf += b
    os.close(rfd)
    if status == "timeout":
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    if hasattr(world, "after_child"):
        world.after_child(pid)
    if status == "timeout":
        raise HarnessError("run did not end within {} s: {}".format(timeout, json.dumps(plans)[:3000]))
    if len(buf) < 8:
        raise HarnessError("run died (status {}): {}".format(st, json.dumps(plans)[:3000]))
    kind, payload = pickle.loads(bytes(buf[8:]))
    if kind != "ok":
        raise HarnessError(payload + "\nplans: " + json.dumps(plans)[:3000])
    return payload


# ------------------------------------------------------------------ minimisation


def _fails(world, plans, kind, timeout):
    try:
        res = fork_execute(world, plans, timeout)
    except HarnessError:
        return None
    last = res[-1]
    if len(res) == len(plans) and "violation" in last and last["violation"]["kind"] == kind:
        return last
    return None


def minimise(world, plans, kind, budget):
    """ddmin over the plans of a batch, the steps of the plan, then world specific simplifications."""
    end = time.monotonic() + budget
    tries = 0

    def test(ps):
        nonlocal tries
        if time.monotonic() > end:
            return False
        tries += 1
        return _fails(world, ps, kind, 60.0) is not None

    # drop earlier plans of the batch
    if len(plans) > 1 and test(plans[-1:]):
        plans = plans[-1:]
    i = 0
    while i < len(plans) - 1:
        cand = plans[:i] + plans[i + 1:]
        if test(cand):
            plans = cand
        else:
            i += 1

    def shrink_steps(pi):
        nonlocal plans
        n = 2
        while True:
            steps = plans[pi]["steps"]
            if len(steps) < 1:
                return
            size = max(1, len(steps) // n)
            changed = False
            i = 0
            while i < len(plans[pi]["steps"]):
                steps = plans[pi]["steps"]
                cand_steps = steps[:i] + steps[i + size:]
                cand = list(plans)
                cand[pi] = dict(plans[pi], steps=cand_steps)
                if test(cand):
                    plans = cand
                    changed = True
                else:
                    i += size
                if time.monotonic() > end:
                    return
            if size == 1 and not changed:
                return
            if not changed:
                n = min(n * 2, max(2, len(plans[pi]["steps"])))

    for _ in range(3):
        before = json.dumps(plans)
        for pi in range(len(plans)):
            if "steps" in plans[pi]:
                shrink_steps(pi)
        if hasattr(world, "simplify"):
            for pi in range(len(plans)):
                progress = True
                while progress and time.monotonic() < end:
                    progress = False
                    for cand_plan in world.simplify(plans[pi]):
                        cand = list(plans)
                        cand[pi] = cand_plan
                        if json.dumps(cand) != json.dumps(plans) and test(cand):
                            plans = cand
                            progress = True
                            break
                        if time.monotonic() > end:
                            break
        if json.dumps(plans) == before:
            break
    return plans, tries


# ------------------------------------------------------------------ commands


def cmd_batch(world, req):
    """Execute the runs of this lane; stop at the first violation."""
    check, seed, tier = req["check"], req["seed"], req["tier"]
    idxs = range(req["start"], req["stop"], req["stride"])
    deadline = time.monotonic() + req["seconds"]
    min_runs = req.get("min_runs", 0)
    bs = getattr(world, "BATCH", 1)
    agg = {"runs": 0, "steps": 0, "sim_seconds": 0.0, "stats": {}, "faults": {}, "probes": {}, "nontrivial": 0}
    states, sigs, nsigs = set(), set(), set()
    samples = []
    digests = {}
    repeat = [0, 0]
    it = iter(idxs)
    done = False
    while not done:
        batch = []
        for idx in it:
            batch.append((idx, world.generate(rng_for(seed, check, idx), check, idx, tier)))
            if len(batch) >= bs:
                break
        if not batch:
            break
        if time.monotonic() > deadline and agg["runs"] >= min_runs:
            break
        plans = [p for _, p in batch]
        results = fork_execute(world, plans)
        for (idx, plan), res in zip(batch, results):
            agg["runs"] += 1
            agg["steps"] += len(plan.get("steps", ()))
            agg["sim_seconds"] += res["sim_seconds"]
            for key in ("stats", "faults", "probes"):
                for k, v in res[key].items():
                    agg[key][k] = agg[key].get(k, 0) + v
            if len(states) < 200000:
                states.update(res["states"])
            sigs.add(res["sig"])
            if res["nontrivial"]:
                agg["nontrivial"] += 1
                nsigs.add(res["sig"])
            if len(samples) < 2 and res["nontrivial"]:
                samples.append({"run": idx, "plan": plan, "digest": res["digest"]})
            if req.get("digests"):
                digests[idx] = res["digest"]
            if "violation" in res:
                reply(t="violation", idx=idx, plans=plans[: len(results)], violation=res["violation"])
                done = True
                break
        # prove determinism as we go: some batches are executed a second time
        if not done and req.get("repeat") and (batch[0][0] // req["stride"]) % req["repeat"] == 0:
            again = fork_execute(world, plans)
            repeat[0] += len(plans)
            repeat[1] += sum(a["digest"] != b["digest"] for a, b in zip(results, again))
    reply(
        t="done", agg=agg, states=list(states), sigs=list(sigs), nsigs=list(nsigs), samples=samples, digests=digests,
        repeat=repeat,
    )


def cmd_minimise(world, req):
    plans, kind = req["plans"], req["kind"]
    first = _fails(world, plans[-1:], kind, 120.0)
    if first is not None:
        plans = plans[-1:]
    elif _fails(world, plans, kind, 120.0) is None:
        reply(t="irreproducible")
        return
    plans, tries = minimise(world, plans, kind, req["budget"])
    last = _fails(world, plans, kind, 120.0)
    if last is None:
        reply(t="irreproducible")
        return
    reply(t="minimised", plans=plans, violation=last["violation"], digest=last["digest"], tries=tries)


def cmd_replay(world, req):
    res = fork_execute(world, req["plans"], 300.0, log_events=req.get("log", False))
    reply(t="replayed", results=res, complete=len(res) == len(req["plans"]))


def cmd_each(world, req):
    """Execute plans each in its own process (for the lane this interpreter is a sibling of)."""
    reply(t="each", results=[fork_execute(world, [p], 300.0, log_events=True)[0] for p in req["plans"]])


def main():
    for line in sys.stdin:
        req = json.loads(line)
        try:
            if req["cmd"] == "setup":
                world = importlib.import_module("sim.worlds." + req["world"])
                world.setup(req)
                gc.collect()
                gc.freeze()
                reply(t="ready")
            elif req["cmd"] == "batch":
                cmd_batch(world, req)
            elif req["cmd"] == "minimise":
                cmd_minimise(world, req)
            elif req["cmd"] == "replay":
                cmd_replay(world, req)
            elif req["cmd"] == "each":
                cmd_each(world, req)
            elif req["cmd"] == "quit":
                break
        except BaseException:  # pylint: disable=broad-except
            reply(t="harness-error", error=traceback.format_exc())
            break
    os._exit(0)


if __name__ == "__main__":
    main()
