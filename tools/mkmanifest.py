#!/usr/bin/env python3
"""Write MANIFEST.json from the registry and the list of properties."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry  # noqa: E402

NA = ("pure function of its input: no schedule, clock, randomness, fault, history or second party can influence it, so "
      "there is nothing for deterministic simulation to decide; the function is exercised (against an independent "
      "reference where one is needed) inside the worlds of the claimed properties")
NOT_YET = "no check of this family built yet"

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -B bin/check.py {} --tier quick".format(i),
            "thorough_cmd": "/opt/venv/bin/python -B bin/check.py {} --tier thorough".format(i),
            "evidence_file": "evidence/{}.json".format(i),
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and "
                         "histories in world '{}', judged against an executable reference model; minimised replay "
                         "file re-executed in a fresh interpreter".format(c["world"]),
            "level": "exploration",
            "level_note": c["rule"],
        })
    else:
        na.append({"property": i, "reason": NA if i.startswith("N") else NOT_YET})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B bin/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all seams are outside (wrappers around scipy, pint, pandas, builtins installed by the "
             "simulator in its own processes). See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
