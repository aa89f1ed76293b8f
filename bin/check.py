#!/opt/venv/bin/python
"""
check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]   search
check.py --replay FILE [--log]                                                    re-execute a replay file
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--log", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return engine.replay_file(a.replay, log=a.log)[0]
    try:
        return engine.run_check(a.property, a.tier, a.seed, a.runs, a.seconds)[0]
    except engine.Broken as e:
        print("HARNESS: {}".format(e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
