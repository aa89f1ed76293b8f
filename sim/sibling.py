"""
Sibling interpreters of a lane: the same plans executed in another environment (hash seed, time zone, clock, contents of
fresh memory).
"""
import atexit
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Sibling:
    """One further interpreter; it ends with the lane (its stdin is closed)."""

    def __init__(self, env, world, check):
        e = dict(os.environ, VERIF_SIBLING="1")
        e.update(env)
        self.env = env
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "lane.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, text=True)
        atexit.register(self.p.kill)
        self._send(cmd="setup", world=world, check=check, tier="quick")
        self.ready = False

    def _send(self, **kw):
        self.p.stdin.write(json.dumps(kw) + "\n")
        self.p.stdin.flush()

    def _recv(self):
        from .common import HarnessError

        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("sibling interpreter died")
        msg = json.loads(line)
        if msg["t"] == "harness-error":
            raise HarnessError(msg["error"])
        return msg

    def start(self, plans):
        if not self.ready:
            self._recv()
            self.ready = True
        self._send(cmd="each", plans=plans)

    def results(self):
        """Result of every plan, each executed in its own fork, events included."""
        return self._recv()["results"]


class Others:
    """Results of the plans of the current batch in all siblings of this lane."""

    def __init__(self, siblings):
        self.siblings = siblings
        self.res = {}

    def prepare(self, plans):
        self.res.clear()
        if not plans:
            return
        for s in self.siblings:
            s.start(plans)
        for s in self.siblings:
            for p, r in zip(plans, s.results()):
                self.res.setdefault(json.dumps(p, sort_keys=True), []).append((s, r))

    def of(self, plan):
        """[(sibling, result)]"""
        return self.res.get(json.dumps(plan, sort_keys=True), [])
