"""Crash points: an exception raised at the k-th line of the code under test executed."""
import dis
import os
import sys

from .seams import EXCEPTIONS

ROOT = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "openscm") + os.sep


LOAD_CONST = dis.opmap["LOAD_CONST"]
LOAD_CONSTS = {LOAD_CONST, dis.opmap.get("LOAD_CONST_IMMORTAL", LOAD_CONST)}


def leaving_with(frame):
    """
    Whether the line event is the one of leaving a with block normally: the interpreter does not handle signals between
    the last call of the block and the call of __exit__, such that no interrupt can hit there.
    """
    code, i = frame.f_code.co_code, frame.f_lasti
    consts = frame.f_code.co_consts
    for k in range(i, i + 6, 2):
        if k + 1 >= len(code) or code[k] not in LOAD_CONSTS or consts[code[k + 1]] is not None:
            return False
    return True


class LineFault:
    """Context in which the k-th executed line of the code under test raises."""

    def __init__(self, k, exc, only=None):
        self.k = k
        self.exc = EXCEPTIONS[exc]
        self.only = only
        self.fired = None
        self.lines = 0

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines >= self.k and not leaving_with(frame):
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc("injected at line {} executed".format(self.k))
        return self._local

    def _global(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(ROOT) and frame.f_code.co_name not in ("__del__", "_shutdown"):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False
