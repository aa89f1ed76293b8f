"""
Deterministic scheduler of threads: real threads of which one holds the baton; it is handed over only at line events of
the traced files, at locks, and at the end of threads, as the plan says.

`install()` has to be called before the code under test is imported: locks it creates become simulated ones.
"""
import _thread
import os
import sys
import threading

from .trace import ROOT

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock


class Sched:
    """The scheduler of the present run."""

    def __init__(self):
        self.active = False

    def start(self, bodies, switches, traced):
        """
        Run the functions in threads; `switches` is a list of [lines until, which thread]. Returns the outcome: None or
        "deadlock".
        """
        self.threads = [SimThread(self, i, b) for i, b in enumerate(bodies)]
        self.by_ident = {}
        self.switches = list(switches)
        self.pos = 0
        self.lines = 0
        self.next_at = self.switches[0][0] if self.switches else None
        self.traced = tuple(traced)
        self.deadlock = None
        self.done = REAL_LOCK()
        self.done.acquire()
        self.history = []
        self.switched = 0
        self.contended = 0
        for t in self.threads:
            _thread.start_new_thread(t.main, ())
        self.active = True
        self.current = self.threads[0]
        self.current.sem.release()
        self.done.acquire()
        self.active = False
        return self.deadlock

    # handing over

    def runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def choose(self, exclude=None):
        cands = [t for t in self.runnable() if t is not exclude]
        if not cands:
            return None
        c = self.switches[self.pos % len(self.switches)][1] if self.switches else 0
        return cands[c % len(cands)]

    def hand_over(self, to):
        cur = self.current
        if to is cur:
            return
        self.current = to
        self.switched += 1
        to.sem.release()
        cur.sem.acquire()

    def on_line(self, frame):
        self.lines += 1
        if self.next_at is None or self.lines < self.next_at or importing(frame):
            return
        to = self.choose(exclude=self.current)
        self.pos += 1
        self.next_at = self.lines + self.switches[self.pos][0] if self.pos < len(self.switches) else None
        if to is not None:
            self.history.append((self.current.index, to.index, os.path.basename(frame.f_code.co_filename),
                                 frame.f_code.co_name))
            self.hand_over(to)

    def block(self, lock):
        """The current thread waits for a lock."""
        cur = self.current
        cur.state = "blocked"
        cur.waiting = lock
        self.contended += 1
        to = self.choose()
        if to is None:
            self.deadlock = "all threads wait for locks"
            self.done.release()
            cur.sem.acquire()  # for ever; the process of this run is ended
        self.hand_over(to)

    def finished(self, thread):
        thread.state = "finished"
        to = self.choose()
        if to is None:
            if any(t.state == "blocked" for t in self.threads):
                self.deadlock = "a thread waits for a lock nobody holds any more"
            self.done.release()
            return
        self.current = to
        to.sem.release()

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(self.traced) and frame.f_code.co_name not in ("__del__", "_shutdown"):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.on_line(frame)
        return self.local


def importing(frame):
    while frame is not None:
        if frame.f_code.co_filename.startswith("<frozen importlib"):
            return True
        frame = frame.f_back
    return False


class SimThread:
    def __init__(self, sched, index, body):
        self.sched, self.index, self.body = sched, index, body
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.state = "ready"
        self.waiting = None
        self.result = None
        self.error = None

    def main(self):
        self.sem.acquire()
        self.sched.by_ident[_thread.get_ident()] = self
        sys.settrace(self.sched.trace)
        try:
            self.result = self.body()
        except BaseException as e:  # pylint: disable=broad-except
            self.error = e
        finally:
            sys.settrace(None)
        self.sched.finished(self)


SCHED = Sched()


class SimLock:
    """Lock whose contention is decided by the scheduler."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if not SCHED.active:
                raise RuntimeError("simulated lock waited for outside of the simulation")
            SCHED.block(self)
        self.owner = me
        self.count = 1
        return True

    __enter__ = acquire

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if SCHED.active:
                for t in SCHED.threads:
                    if t.state == "blocked" and t.waiting is self:
                        t.state = "ready"
                        t.waiting = None

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.owner is not None


class SimRLock(SimLock):
    reentrant = True


def install():
    def rlock():
        if sys._getframe(1).f_code.co_filename.startswith(ROOT):
            return SimRLock()
        return REAL_RLOCK()

    def lock():
        if sys._getframe(1).f_code.co_filename.startswith(ROOT):
            return SimLock()
        return REAL_LOCK()

    threading.RLock = rlock
    threading.Lock = lock
