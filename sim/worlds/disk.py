"""
World of saved data frames: frames are saved to and loaded from files of a simulated disk which refuses to open, runs full,
fails in the middle of a write or read or when a file is closed, transfers little at a time and interrupts calls.

Files live in a scratch directory; the disk is a preloaded library (sim/disk.c) between the interpreter (Python's files and
pandas' C parser alike) and the system.
"""
import ctypes
import datetime
import errno
import os
import shutil

import numpy as np

from ..common import HarnessError, Violation, call, rng_for, stable_hash, weighted
from ..frames_model import MF, NAN, REQUIRED, compare, look, norm, to_secs, year_secs
from . import frames as fw

BATCH = 4
L = fw.L
SITES = {"open": 0, "write": 1, "read": 2, "close": 3, "short": 4, "interrupted": 5}
NAMES = ["a.csv", "b.csv", "with space.csv", "ünï.csv", "deep/c.csv", "1.5.csv"]
WEIGHTS = {"create": 3, "big": 0.7, "save": 6, "load": 6, "save_fault": 6, "load_fault": 4, "change": 3, "remove": 0.7,
           "restart": 1, "crash": 1.5, "append": 2, "iam": 1, "revise": 1, "subset": 1}
MAX = 4


def setup(req):
    fw.setup(req)
    lib = os.environ.get("LD_PRELOAD")
    if not lib:
        raise HarnessError("no simulated disk")
    d = ctypes.CDLL(lib)
    d.verif_disk_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
    for f in (d.verif_disk_fired, d.verif_disk_calls):
        f.restype = ctypes.c_ulong
    L["disk"] = d


# ------------------------------------------------------------------ generation


def generate(rng, check, idx, tier):
    w = dict(WEIGHTS)
    for k in list(w):
        if k not in ("create", "save", "load") and rng.random() < 0.25:
            w[k] *= rng.choice([0, 0.3, 3])
    steps = [{"op": rng.choice(["create"] * 4 + ["big"]), "s": rng.randrange(10 ** 9)}]
    for _ in range(rng.randint(4, 12) if tier == "quick" else rng.randint(6, 25)):
        steps.append({"op": weighted(rng, w), "s": rng.randrange(10 ** 9)})
    return {"cfg": {"nan": rng.choice([0, 0, 0.2, 0.5]), "extra": rng.choice([0, 1, 2, 4]), "files": rng.randint(1, 4)},
            "steps": steps}


def simplify(plan):
    for key, v in (("nan", 0), ("extra", 0), ("files", 1)):
        if plan["cfg"][key] != v:
            yield dict(plan, cfg=dict(plan["cfg"], **{key: v}))


# ------------------------------------------------------------------ state


class State:
    def __init__(self, run, plan):
        self.run = run
        self.cfg = plan["cfg"]
        self.inputs = []  # (used by the frame world)
        self.frames = []  # [frame, model]
        self.files = {}  # path -> model of its content; None: unknown
        self.pos = 0

    def add(self, rng, frame, model):
        if len(self.frames) >= MAX:
            self.frames[rng.randrange(MAX)] = [frame, model]
        else:
            self.frames.append([frame, model])

    def pick(self, rng):
        return rng.choice(self.frames) if self.frames else None

    def path(self, rng):
        return os.path.join(self.root, NAMES[rng.randrange(self.cfg["files"])] if rng.random() < 0.9 else rng.choice(NAMES))

    def saved(self, rng):
        known = sorted(p for p, m in self.files.items() if m is not None)
        return rng.choice(known) if known else None


def text(x):
    """Metadata as it can be told in a file of text."""
    if x is None or x == "":
        return None
    try:
        return float(x)
    except ValueError:
        return x


def plain(model):
    res = MF(model.times, model.cols, [({c: text(m.get(c)) for c in model.cols}, list(v)) for m, v in model.rows])
    res.tol = dict(model.tol)
    return res


def stored(model):
    """What a file of the frame has to hold; None if that cannot be told."""
    m = plain(model.compact())
    if not m.rows or m.missing() or not m.unique():
        return None
    order = sorted(range(len(m.times)), key=lambda i: m.times[i])
    return MF([m.times[i] for i in order], m.cols, [(k, [v[i] for i in order]) for k, v in m.rows])


def show(f, what):
    return plain(look(f, what))


def verify(st, what):
    for frame, model in st.frames:
        compare(model, look(frame, what), "frame in memory after " + what, "frame-affected")


def execute(plan, run):
    st = State(run, plan)
    st.root = os.path.join(os.environ["VERIF_SCRATCH"], "disk-{}".format(os.getpid()))
    shutil.rmtree(st.root, ignore_errors=True)
    os.makedirs(os.path.join(st.root, "deep"))
    disk = L["disk"]
    disk.verif_disk_root(os.fsencode(st.root))
    before = [disk.verif_disk_calls(s) for s in range(4)]
    try:
        for i, step in enumerate(plan["steps"]):
            run.stats[step["op"]] += 1
            try:
                res = globals()["h_" + step["op"]](st, rng_for("disk", step["s"])) or "skip"
                verify(st, res)
            except Violation as v:
                v.detail = "step {} ({}): {}".format(i, step["op"], v.detail).replace(st.root, "DISK")
                v.step = i
                raise
            finally:
                disk.verif_disk_disarm()
            res = res.replace(st.root, "DISK")
            run.log(i, step["op"], res)
            run.signature.append((step["op"], res))
            run.states.add(stable_hash([
                sorted((os.path.relpath(p, st.root), None if m is None else (len(m.rows), len(m.times), sorted(m.cols)))
                       for p, m in st.files.items()),
                [(len(m.rows), len(m.times)) for _, m in st.frames]]))
    finally:
        shutil.rmtree(st.root, ignore_errors=True)
        disk.verif_disk_root(b"")
    calls = [disk.verif_disk_calls(s) - b for s, b in enumerate(before)]
    for name, n in zip(("open", "write", "read", "close"), calls):
        run.probes["disk calls: " + name] += n
    run.sim_seconds = float(sum(calls))


# ------------------------------------------------------------------ frames


def h_create(st, rng):
    model = fw.draw_model(rng, st.cfg)
    for m, _ in model.rows:
        for c, x in m.items():
            if x == "":
                m[c] = "none"
    if rng.random() < 0.3:  # times of day, early and late times, any order
        base = rng.choice([(850, 1, 1), (1700, 12, 31, 23, 59, 59), (2000, 2, 29, 12, 30, 1), (2300, 7, 1), (9990, 1, 1)])
        start = to_secs(datetime.datetime(*base))
        step = rng.choice([1, 61, 3600, 86400, 86399, 31536000])
        model.times = [start + k * step for k in sorted(rng.sample(range(9), len(model.times)))] if len(model.times) <= 9 else (
            model.times)
    if rng.random() < 0.3:
        for _, v in model.rows:
            for i in range(len(v)):
                v[i] = rng.choice([v[i], v[i] / 3, v[i] * 1e-17, v[i] * 1e21, 1 / 3, -0.1, 1e-300, 123456789.123456789, NAN])
    if not model.rows or not model.unique():
        return None
    out, exp, way = fw.make(st, rng, model)
    st.inputs.clear()
    if not out.ok:
        raise Violation("refused", "new frame ({}) refused: {}\n{}".format(way, out, exp.text()))
    got = look(out.value, "new frame")
    compare(exp, got, "new frame from " + way, "wrong-result")
    st.add(rng, out.value, got)
    return "created " + way.split(" ")[0]


def h_big(st, rng):
    """Frames whose files are larger than any buffer."""
    n, k = rng.choice([(20, 60), (100, 12), (1, 500), (150, 2), (40, 30), (2, 300)] * 3 + [(60, 200), (1, 1500)])
    start = rng.choice([1000, 1765, 2000])
    freq = rng.choice(["years", "days"]) if k < 1000 else "days"
    times = [year_secs(start + i) if freq == "years" else year_secs(start) + 86400 * i for i in range(k)]
    values = np.array([[round(rng.gauss(0, 1), rng.choice([1, 4, 15])) for _ in range(n)] for _ in range(k)])
    if st.cfg["nan"] and rng.random() < 0.5:
        values[rng.randrange(k), :] = NAN
        values[:, rng.randrange(n)] = NAN
    cols = {"model": "m", "scenario": "s" * rng.choice([1, 60]), "region": "World", "unit": "K",
            "variable": ["Surface Temperature|{}".format(i) for i in range(n)]}
    if st.cfg["extra"]:
        cols["note"] = [rng.choice(["a, b", 'quoted "text"', "semi;colon", "with, comma", "ü"]) for _ in range(n)]
    out = call(L["Frame"], values, index=np.array(times, dtype=np.int64).astype("datetime64[s]"),
               columns={c: [v] if isinstance(v, str) else v for c, v in cols.items()})
    if not out.ok:
        raise Violation("refused", "new frame: {}".format(out))
    rows = [({c: norm(v if isinstance(v, str) else v[i]) for c, v in cols.items()}, [float(x) for x in values[:, i]])
            for i in range(n)]
    exp = MF(times, list(cols), rows)
    compare(exp, look(out.value, "new frame"), "new frame", "wrong-result")
    st.add(rng, out.value, exp)
    return "created {} x {}".format(n, k)


def h_change(st, rng):
    """Files do not follow the frames saved in them or loaded from them."""
    slot = st.pick(rng)
    if slot is None:
        return None
    f, model = slot
    kind = rng.choice(["meta", "meta", "rename", "time"])
    if kind == "meta":
        x = rng.choice(["changed", 4.0])
        f.set_meta(x, "note")
        model.cols.add("note")
        for m, _ in model.rows:
            m["note"] = norm(x)
    elif kind == "rename":
        if any(not isinstance(m["scenario"], str) for m, _ in model.rows):
            return None
        s = model.rows[0][0]["scenario"] if model.rows else ""
        new = s + "new"
        if not model.rows or any(m["scenario"] == new for m, _ in model.rows):
            return None
        f.rename({"scenario": {s: new}}, inplace=True)
        for m, _ in model.rows:
            if m["scenario"] == s:
                m["scenario"] = new
    else:
        times = [t + 86400 for t in model.times]
        if max(times) > to_secs(datetime.datetime(9999, 1, 1)):
            return None
        f["time"] = [datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t) for t in times]
        model.times = times
    if model.unique():
        compare(model, look(f, "changed frame"), "changed frame", "wrong-result")
    else:
        st.frames.remove(slot)
    return "changed " + kind


def h_subset(st, rng):
    """Part of a frame: fewer timeseries or times."""
    slot = st.pick(rng)
    if slot is None:
        return None
    f, model = slot
    if rng.random() < 0.5:
        years = sorted({to_year(t) for t in model.times})
        keep = rng.sample(years, rng.randint(1, len(years)))
        idx = [i for i, t in enumerate(model.times) if to_year(t) in keep]
        out = call(f.filter, year=keep)
        exp = MF([model.times[i] for i in idx], model.cols, [(dict(m), [v[i] for i in idx]) for m, v in model.rows])
    else:
        var = rng.choice(model.rows)[0]["variable"]
        out = call(f.filter, variable=var)
        exp = MF(model.times, model.cols, [(dict(m), list(v)) for m, v in model.rows if m["variable"] == var])
    if not out.ok:
        raise Violation("refused", "filter: {}".format(out))
    exp = exp.compact()
    if not exp.rows:
        return "filtered everything"
    compare(exp, look(out.value, "filtered frame"), "filtered frame", "wrong-result")
    st.add(rng, out.value, exp)
    return "filtered"


def to_year(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).year


# ------------------------------------------------------------------ saving and loading


def save(f, path, rng):
    if rng.random() < 0.8:
        return lambda: f.to_csv(path)
    return lambda: f.to_iamdataframe().to_csv(path)


def h_save(st, rng):
    slot = st.pick(rng)
    if slot is None:
        return None
    path = st.path(rng)
    saved(st, slot, path, call(save(slot[0], path, rng)), "save")
    return "saved" if st.files.get(path) else "save not claimed"


def saved(st, slot, path, out, what):
    """Outcome of saving without a fault."""
    exp = stored(slot[1])
    if exp is None:  # nothing to save, or metadata without a text
        st.files[path] = None
        return
    if not out.ok:
        raise Violation("refused", "{}: {}\n{}".format(what, out, slot[1].text()[:1500]))
    st.files[path] = exp


def check_load(st, rng, path, what, out=None):
    exp = st.files[path]
    out = out or call(L["Frame"], path)
    if not out.ok:
        raise Violation("load-refused", "{} of a complete file: {}\n{}".format(what, out, exp.text()[:1500]))
    compare(exp, show(out.value, what), what, "incomplete")
    return out.value


def h_load(st, rng):
    path = st.saved(rng)
    if path is None or rng.random() < 0.05:
        path = os.path.join(st.root, "missing.csv")
        out = call(L["Frame"], path)
        if out.ok:
            raise Violation("not-refused", "a file which does not exist was loaded")
        return "missing"
    size = os.stat(path).st_size
    f = check_load(st, rng, path, "load")
    if os.stat(path).st_size != size:
        raise Violation("file-changed", "by loading it")
    st.add(rng, f, look(f, "loaded frame"))
    return "loaded"


def draw_fault(rng, size, saving):
    if saving:
        table = {"open": 1, "write": 4, "close": 1, "short": 1, "interrupted": 1}
    else:
        table = {"open": 1, "read": 4, "short": 1, "interrupted": 1}
    site = weighted(rng, table)
    n = e = 0
    if site == "open":
        e = rng.choice([errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOSPC if saving else errno.ENOENT, errno.EROFS])
    elif site in ("write", "read"):
        n = rng.choice([0, 1, rng.randrange(max(1, size)), max(0, size - 1), size // 2, (size // 4096) * 4096])
        e = rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG] if saving else [errno.EIO, errno.ESTALE])
    elif site == "close":
        e = rng.choice([errno.EIO, errno.ENOSPC])
    elif site == "short":
        n = rng.choice([1000, 4096, 77]) if size > 20000 else rng.choice([1, 7, 100])
    else:
        n = rng.randrange(3)
    return site, n, e


def arm(st, fault):
    L["disk"].verif_disk_arm(SITES[fault[0]], fault[1], fault[2])


def disarm(st, fault):
    """Number of times the fault was met."""
    d = L["disk"]
    d.verif_disk_disarm()
    n = d.verif_disk_fired(SITES[fault[0]])
    if n:
        st.run.faults[name(fault)] += 1
        st.run.nontrivial = True
    return n


def name(fault):
    return fault[0] + (":" + errno.errorcode[fault[2]] if fault[2] else "")


def approximate_size(model):
    return 60 + 21 * len(model.times) + len(model.rows) * (40 + 14 * len(model.times))


def h_save_fault(st, rng):
    slot = st.pick(rng)
    if slot is None or stored(slot[1]) is None:
        return None
    path = st.path(rng)
    fault = draw_fault(rng, approximate_size(slot[1]), True)
    fn = save(slot[0], path, rng)
    arm(st, fault)
    out = call(fn)
    fired = disarm(st, fault)
    if not fired:
        saved(st, slot, path, out, "save")
    elif out.ok:
        st.files[path] = stored(slot[1])
        check_load(st, rng, path, "load after a save during which the disk failed ({}) but which reported success".format(
            name(fault)))
    else:
        if not isinstance(out.exc, Exception):
            raise Violation("refused", str(out))
        st.files[path] = None
        verify(st, "failed save")
        if rng.random() < 0.7:  # another attempt once the disk is all right
            saved(st, slot, path, call(fn), "save after the disk failed before ({})".format(name(fault)))
            check_load(st, rng, path, "load after repeated save")
            return "failed {}, saved".format(name(fault))
    return "{} {} {}".format(name(fault), "fired" if fired else "not met", "ok" if out.ok else type(out.exc).__name__)


def h_load_fault(st, rng):
    path = st.saved(rng)
    if path is None:
        return None
    size = os.stat(path).st_size
    fault = draw_fault(rng, size, False)
    arm(st, fault)
    out = call(L["Frame"], path)
    fired = disarm(st, fault)
    if not fired or out.ok:
        check_load(st, rng, path, "load while the disk failed ({})".format(name(fault)), out)
    elif not isinstance(out.exc, Exception):
        raise Violation("refused", str(out))
    if os.stat(path).st_size != size:
        raise Violation("file-changed", "by failing to load it")
    f = check_load(st, rng, path, "load after the disk failed before ({})".format(name(fault)))
    if rng.random() < 0.5:
        st.add(rng, f, look(f, "loaded frame"))
    return "{} {} {}".format(name(fault), "fired" if fired else "not met", "ok" if out.ok else type(out.exc).__name__)


def h_append(st, rng):
    """Files merged into frames."""
    path = st.saved(rng)
    if path is None:
        return None
    exp = st.files[path]
    fault = draw_fault(rng, os.stat(path).st_size, False) if rng.random() < 0.5 else None
    slot = st.pick(rng)
    alone = rng.random() < 0.5 or slot is None
    if not alone:
        model = plain(slot[1])
        keys = set(model.keys(REQUIRED))
        if exp.times != model.times or keys & set(exp.keys(REQUIRED)) or exp.cols != model.cols or model.missing() \
                or model.has_nan():
            alone = True
    if alone:
        fn = lambda: L["df_append"]([path, path], duplicate_msg=False)
    else:
        fn = lambda: slot[0].append(path)
        exp = MF(exp.times, exp.cols, exp.rows + model.rows)
    if exp.has_nan():
        return None
    if fault:
        arm(st, fault)
    out = call(fn)
    fired = disarm(st, fault) if fault else 0
    if not out.ok:
        verify(st, "failed append of a file")
        if not fired:
            raise Violation("refused", "append of a file: {}".format(out))
        out = call(fn)
        if not out.ok:
            raise Violation("refused", "append of a file after the disk failed before: {}".format(out))
    got = show(out.value, "frame appended from file")
    compare(exp, got, "frame appended from file", "incomplete")
    return "appended {} {}".format("alone" if alone else "to a frame", "after fault" if fired else "")


def h_revise(st, rng):
    """The same file saved again with other values of the same length, or with less in it."""
    slot = st.pick(rng)
    if slot is None or stored(slot[1]) is None or not slot[1].regular():
        return None
    path = st.path(rng)
    saved(st, slot, path, call(slot[0].to_csv, path), "save")
    check_load(st, rng, path, "load")
    model = slot[1]
    exp = model.copy()
    if rng.random() < 0.7:
        exp.rows = [(m, v[::-1]) for m, v in exp.rows]
    else:
        exp.rows = exp.rows[:1]
    values = np.array([v for _, v in exp.rows]).T.reshape(len(exp.times), len(exp.rows))
    f = L["Frame"](values, index=np.array(exp.times, dtype=np.int64).astype("datetime64[s]"),
                   columns={c: [m[c] for m, _ in exp.rows] for c in sorted(exp.cols)})
    if stored(exp) is None:
        return None
    slot = [f, exp]
    saved(st, slot, path, call(f.to_csv, path), "save over another")
    check_load(st, rng, path, "load of a revised file")
    st.add(rng, f, exp)
    return "revised"


def h_iam(st, rng):
    """Files read as frames of pyam."""
    path = st.saved(rng)
    if path is None:
        return None
    exp = st.files[path]
    out = call(lambda: L["Frame"](L["Iam"](path)))
    if not out.ok:
        raise Violation("load-refused", "load through pyam: {}\n{}".format(out, exp.text()[:1500]))
    compare(exp, show(out.value, "load through pyam"), "load through pyam", "incomplete")
    return "loaded through pyam"


def h_remove(st, rng):
    path = st.saved(rng)
    if path is None:
        return None
    os.unlink(path)
    del st.files[path]
    if call(L["Frame"], path).ok:
        raise Violation("not-refused", "a file which does not exist was loaded")
    return "removed"


def h_restart(st, rng):
    """The process ends; only the files remain."""
    if not any(m for m in st.files.values()):
        return None
    st.frames.clear()
    for path in sorted(p for p, m in st.files.items() if m is not None)[:MAX]:
        f = check_load(st, rng, path, "load after restart")
        st.add(rng, f, look(f, "loaded frame"))
    return "restarted with {}".format(len(st.frames))


def h_crash(st, rng):
    """The process ends while it saves: the file is torn, others are complete."""
    slot = st.pick(rng)
    if slot is None or stored(slot[1]) is None:
        return None
    path = st.path(rng)
    n = rng.randrange(approximate_size(slot[1]))
    fault = ("write", n, errno.EIO)
    arm(st, fault)
    out = call(slot[0].to_csv, path)
    if disarm(st, fault):
        if out.ok:
            st.files[path] = stored(slot[1])
            check_load(st, rng, path, "load after a save which reported success")
        else:
            st.files[path] = None
    else:
        saved(st, slot, path, out, "save")
    st.run.faults["crash while saving"] += 1
    return h_restart(st, rng) or "crashed"
