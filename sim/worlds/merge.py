"""
World of merges: frames arriving in different orders, groupings and forms, merged by df_append and append, in place or
not, in processes with different hash seeds.

Reference: sim.frames_model.merge.
"""
import math
import os
import warnings

import numpy as np

from ..common import Violation, call, rng_for, stable_hash
from ..frames_model import MF, NAN, compare, duplicates, key_of, look, merge, norm, to_dt, to_secs
from ..sibling import Others, Sibling
from . import frames as fw

BATCH = 1
L = fw.L


def setup(req):
    fw.setup(req)
    if not os.environ.get("VERIF_SIBLING"):
        seed = (int(os.environ.get("PYTHONHASHSEED", "0")) * 31 + 7) % 4294967295
        L["others"] = Others([Sibling({"PYTHONHASHSEED": str(seed)}, "merge", req["check"])])


def prepare(plans):
    if "others" in L:
        L["others"].prepare([p for p in plans if p["cfg"]["sibling"]])


# ------------------------------------------------------------------ generation


def generate(rng, check, idx, tier):
    k = rng.choice([2, 2, 3, 3, 4, 5]) if tier == "quick" else rng.randint(2, 7)
    return {
        "cfg": {"k": k, "s": rng.randrange(10 ** 9), "conflict": rng.random() < 0.4, "extra": rng.choice([0, 1, 2, 2]),
                "style": rng.choice(["split", "split", "independent"]), "drop": rng.choice([0, 0.3, 0.6]),
                "nan": rng.choice([0, 0, 0.15]), "sibling": rng.random() < 0.5},
        "steps": [{"op": "arrive", "s": rng.randrange(10 ** 9), "how": rng.choice(["all", "fold", "tree", "tree"])}
                  for _ in range(rng.randint(2, 4))],
    }


def simplify(plan):
    cfg = plan["cfg"]
    for key, vals in (("k", range(1, cfg["k"])), ("extra", [0, 1]), ("drop", [0]), ("nan", [0]), ("conflict", [False])):
        for v in vals:
            if v != cfg[key]:
                yield dict(plan, cfg=dict(cfg, **{key: v}))
    for i, s in enumerate(plan["steps"]):
        for how in ("all", "fold"):
            if s["how"] not in ("all", how):
                yield dict(plan, steps=plan["steps"][:i] + [dict(s, how=how)] + plan["steps"][i + 1:])


def parts(cfg):
    """The frames to merge."""
    rng = rng_for("merge", cfg["s"])
    fcfg = {"nan": cfg["nan"], "extra": cfg["extra"]}
    if cfg["style"] == "independent":
        out = []
        for _ in range(cfg["k"]):
            out.append(fw.draw_model(rng, fcfg, times=rng.choice([None, out[0].times if out else None]),
                                     relative_to=[m for o in out for m, _ in o.rows]))
        if not cfg["conflict"]:
            seen = set()
            for m in out:
                drop_known(m, seen)
        return out
    master = None
    while master is None or len(master.rows) < 2:
        master = fw.draw_model(rng, fcfg)
    extra = sorted(master.cols - {"model", "scenario", "region", "variable", "unit"})
    out = []
    for _ in range(cfg["k"]):
        out.append(MF(master.times, set(master.cols), []))
    for m, v in master.rows:
        # every value goes to one part (or, with conflicts, to several, changed)
        owner = [rng.randrange(cfg["k"]) for _ in v] if rng.random() < 0.6 else [rng.randrange(cfg["k"])] * len(v)
        for i, part in enumerate(out):
            w = [x if o == i else NAN for x, o in zip(v, owner)]
            if cfg["conflict"]:
                w = [round(rng.uniform(-100, 100), 2) if math.isnan(x) and rng.random() < 0.3 else x for x in w]
            if any(not math.isnan(x) for x in w):
                part.rows.append((dict(m), w))
    res = []
    for part in out:
        if rng.random() < cfg["drop"] and extra:
            # a part lacking some columns: its timeseries are different ones then
            for c in rng.sample(extra, rng.randint(1, len(extra))):
                part.cols.discard(c)
                for m, _ in part.rows:
                    m.pop(c, None)
        seen, rows = set(), []
        for m, v in part.rows:
            if key_of(m, part.cols) not in seen:
                seen.add(key_of(m, part.cols))
                rows.append((m, v))
        part.rows = rows
        res.append(part.compact())
    res = [r for r in res if r.rows]
    if not cfg["conflict"]:
        seen = set()
        for r in res:
            drop_known(r, seen)
    return [r for r in res if r.rows]


def drop_known(m, seen):
    """Leave out values another part already has (columns missing count as missing values)."""
    allc = sorted(fw.EXTRA) + ["model", "scenario", "region", "variable", "unit"]
    rows = []
    for meta, v in m.rows:
        k = key_of(meta, allc)
        w = [NAN if (k, t) in seen else x for t, x in zip(m.times, v)]
        seen.update((k, t) for t, x in zip(m.times, w) if not math.isnan(x))
        if any(not math.isnan(x) for x in w):
            rows.append((meta, w))
    m.rows = rows


# ------------------------------------------------------------------ execution


def execute(plan, run):
    models = [m for m in parts(plan["cfg"]) if m.rows]
    if not models:
        return
    rng = rng_for("merge", plan["cfg"]["s"], "make")
    st = fw.State(run, {"cfg": plan["cfg"]})
    originals = []
    for m in models:
        out = call(frame_of, m, rng)
        if not out.ok:
            raise Violation("refused", "new frame: {}\n{}".format(out, m.text()))
        compare(m, look(out.value, "new frame"), "new frame", "wrong-result")
        originals.append(out.value)
    total = merge(models)
    dup, _ = duplicates(models)
    results = []
    for i, step in enumerate(plan["steps"]):
        rng = rng_for("merge", step["s"])
        what = "arrival {} ({})".format(i, step["how"])
        run.stats[step["how"]] += 1
        order = list(range(len(models)))
        rng.shuffle(order)
        frame, model, text = arrive(st, rng, [(originals[j], models[j]) for j in order], step["how"], run)
        got = look(frame, what)
        compare(model, got, "{}: {}".format(what, text), "wrong-result")
        if not dup:
            compare(total, got, "{}: {} compared with all at once".format(what, text), "order-dependent")
        for o, m in zip(originals, models):
            compare(m, look(o, what), what + ": a frame which was appended", "operand-changed")
        run.log(i, step["how"], text, [str(m) for m, _ in got.rows], [v for _, v in got.rows])
        run.signature.append((order, step["how"], text))
        run.states.add(stable_hash([dup, len(got.rows), len(got.times), sorted(got.cols), text]))
        results.append(text)
    run.nontrivial = len(models) > 1 and len(set(results)) > 1
    for _, other in L["others"].of(plan) if "others" in L else ():
        if other.get("violation"):
            v = other["violation"]
            raise Violation(v["kind"], "with another hash seed: " + v["detail"])
        if other["digest"] != run.digest.hexdigest():
            raise Violation("hash-seed-dependent", "results with another hash seed: {}".format(
                "\n".join(other.get("events", ()))[-1500:]))
        run.probes["compared with another hash seed"] += 1


def frame_of(m, rng):
    data = np.array([v for _, v in m.rows]).T
    cols = {c: [r.get(c) for r, _ in m.rows] for c in sorted(m.cols)}
    return L["Frame"](data, index=np.array([to_dt(t) for t in m.times], dtype="datetime64[s]"), columns=cols)


def form(rng, frame, model):
    """What arrives: a frame or a table."""
    r = rng.random()
    if r < 0.7:
        return frame
    if r < 0.9:
        return frame.timeseries()
    if not model.has_nan() and not model.missing():
        return frame.to_iamdataframe()
    return frame


def combine(st, rng, items, run):
    """One merge of several: (frame, model)."""
    dup, repeated = duplicates([m for _, m in items])
    exp = merge([m for _, m in items])
    first, rest = items[0], items[1:]
    msg = rng.choice(["warn", False, None, None, "return"])
    kw = {} if msg is None else {"duplicate_msg": msg}
    how = rng.choice(["df_append", "df_append_inplace", "append", "append_inplace"])
    if len(items) != 2 and how.startswith("append"):
        how = "df_append" + how[6:]
    base = first[0]
    if how.endswith("inplace"):
        base = base.copy()
        kw["inplace"] = True
    args = [form(rng, f, m) for f, m in rest]
    if how.startswith("df_append"):
        if not how.endswith("inplace") and rng.random() < 0.2:
            base = form(rng, *first)
        fn = lambda: L["df_append"]([base] + args, **kw)  # noqa: E731
    else:
        fn = lambda: base.append(args[0], **kw)  # noqa: E731
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = call(fn)
    text = "{}({}, {})".format(how, len(items), sorted(kw.items()))
    if not out.ok:
        raise Violation("refused", "{}: {}".format(text, out))
    warned = any("Duplicate time points" in str(w.message) for w in caught)
    if warned != (dup and msg in ("warn", None)):
        raise Violation("duplicates-unnoticed", "{}: duplicates {} but warning {}".format(text, dup, warned))
    run.probes["duplicates" if dup else "no duplicates"] += 1
    if msg == "return" and dup:
        table = out.value
        if not isinstance(table, L["pd"].DataFrame):
            raise Violation("wrong-result", "{} returned {} although there are duplicates".format(text, type(table)))
        vals = sorted(float(x) for x in table.values.ravel() if not math.isnan(x))
        given = sorted(x for _, m in items for _, v in m.rows for x in v if not math.isnan(x))
        if vals != given:
            raise Violation("wrong-result", "{}: values {} returned, {} given".format(text, vals, given))
        if how.endswith("inplace"):
            compare(first[1], look(base, text), text + ": frame which is to stay", "wrong-result")
        kw["duplicate_msg"] = False
        out = call(fn)
        if not out.ok:
            raise Violation("refused", "{}: {}".format(text, out))
    frame = base if how.endswith("inplace") else out.value
    got = look(frame, text)
    compare(exp, got, text, "wrong-result")
    return frame, got, text


def arrive(st, rng, items, how, run):
    """Merge everything; (frame, expected content, description)."""
    if len(items) == 1 or how == "all":
        return combine(st, rng, items, run)
    if how == "fold":
        frame, model = items[0]
        for nxt in items[1:]:
            frame, model, text = combine(st, rng, [(frame, model), nxt], run)
        return frame, model, "one after the other, " + text
    items = list(items)
    texts = []
    while len(items) > 1:
        n = rng.randint(2, min(3, len(items)))
        i = rng.randint(0, len(items) - n)
        frame, model, text = combine(st, rng, items[i:i + n], run)
        texts.append("{}+{}".format(i, n))
        items[i:i + n] = [(frame, model)]
    return items[0][0], items[0][1], " ".join(texts) + " " + text
