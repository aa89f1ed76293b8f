"""What each check runs."""

CORE_REAL = ["openscm.core (ParameterSet, views, parameters, regions, time, units)", "numpy", "scipy", "pint"]
CORE_STUB = ["scipy.interpolate.interp1d, scipy.integrate.quad and pint.Quantity.to are the real ones behind a wrapper "
             "which can raise", "caller's input objects"]
CORE_STATES = "hash of, per parameter: type, children, read/written flags and per view locked/pending/cached/up to date"
CORE_SIG = "hash of the sequence of (operation, outcome)"


def core(rule, runs, thorough, **kw):
    return dict(
        world="core", rule=rule, real=CORE_REAL, stub=CORE_STUB, states=CORE_STATES, signature=CORE_SIG,
        time_unit="scheduler steps (the code under test has no clock; one holder acts per step)",
        quick={"runs": runs, "seconds": 90}, thorough={"runs": thorough, "seconds": 660}, **kw
    )


CHECKS = {
    "C01": core("2-5 holders per shared parameter (own unit, grid, extrapolation, type) read and write in random order; "
                "non-trivial: a write of a shared parameter and a read of somebody else's write happened", 10000, 200000),
    "C02": core("trees of parameters, leaves written and aggregates read and (vainly) written in random order; "
                "non-trivial: an aggregate was read successfully", 6000, 120000),
    "C03": core("random requests over trees of names, regions, types, units and grids in random order; non-trivial: a "
                "request was refused and at least two accepted", 12000, 250000),
    "C04": core("valid operations mixed with refused ones and with failing input objects or conversion routines; "
                "non-trivial: something was refused or failed while there was a view", 8000, 150000),
    "C05": core("as C01 with views locked and unlocked; non-trivial: pending writes were published by unlocking or read "
                "around by others", 10000, 200000),
    "C06": core("several parameter sets and regions with the same names, callers change their arrays afterwards; "
                "non-trivial: an array was changed by its caller and a parameter written", 12000, 250000),
}

DICE_REAL = ["openscm.core.OpenSCM", "openscm.adapters.Adapter and load_adapter", "openscm.adapters.dice.DICE",
             "openscm.core (parameter sets, views, time, units)", "numpy", "scipy", "pint"]
DICE_STUB = ["contents of numpy.empty are chosen by the simulator", "exceptions raised at the k-th executed line"]


def dice(rule, runs, thorough, **kw):
    return dict(
        world="dice", rule=rule, real=DICE_REAL, stub=DICE_STUB,
        states="hash of, per model: status (new, ready, finished, crashed), completed steps, readers, inputs set",
        signature="hash of the sequence of (operation, model, outcome)", time_unit="model years stepped",
        quick={"runs": runs, "seconds": 100}, thorough={"runs": thorough, "seconds": 660}, **kw
    )


CHECKS.update({
    "C07": dice("a model stepped or run while other holders read its outputs (other units, aggregates) and inputs and "
                "emissions change between steps; non-trivial: stepped, and read by others or inputs changed", 5000, 100000),
    "C08": dice("runs finished, abandoned, refused or crashed at the k-th executed line, inputs changed, models thrown "
                "away, then reset/run again; non-trivial: something was run again", 3500, 70000),
    "C09": dice("2-3 models with own outputs, sharing input sets or not, stepped in random interleaving; non-trivial: "
                "at least two models made steps", 2500, 50000),
})

CHECKS["C10"] = dict(
    world="adapter",
    rule="adapters used directly and through OpenSCM: prepare, reset, run, step, drop and load in random order, callbacks "
         "and imports failing; non-trivial: a callback or an import failed, a crash hit, or an adapter died",
    real=["openscm.adapters.Adapter and load_adapter", "openscm.core.OpenSCM", "openscm.core.ParameterSet",
          "the import machinery", "openscm.adapters.dice (15% of the runs)"],
    stub=["the model behind the adapter interface (records every callback, can fail)",
          "the module finder for openscm.adapters.dice"],
    states="hash of import environment, adapter loaded or not, per adapter: initialised, alive, steps since reset",
    signature="hash of the sequence of (operation, outcome)",
    time_unit="scheduler steps (the adapter interface has no clock)",
    quick={"runs": 25000, "seconds": 90}, thorough={"runs": 150000, "seconds": 660},
)

CHECKS["C11"] = dict(
    world="units",
    rule="histories of conversions (15 gases in mass, flux, rate, bare units; other quantities; bad units and contexts; "
         "five contexts), converters reused, faults while reading the table, while converting and at the k-th line; "
         "non-trivial: at least two different kinds of events (context used, refused, failed)",
    real=["openscm.core.units", "openscm.core (scalar parameters)", "pint", "pandas.read_csv behind a wrapper"],
    stub=["errors of reading metric_conversions.csv", "exceptions raised at the k-th executed line"],
    states="hash of kinds of events so far, contexts known, context active",
    signature="hash of the sequence of (operation, outcome, units and context)",
    time_unit="scheduler steps (unit conversion has no clock)",
    quick={"runs": 1200, "seconds": 80}, thorough={"runs": 50000, "seconds": 660},
)

CHECKS["C12"] = dict(
    world="threads",
    rule="2-3 threads with own converters, parameter sets, DICE models and data frames, preempted by the scheduler at "
         "up to 60 lines of openscm (35%: also of pint), in cold or warm processes; non-trivial: preempted at least "
         "twice",
    real=["openscm (core, units, adapters, scmdataframe)", "numpy, scipy, pint, pandas, pyam", "threads"],
    stub=["who runs (one thread at a time, handed over at line events)", "locks created by openscm"],
    states="hash of (thread preempted, thread resumed, function preempted in)",
    signature="hash of the sequence of preemptions (from, to, function)",
    time_unit="none (no clock involved)",
    quick={"runs": 900, "seconds": 120}, thorough={"runs": 20000, "seconds": 660},
)

FRAME_REAL = ["openscm.scmdataframe (base, filters, offsets, parameter types, pyam compatibility)", "openscm.core (time, "
              "units, parameter sets)", "openscm.scenarios", "pandas, numpy, scipy, pint, pyam"]
FRAME_STUB = ["scipy.interpolate.interp1d, scipy.integrate.quad and pint.Quantity.to are the real ones behind a wrapper "
              "which can raise"]


def frames(rule, runs, thorough, **kw):
    return dict(
        world="frames", rule=rule, real=FRAME_REAL, stub=FRAME_STUB,
        states="hash of, per frame: family, number of timeseries and times, metadata columns",
        signature="hash of the sequence of (operation, outcome)",
        time_unit="scheduler steps (data frames have no clock; one holder acts per step)",
        quick={"runs": runs, "seconds": 100}, thorough={"runs": thorough, "seconds": 660}, **kw
    )


CHECKS.update({
    "C13": frames("up to 6 frames derived from each other (created in 8 ways, copied, filtered, renamed, interpolated, "
                  "converted, appended, ...) worked on in random order, tables taken out and put in scribbled on; "
                  "non-trivial: a frame with living relatives changed in place, or something scribbled on", 1000, 30000),
    "C14": frames("valid frame operations mixed with 35 kinds of refused ones, in place and not, and with failing "
                  "numerical routines; non-trivial: something was refused or failed", 1000, 30000),
})

CHECKS["C16"] = dict(
    world="merge",
    rule="2-5 (thorough: 7) frames, pieces of one table or independent, with and without conflicting values and missing "
         "columns, merged in 2-4 random orders and groupings, as frames or tables, in place or not, and the same in a "
         "process with another hash seed; non-trivial: at least two frames merged in at least two different ways",
    real=FRAME_REAL, stub=["nothing"],
    states="hash of (conflicts, result's number of timeseries and times, columns, grouping)",
    signature="hash of the sequence of (order, grouping)",
    time_unit="scheduler steps (merging has no clock)",
    quick={"runs": 700, "seconds": 110}, thorough={"runs": 20000, "seconds": 660},
)

CHECKS["C17"] = dict(
    world="transfer",
    rule="frames transferred into new and existing parameter sets and back on the same or other times, while holders "
         "write the sets (also with writes pending), users change the frames, a DICE model steps and numerical routines "
         "fail; non-trivial: at least two transfers and one change",
    real=FRAME_REAL + ["openscm.adapters.dice"], stub=FRAME_STUB,
    states="hash of, per frame: number of timeseries and times, metadata columns; per set: its parameters, pending views",
    signature="hash of the sequence of (operation, outcome)",
    time_unit="scheduler steps (data frames and sets have no clock; one holder acts per step)",
    quick={"runs": 1000, "seconds": 100}, thorough={"runs": 30000, "seconds": 660},
)

CHECKS["C18"] = dict(
    world="env",
    rule="programs (own: times in 21 notations read through 11 interfaces, orders of timeseries, date filters, units; and "
         "those of the core, DICE, frame, merge and transfer worlds) executed in three interpreters which differ in hash "
         "seed, time zone, wall clock (16 hazardous dates, jumping between operations) and contents of fresh memory; "
         "all of them count as non-trivial",
    real=FRAME_REAL + ["openscm.adapters.dice", "dateutil"],
    stub=["the wall clock (preloaded library)", "contents of np.empty and np.empty_like, MALLOC_PERTURB_"],
    states="hash of the results of the operations",
    signature="hash of the sequence of (operation, result)",
    time_unit="simulated seconds the wall clock was moved",
    env={"VERIF_CLOCK": "1560600000"},
    quick={"runs": 500, "seconds": 110}, thorough={"runs": 20000, "seconds": 660},
)

CHECKS["C19"] = dict(
    world="bare",
    rule="histories of data frame operations (70 %), transfers, parameter sets and DICE runs in interpreters in which "
         "pyam is not installed, matplotlib is not, both are not, or pyam cannot be imported completely; in between whatever "
         "needs pyam is attempted; non-trivial: something was attempted or the embedded history is",
    real=FRAME_REAL + ["openscm.adapters.dice"],
    stub=["an import finder to which pyam and matplotlib do not exist or fail"] + FRAME_STUB,
    states="those of the embedded worlds",
    signature="hash of the sequence of (operation, outcome)",
    time_unit="scheduler steps",
    quick={"runs": 600, "seconds": 60}, thorough={"runs": 20000, "seconds": 500},
)

CHECKS["C15"] = dict(
    world="disk",
    rule="histories of up to 12 (thorough: 25) creations (up to 6000 values), changes, saves, loads, appends of files, restarts "
         "and crashes over up to 4 frames and 6 files of a simulated disk; those in which at least one disk fault was met "
         "count as non-trivial",
    real=FRAME_REAL + ["pandas' CSV writer and C parser, files of Python and of the system"],
    stub=["system calls on the files (preloaded library: open, read, write, close can fail, be short or interrupted)"],
    states="hash of (files with the shape of their content, shapes of the frames)",
    signature="hash of the sequence of (operation, outcome)",
    time_unit="calls of the disk",
    env={"VERIF_DISK": "1"},
    quick={"runs": 700, "seconds": 90}, thorough={"runs": 30000, "seconds": 660},
)
