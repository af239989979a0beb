"""Quick and thorough plans of the numeric properties."""
import os
import time

import common
import numprops
import plan
from common import CRS, DIRECTED, NEAREST, Check, fname, numeric_fn
from numeric import FMT

ASSUME = [
    "IR of clang 18 for x86-64 at -O0 semantics with locals promoted to registers (opt mem2reg) is the code under test",
    "the encoding maps IR integer operations to linear integer arithmetic; concrete runs of the encoding are compared "
    "with g++-compiled code on every run",
    "inputs are finite and non-zero (the documented precondition)",
]
# exponent fields around which exact products and ties occur
MIDDLE = {"d": (990, 1170), "f": (100, 190)}
POLICIES = ("even", "odd", "up", "down")


def decide(chk, combos, want, broken_by, timeout_ms=1500, middle=0, limit=260, task_s=15,
           flags=("-O1",), core=1.0):
    """combos: [(mode, cr, double exponent fields, float exponent fields, by)]: mantissa 0 (all ones) for every by/6-th exponent; the
    configurations with by == 1 get all exponents at which the code's comparisons with constants change, and `middle`
    more where ties and exact products occur; every configuration gets a share `core` of the core exponents"""
    want = tuple(sorted(want))
    fns = "".join(numeric_fn(f, c[0], c[1]) for f in "df" for c in combos)
    mod = numprops._mods["x64"] = chk.work.module(common.GRISU_H + fns)
    first, tasks, late = [], [], []
    plans = {} if chk.thorough else numprops.plans(chk, mod, [(f, c[0], c[1]) for c in combos if c is combos[0] or c[4] <= 3
                                                           for f in "fd"])
    picked = {}
    for mode, cr, n_d, n_f, by in combos:
        main = by == 1
        for fmt in "fd":
            emax = (1 << FMT[fmt]["eb"]) - 1
            step = 1 if chk.thorough else max(1, by // 6)
            tasks += numprops.edge_tasks(fmt, mode, cr, want, "x64", chk.rnd.randint(1, step), step)
            if chk.thorough:
                late += [(fmt, mode, cr, E, "n", want, "x64") for E in range(emax)]
                picked[fname(fmt, mode, cr)] = emax
                continue
            n = n_d if fmt == "d" else n_f
            pick, rest, lead = numprops.exponents(
                chk, plans.get((fmt, mode, cr)) or plans[fmt, combos[0][0], combos[0][1]], fmt, n)
            marks = pick[lead:]
            if not main:
                marks = chk.rnd.sample(marks, min(len(marks), n))
            if middle:
                lo, hi = MIDDLE[fmt]
                k = middle if fmt == "d" else hi - lo
                rest = list(dict.fromkeys(rest + plan.strata(chk.rnd, lo, hi, k if main else max(4, k // 3))))
            rest = list(dict.fromkeys(rest + plan.core(chk.rnd, fmt, core(mode, fmt) if callable(core) else core)))
            first += [(fmt, mode, cr, E, "n", want, "x64") for E in pick[:lead]]
            late += [(fmt, mode, cr, E, "n", want, "x64") for E in dict.fromkeys(marks + rest)]
            picked[fname(fmt, mode, cr)] = lead + len(set(marks + rest))
    chk.rnd.shuffle(late)
    tasks = first + tasks + late
    if os.environ.get("CHECK_TIMES"):
        print("edges", sum(t[4] == "e" for t in tasks))
    chk.bounds = {
        "per slice": "one exponent field; mantissa and sign symbolic over all their values; no loop bound was hit "
                     "(paths over 200000 steps would be reported)",
        "exponent fields encoded per configuration": picked,
        "mantissa-0 and, in directed modes, all-ones inputs": "all exponent fields of all configurations" if chk.thorough
        else {fname("", c[0], c[1]): "one in %d" % max(1, c[4] // 6) for c in combos},
        "outside": "exponent fields not picked in this run (the thorough tier takes all)" if not chk.thorough else "none",
    }
    chk.assumptions = ASSUME
    numprops.validate(chk, tasks)
    if not chk.thorough:
        chk.deadline = min(chk.deadline, chk.t0 + limit)
    if os.environ.get("CHECK_TIMES"):
        print("planned after %.1f s" % (time.time() - chk.t0), len(first), len(tasks))
    numprops.execute(chk, tasks, broken_by, timeout_ms=timeout_ms if not chk.thorough else 60000,
                     task_s=task_s if not chk.thorough else 900, flags=flags)
    return chk.finish()


def others(chk, modes, n_d, n_f, by=6):
    return [(m, chk.rnd.choice(POLICIES), n_d, n_f, by) for m in modes]


def c01():
    chk = Check("C01")
    return decide(chk, [("ne", "even", 170, 255, 1)] + others(chk, NEAREST[1:], 12, 24), {"inside"}, {"inside", "crash"})


def c02():
    chk = Check("C02")
    return decide(chk, [("ne", "even", 170, 255, 1)] + others(chk, NEAREST[1:], 12, 24), {"shortest"}, {"shortest", "crash"})


def c03():
    chk = Check("C03")
    return decide(chk, [("ne", "even", 170, 255, 1)] + others(chk, NEAREST[1:], 12, 24), {"closest"}, {"closest", "crash"})


def c04():
    chk = Check("C04")
    combos = [("ne", c, 12, 30, 1 if c == "even" else 3) for c in POLICIES] + others(chk, NEAREST[1:], 3, 8)
    return decide(chk, combos, {"tie"}, {"tie", "crash"}, middle=24)


def c05():
    chk = Check("C05")
    combos = [("tz", "even", 16, 24, 1), ("az", "even", 30, 40, 1), ("tpi", "even", 6, 10, 6), ("tmi", "even", 6, 10, 6)]
    return decide(chk, combos, {"inside", "shortest", "closest"}, {"inside", "shortest", "closest", "crash"},
                  timeout_ms=1000, task_s=8, core=lambda m, f: (0.4 if m in ("tz", "az") else 0.2) if f == "d" else 0.5)


def c06():
    chk = Check("C06")
    combos = [("ne", "dnc", 70, 80, 1)] + [(m, "dnc", 5, 10, 6) for m in NEAREST[1:] + DIRECTED]
    return decide(chk, combos, {"inside", "shortest"}, {"inside", "shortest", "crash"}, timeout_ms=1000, task_s=8,
                  core=lambda m, f: 1 if m == "ne" else 0.2 if m in DIRECTED and f == "d" else 0.5)


def c09():
    chk = Check("C09")
    combos = [("ne", "even", 30, 40, 1), ("ne", "dnc", 16, 20, 2)] + others(chk, NEAREST[1:], 3, 6, 12) + \
        others(chk, DIRECTED, 1, 4, 12)
    return decide(chk, combos, {"digits", "sign"}, {"digits", "sign", "crash"}, timeout_ms=1000, task_s=8,
                  core=lambda m, f: 0.1 if m in DIRECTED else 0.4)


SANITIZE = ("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all")


def c13():
    chk = Check("C13")
    combos = [("ne", "even", 30, 40, 1)] + others(chk, NEAREST[1:], 3, 8, 12) + \
        [(m, chk.rnd.choice(POLICIES + ("dnc",)), 2, 5, 24) for m in ("nes", "nos", "npis", "nmis")] + \
        [(m, chk.rnd.choice(("even", "dnc")), 2, 6, 12) for m in DIRECTED]
    return decide(chk, combos, {"ub"}, {"crash"}, task_s=12, limit=150, flags=SANITIZE,
                  core=lambda m, f: 0.1 if m in DIRECTED and f == "d" else 0.3)


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C09": c09, "C13": c13}
