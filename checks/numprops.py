"""Checks on the numeric result (significand, exponent): symbolic execution of the conversion, one job per
(format, mode, policy, exponent field), all mantissas and both signs at once."""
import time

import common
import exact
import plan
from common import Check, Replayer, Work, bits_of, fname, numeric_fn
from numeric import FMT, Job
from symex import Engine

_mods = {}
_cfg = {}


def run_task(t):
    fmt, mode, cr, E, part, want, variant = t
    mod = _mods[variant]
    total = {"viol": [], "unknown": [], "counts": {}, "paths": 0, "used": set()}
    todo = [(E, None)]
    if part == "e":                                                  # E: (first, last + 1, step)
        top = (1 << FMT[fmt]["p"]) - 1
        todo = [(x, sl) for x in range(*E) for sl in (((0, 0), (top, top)) if mode in common.DIRECTED else ((0, 0),))]
    for x, sl in todo:
        eng = Engine(mod, check_ub="ub" in want)
        eng.deadline = time.time() + _cfg["task_s"]
        job = Job(eng, fmt, mode, cr, x, set(want), _cfg["timeout_ms"], sl)
        try:
            job.run("@" + fname(fmt, mode, cr), _cfg["seed"])
        except Exception as ex:
            if not job.viol:
                raise
            job.unknown.append(("aborted", repr(ex)))
        total["viol"] += [(w, ms, note, x) for w, ms, note in job.viol]
        total["unknown"] += [(u, x) for u in job.unknown]
        for k, v in job.counts.items():
            total["counts"][k] = total["counts"].get(k, 0) + v
        total["paths"] += eng.paths
        total["used"] |= eng.used
    total["used"] = sorted(total["used"])
    total["sample"] = {"format": fmt, "mode": mode, "policy": cr, "exponent_field": E,
                       "mantissas": ("0, all ones" if mode in common.DIRECTED else "0") if part == "e" else "1..2^%d-1" % FMT[fmt]["p"], "paths": total["paths"],
                       "queries": dict(total["counts"])}
    return total


def body(tasks):
    fns = {}
    for t in tasks:
        fns[fname(*t[:3])] = numeric_fn(*t[:3])
    return fns


def _plan1(a):
    chk, mod, fmt, mode, cr, n = a
    chk.work.n = 1000 + n          # file names of its own
    return plan.probe(chk.work, fmt, mode, cr, chk.seed) + \
        (plan.odd_table_exponents(mod, fmt, "@" + fname(fmt, mode, cr)),)


def _plan2(i):
    return {"plan": _plan1(_plan_args[i])}


def plans(chk, mod, combos):
    """probe every (format, mode, policy)"""
    global _plan_args
    _plan_args = [(chk, mod) + c + (10 * i,) for i, c in enumerate(combos)]
    res, missed = common.run_jobs(_plan2, range(len(combos)), time.time() + 200)
    got = {combos[r["task"]]: r["plan"] for r in res if "plan" in r}
    for r in res:
        if "error" in r:
            chk.undecided.append({"task": "choice of exponents %r" % (combos[r["task"]],), "why": r["error"]})
    return {c: got.get(c, ([], [], [])) for c in combos}


def exponents(chk, plan_, fmt, n):
    """the exponents of a quick run: thresholds of the code, table entries out of line, samples gone bad, a sample"""
    emax = (1 << FMT[fmt]["eb"]) - 1
    marks, bad, odd = plan_
    pick = list(dict.fromkeys(bad[:12] + odd[:60] + marks + [0, 1, emax - 1]))
    first = len(bad[:12]) + len(odd[:60])
    rest = [E for E in plan.strata(chk.rnd, 0, emax, n) if E not in set(pick)]
    return pick, rest, first


def edge_tasks(fmt, mode, cr, want, variant="x64", first=1, by=1, step=256):
    """mantissa 0 (where the interval is asymmetric), in directed modes also the mantissa of all ones (whose right
    endpoint has the next exponent): exponents first, first + by, ..., in batches"""
    emax = (1 << FMT[fmt]["eb"]) - 1
    return [(fmt, mode, cr, (E, min(E + step * by, emax), by), "e", want, variant)
            for E in range(first, emax, step * by)]


def execute(chk, tasks, broken_by, timeout_ms=4000, task_s=60, confirm=None, flags=("-O1",), group_edges=True):
    """run the tasks, confirm counterexamples on the compiled code and report them"""
    _cfg.update(timeout_ms=timeout_ms, task_s=task_s, seed=chk.seed)
    replayer = {}

    def rep():
        if "r" not in replayer:
            replayer["r"] = Replayer(chk.work, body(tasks), flags)
        return replayer["r"]

    def on_result(r):
        chk.account(r)
        for what, (m, s), note, E in r.get("viol", ()):
            fmt, mode, cr = r["task"][:3]
            b = bits_of(fmt, E, m, s)
            got = rep().run(fname(fmt, mode, cr), b)
            chk.validated += 1
            if type(got) is str:
                bad = {"crash"}
                det = got
            else:
                bad = exact.judge(fmt, mode, cr, b, *got)
                det = "%s%d*10^%d" % ("-" if got[2] else "", got[0], got[1])
            hit = bad & broken_by
            inp = {"format": fmt, "mode": mode, "policy": cr, "bits": hex(b)}
            if hit:
                chk.report(",".join(sorted(hit)), inp, {"input": inp, "result": det, "query": what, "exponent_field": E})
                return bool(chk.violations)
            chk.unconfirmed.append({"input": inp, "query": what, "note": repr(note), "result": det, "breaks": sorted(bad)})
        return False

    def run(tasks):
        res, missed = common.run_twice(run_task, tasks, chk, on_result, _cfg)
        if missed and not chk.violations:
            chk.undecided.append({"task": "%d slices" % missed, "why": "time limit of the run"})
        return not chk.violations

    return run(tasks)


def validate(chk, tasks, k=24):
    """translation check: run the encoding on concrete inputs and compare with the compiled code"""
    rnd = chk.rnd
    sel = []
    combos = list(dict.fromkeys(t[:3] + (t[6],) for t in tasks))
    rp = Replayer(chk.work, body(tasks), ("-O1",))
    bad = 0
    for fmt, mode, cr, variant in combos[:12]:
        for _ in range(max(2, k // max(1, len(combos)))):
            emax = (1 << FMT[fmt]["eb"]) - 1
            E = rnd.randrange(0, emax)
            m = rnd.randrange(1, 1 << FMT[fmt]["p"])
            s = rnd.randrange(2)
            b = bits_of(fmt, E, m, s)
            got = concrete(_mods[variant], "@" + fname(fmt, mode, cr), b)
            want = rp.run(fname(fmt, mode, cr), b)
            if got is None or type(want) is str:
                continue
            chk.validated += 1
            if got != want:
                bad += 1
                chk.undecided.append({"task": "validation %s %x" % (fname(fmt, mode, cr), b),
                                      "why": "encoding gives %r, compiled code %r" % (got, want)})
    return bad


def concrete(mod, fn, b):
    eng = Engine(mod)
    eng.start()
    out = []

    def leaf(st):
        c = st.mem[o.obj].cells
        x = c[8][1]
        out.append((c[0][1], (x + (1 << 31)) % (1 << 32) - (1 << 31), c[16][1]))
    eng.on_leaf = leaf
    eng.on_event = lambda st, ev: None
    st = eng.new_state()
    o = eng.alloc(st, 24, "out")
    eng.enter(st, fn, [b, o])
    eng.run(st)
    return out[0] if out else None


def load(chk, tasks):
    fns = body(tasks)
    for v in dict.fromkeys(t[6] for t in tasks):
        _mods[v] = chk.work.module(common.GRISU_H + "".join(fns.values()), v)
