"""Relational properties: one harness function makes several conversions of the same symbolic input and stores their
results; on every path the solver decides whether two of them can differ."""
import os
import time

import common
import numprops
import plan
from common import CRS, DIRECTED, FTYPE, MODES, NEAREST, Check, Work, bits_of
from numeric import FMT, Job
from symex import Engine, UNDEF
from terms import c_not, add, scale, sub
from props_num import ASSUME, POLICIES

_cfg = {}

PUT = """template <class V> static inline void put(std::uint64_t* r, V const& v, std::uint64_t neg) {
  r[0] = v.significand; r[1] = (std::uint64_t)(std::int64_t)v.exponent; r[2] = neg;
}
"""


def call(mode, cr, signed=True, handler=None, x="x", ns="jkj"):
    h = ", %s::grisu_exact_case_handlers::%s{}" % (ns, handler) if handler else ""
    return "%s::grisu_exact<%s>(%s, %s::grisu_exact_rounding_modes::%s{}, %s::grisu_exact_correct_rounding::%s{}%s)" % (
        ns, "true" if signed else "false", x, ns, MODES[mode], ns, CRS[cr], h)


def harness(name, fmt, calls):
    """calls: [(expression yielding fp_t, expression for the sign slot or None)]; x, y = the input and its negation"""
    F, B = FTYPE[fmt]
    s = 'extern "C" void %s(%s bits, %s nbits, std::uint64_t* r) {\n  %s x, y; std::memcpy(&x, &bits, sizeof(x)); ' \
        'std::memcpy(&y, &nbits, sizeof(y));\n' % (name, B, B, F)
    for j, (e, neg) in enumerate(calls):
        s += "  { auto v = %s; put(r + %d, v, %s); }\n" % (e, 3 * j, neg or "v.is_negative")
    return s + "}\n"


def pairs(srcs, budget, n, fmt, calls, b):
    """the harness n in two-call parts: every other call against the first (few paths each: long conversions)"""
    for j in range(1, len(calls)):
        p = "%s_%d" % (n, j)
        srcs[p] = (harness(p, fmt, [calls[0], calls[j]]), 2)
        budget[p] = b


class RelJob(Job):
    """all results of the harness equal the first one; the first one's sign slot is the sign of the input"""

    def __init__(self, eng, fmt, E, n, timeout_ms, slice_=None):
        Job.__init__(self, eng, fmt, "ne", "even", E, {"same"}, timeout_ms, slice_)
        self.n_res = n

    def start(self, st):
        eng, ctx = self.eng, self.eng.ctx
        self.out = eng.alloc(st, 24 * self.n_res, "out")
        F = FMT[self.fmt]
        top = 1 << (F["p"] + F["eb"])
        bits = add(add(self.m, self.E << F["p"]), scale(self.s, top))
        nbits = add(add(self.m, self.E << F["p"]), sub(top, scale(self.s, top)))
        return [bits, nbits, self.out]

    def leaf(self, st):
        ctx = self.eng.ctx
        cells = st.mem[self.out.obj].cells

        def cell(j):
            c = cells.get(8 * j)
            return None if c is None or c[1] is UNDEF else ctx.canon(self.as_int(c[1]), 64)
        ref = [cell(j) for j in range(3)]
        self.differ("sign", ref[2], self.s, 0)
        for k in range(1, self.n_res):
            for j in range(3):
                self.differ("same", ref[j], cell(3 * k + j), (k, "NXs"[j]))

    def as_int(self, v):
        return self.eng.ctx.boolint(v) if type(v) is tuple or v is True or v is False else v

    def differ(self, what, a, b, note):
        if a is None or b is None:
            self.ask(what, True, note)
        else:
            self.ask(what, c_not(self.eng.ctx.eq0(sub(a, b))), note)

    def event(self, st, ev):
        self.ask("other", True, repr(ev))


def run_task(t):
    name, fmt, n, spec, part = t
    total = {"viol": [], "unknown": [], "counts": {}, "paths": 0, "used": set()}
    todo = [(spec, None)] if part == "n" else [(x, (0, 0)) for x in range(*spec)]
    for E, sl in todo:
        eng = Engine(_cfg["mod"])
        eng.deadline = time.time() + _cfg["task_s"]
        job = RelJob(eng, fmt, E, n, _cfg["timeout_ms"], sl)
        try:
            job.run("@" + name, _cfg["seed"])
        except Exception as ex:
            if not job.viol:
                raise
            job.unknown.append(("aborted", repr(ex)))
        total["viol"] += [(w, ms, note, E) for w, ms, note in job.viol]
        total["unknown"] += [(u, E) for u in job.unknown]
        for k, v in job.counts.items():
            total["counts"][k] = total["counts"].get(k, 0) + v
        total["paths"] += eng.paths
        total["used"] |= eng.used
    total["used"] = sorted(total["used"])
    total["sample"] = {"harness": name, "exponent_field": spec, "mantissas": "0" if part == "e" else "all but 0",
                       "paths": total["paths"], "queries": dict(total["counts"])}
    return total


MAIN = """
template <class B> static int go(void (*f)(B, B, std::uint64_t*), unsigned long long b, int n) {
  std::uint64_t r[64] = {0}; B top = (B)1 << (sizeof(B) * 8 - 1);
  f((B)b, (B)b ^ top, r);
  for (int k = 0; k < n; ++k) std::printf("%llu %lld %llu\\n", (unsigned long long)r[3*k], (long long)r[3*k+1], (unsigned long long)r[3*k+2]);
  return 0;
}
int main(int argc, char** argv) {
  unsigned long long b = std::strtoull(argv[2], nullptr, 0); std::string f = argv[1];
"""


class Replay:
    def __init__(self, work, pre, srcs, flags, cxx):
        self.work = work
        body = pre + "".join(s for s, n in srcs.values())
        body += MAIN + "".join('  if (f == "%s") return go(%s, b, %d);\n' % (k, k, n) for k, (s, n) in srcs.items()) + "}\n"
        self.path = work.exe(body, flags, cxx)

    def run(self, name, bits):
        r = common.died(self.work, [self.path, name, str(bits)])
        return r if type(r) is str else [tuple(map(int, l.split())) for l in r.stdout.decode().strip().split("\n")]


def broken(fmt, bits, res):
    """what a concrete run of the harness shows"""
    if type(res) is str:
        return {"crash"}
    bad = set()
    if res[0][2] != bits >> (31 if fmt == "f" else 63):
        bad.add("sign")
    if any(r != res[0] for r in res):
        bad.add("same")
    return bad


def decide(chk, srcs, budget, pre=common.GRISU_H + PUT, probes=(), timeout_ms=1500, limit=240, task_s=10,
           finish=True, flags=("-O1",), extra=(), cxx="g++"):
    """srcs: {name: (source, number of results)}, names start with the format; budget: {name: (exponent fields, by[, share
    of the core exponents])};
    probes: conversions whose thresholds tell where to look, [(fmt, mode, cr)]"""
    mod = chk.work.module(pre + "".join(s for s, n in srcs.values()), extra=extra)
    _cfg.update(mod=mod, timeout_ms=60000 if chk.thorough else timeout_ms, task_s=900 if chk.thorough else task_s,
                seed=chk.seed)
    rp = Replay(chk.work, pre, srcs, tuple(flags) + tuple(extra), cxx)
    plans = numprops.plans(chk, chk.work.module(common.GRISU_H + "".join(common.numeric_fn(*c) for c in probes)),
                           list(probes)) if probes and not chk.thorough else {}
    tasks, picked = [], {}
    for name, (src, n) in srcs.items():
        fmt = name[0]
        emax = (1 << FMT[fmt]["eb"]) - 1
        k, by, core = (tuple(budget[name]) + (0,))[:3]
        if chk.thorough:
            by, Es = 1, range(emax)
        else:
            marks = sorted(set(x for c, (mk, bad, odd) in plans.items() if c[0] == fmt for x in mk + bad[:6]))
            marks = chk.rnd.sample(marks, min(len(marks), k))
            Es = list(dict.fromkeys(marks + [0, 1, emax - 1] + plan.strata(chk.rnd, 0, emax, k) +
                                    plan.core(chk.rnd, fmt, core)))
        picked[name] = len(Es)
        tasks += [(name, fmt, n, E, "n") for E in Es]
        first = chk.rnd.randint(1, by)
        tasks += [(name, fmt, n, (E, min(E + 64 * by, emax), by), "e") for E in range(first, emax, 64 * by)]
    chk.rnd.shuffle(tasks)
    chk.assumptions = ASSUME
    chk.bounds = {"per slice": "one exponent field; mantissa (all values) and sign symbolic; no loop bound was hit",
                  "exponent fields encoded per harness": picked,
                  "mantissa 0": {k: "one in %d" % (1 if chk.thorough else budget[k][1]) for k in srcs},
                  "outside": "none" if chk.thorough else "exponent fields not picked in this run (the thorough tier takes all)"}
    # concrete runs of the encoding against the compiled code
    for name, (src, n) in srcs.items():
        fmt = name[0]
        emax = (1 << FMT[fmt]["eb"]) - 1
        for _ in range(2):
            b = bits_of(fmt, chk.rnd.randrange(emax), chk.rnd.randrange(1, 1 << FMT[fmt]["p"]), chk.rnd.randrange(2))
            got, want = concrete(mod, "@" + name, fmt, b, n), rp.run(name, b)
            if got is None or type(want) is str:
                continue
            chk.validated += 1
            if got != want:
                chk.undecided.append({"task": "validation %s %x" % (name, b), "why": "encoding %r, compiled %r" % (got, want)})
    if not chk.thorough:
        chk.deadline = min(chk.deadline, chk.t0 + limit)

    def on_result(r):
        chk.account(r)
        name, fmt, n = r["task"][:3]
        for what, (m, s), note, E in r.get("viol", ()):
            b = bits_of(fmt, E, m, s)
            res = rp.run(name, b)
            chk.validated += 1
            bad = broken(fmt, b, res)
            inp = {"harness": name, "bits": hex(b)}
            if bad:
                chk.report(",".join(sorted(bad)), inp, {"input": inp, "results": res, "query": what, "note": repr(note)})
                return bool(chk.violations)
            chk.unconfirmed.append({"input": inp, "query": what, "note": repr(note), "results": res})
        return False
    res, missed = common.run_twice(run_task, tasks, chk, on_result, _cfg)
    if missed and not chk.violations:
        chk.undecided.append({"task": "%d slices" % missed, "why": "time limit of the run"})
    return chk.finish() if finish else None


def concrete(mod, fn, fmt, b, n):
    eng = Engine(mod)
    eng.start()
    out = []

    def leaf(st):
        c = st.mem[o.obj].cells
        g = lambda j: int(c[8 * j][1]) if 8 * j in c else 0
        sg = lambda x: x - (1 << 64) if x >> 63 else x
        out.append([(g(3 * k), sg(g(3 * k + 1)), g(3 * k + 2)) for k in range(n)])
    eng.on_leaf = leaf
    eng.on_event = lambda st, ev: None
    st = eng.new_state()
    o = eng.alloc(st, 24 * n, "out")
    top = 1 << (31 if fmt == "f" else 63)
    eng.enter(st, fn, [b, b ^ top, o])
    eng.run(st)
    return out[0] if out else None


STATIC = {"nes": "ne", "nos": "no", "npis": "npi", "nmis": "nmi"}


def c07():
    chk = Check("C07")
    srcs, budget = {}, {}
    for fmt in "df":
        for v, b in STATIC.items():
            crs = list(POLICIES) + ["dnc"]
            for cr in crs if chk.thorough else ["even", chk.rnd.choice(crs[1:])]:
                n = "%s_%s_%s" % (fmt, v, cr)
                srcs[n] = (harness(n, fmt, [(call(b, cr), None), (call(v, cr), None)]), 2)
                budget[n] = (10 if fmt == "d" else 12, 16, 1 if cr == "even" else 0.3)
    return decide(chk, srcs, budget, probes=[(f, "ne", "even") for f in "df"])


SYMMETRIC = ("ne", "no", "ntz", "naz", "tz", "az", "nes", "nos")
MIRROR = {"npi": "nmi", "nmi": "npi", "tpi": "tmi", "tmi": "tpi", "npis": "nmis", "nmis": "npis"}


def c08():
    chk = Check("C08")
    srcs, budget = {}, {}
    crs = list(POLICIES) + ["dnc"]
    for fmt in "df":
        for m in SYMMETRIC + tuple(MIRROR):
            for cr in crs if chk.thorough else [chk.rnd.choice(crs)]:
                n = "%s_%s_%s" % (fmt, m, cr)
                o = MIRROR.get(m, m)
                calls = [(call(m, cr), None), (call(o, cr, x="y"), "!v.is_negative"),
                         (call(m, cr, signed=False), "r[2]"), (call(o, cr, signed=False, x="y"), "r[2]")]
                if m in DIRECTED and fmt == "d":
                    pairs(srcs, budget, n, fmt, calls, (2, 64))
                    continue
                srcs[n] = (harness(n, fmt, calls), 4)
                if m in DIRECTED:
                    budget[n] = (4, 32, 0.3)
                else:
                    budget[n] = ((5, 32) if fmt == "d" else (6, 16)) + (1 if m in NEAREST else 0.2,)
    return decide(chk, srcs, budget, probes=[(f, "ne", "even") for f in "df"])


def own(fmt, mode, cr):
    """a handler of the caller's own; the sign is spoilt unless it runs once, on the input"""
    return "[&] { unsigned n = 0; %s seen = 0; auto w = jkj::grisu_exact<true>(x, jkj::grisu_exact_rounding_modes::%s{}, " \
           "jkj::grisu_exact_correct_rounding::%s{}, [&](auto br) { ++n; seen = br.f; }); " \
           "if (n != 1 || seen != bits) w.is_negative = !w.is_negative; return w; }()" % (FTYPE[fmt][1], MODES[mode], CRS[cr])


def c20_same(chk):
    srcs, budget = {}, {}
    crs = list(POLICIES) + ["dnc"]
    for fmt in "df":
        for m in MODES:
            for cr in crs if chk.thorough else [chk.rnd.choice(crs)]:
                n = "%s_%s_%s" % (fmt, m, cr)
                calls = [(call(m, cr), None), (call(m, cr, handler="ignore_special_cases"), None),
                         (call(m, cr, handler="assert_finite"), None), (own(fmt, m, cr), None)]
                if m in DIRECTED and fmt == "d":
                    pairs(srcs, budget, n, fmt, calls, (1, 64))
                    continue
                srcs[n] = (harness(n, fmt, calls), 4)
                budget[n] = (3, 64, 0.2 if m not in DIRECTED else 0)
    return srcs, budget


MSVC_DIR = os.path.join(common.ROOT, "engine", "inc", "msvc")
# the sources three times in one unit: as they are, without 128-bit integers and intrinsics, and with MSVC's intrinsics
# (stand-ins by their documentation)
BRANCHES = common.GRISU_H + """
#include "fake_intrin.h"
#undef __SIZEOF_INT128__
#undef __x86_64__
#undef JKJ_GRISU_EXACT
#define jkj jkj_generic
#include "grisu_exact.h"
#undef jkj
#undef __GNUC__
#undef JKJ_GRISU_EXACT
#define _MSC_VER 1928
#define _M_X64 100
#define jkj jkj_msvc
#include "grisu_exact.h"
#undef jkj
""" + PUT


def c14():
    chk = Check("C14")
    srcs, budget = {}, {}
    crs = list(POLICIES) + ["dnc"]
    for fmt in "df":
        for m in MODES if chk.thorough else NEAREST + DIRECTED:
            for cr in crs if chk.thorough else ["even"] if m == "ne" else [chk.rnd.choice(crs)]:
                n = "%s_%s_%s" % (fmt, m, cr)
                srcs[n] = (harness(n, fmt, [(call(m, cr), None), (call(m, cr, ns="jkj_generic"), None),
                                            (call(m, cr, ns="jkj_msvc"), None)]), 3)
                if m == "ne":
                    budget[n] = (30, 8) if fmt == "d" else (30, 4)
                elif m in DIRECTED:
                    budget[n] = (2, 64) if fmt == "d" else (3, 32)
                else:
                    budget[n] = (4, 64, 0.2) if fmt == "d" else (5, 32, 0.2)
    # 32-bit target: the same result, stated by the definition
    combos = [("ne", "even"), (chk.rnd.choice(NEAREST[1:]), chk.rnd.choice(POLICIES)), ("az", "even")]
    numprops._mods["i386"] = chk.work.module(
        common.GRISU_H + "".join(common.numeric_fn(f, m, c) for f in "df" for m, c in combos), "i386")
    want = ("closest", "inside", "shortest", "tie")
    tasks = []
    for m, c in combos:
        for f in "df":
            emax = (1 << FMT[f]["eb"]) - 1
            Es = range(emax) if chk.thorough else [0, 1, emax - 1] + plan.strata(chk.rnd, 0, emax, 10 if m == "ne" else 3)
            tasks += [(f, m, c, E, "n", want, "i386") for E in Es]
    decide(chk, srcs, budget, pre=BRANCHES, probes=[(f, "ne", "even") for f in "df"], finish=False, cxx="clang++",
           extra=("-I" + MSVC_DIR, "-Wno-builtin-macro-redefined"))
    chk.assumptions = ASSUME + ["MSVC intrinsics stand-ins (engine/inc/msvc) have the documented meaning"]
    chk.bounds["32-bit target"] = {"exponent fields": len(tasks), "configurations": ["%s/%s" % c for c in combos]}
    if not chk.violations:
        if not chk.thorough:
            chk.deadline = chk.t0 + 200
        numprops.validate(chk, tasks, 12)
        numprops.execute(chk, tasks, {"inside", "shortest", "closest", "tie", "crash"},
                         timeout_ms=60000 if chk.thorough else 1000, task_s=900 if chk.thorough else 10, flags=("-O1", "-m32"))
    return chk.finish()


def c20():
    chk = Check("C20")
    srcs, budget = c20_same(chk)
    decide(chk, srcs, budget, finish=False)
    if not chk.violations:
        handler(chk)
    return chk.finish()


def handler(chk):
    """the default handler and the default call fail an assertion on every infinity and NaN; on finite numbers the handler
    fails none"""
    import unit
    from unit import Args, Calls, Unit, bounds_of
    from props_unit import fn
    body = ""
    for f in "df":
        F, B = FTYPE[f]
        x = "%s b = (%s)a[0]; %s x; std::memcpy(&x, &b, sizeof(x)); " % (B, B, F)
        body += fn("handler_" + f, x + "jkj::grisu_exact_case_handlers::assert_finite{}(jkj::get_bit_representation(x)); r[0] = 1;")
        body += fn("default_" + f, x + "auto v = jkj::grisu_exact(x); r[0] = v.significand;")
    mod = chk.work.module(common.GRISU_H + body)
    calls = Calls(chk.work, common.GRISU_H, body, ["handler_d", "handler_f", "default_d", "default_f"], 1)

    def task(t):
        kind, f = t
        u = Unit(mod, "@%s_%s" % t, 20000)
        p, eb = FMT[f]["p"], FMT[f]["eb"]
        top = (1 << eb) - 1
        s, m = u.var("s", 0, 1), u.var("m", 0, (1 << p) - 1)
        E = u.var("E", 0 if kind == "handler" else top, top)
        A = Args(u, [add(add(m, scale(E, 1 << p)), scale(s, 1 << (p + eb)))], 1)
        fin = u.ctx.ge0(sub(top - 1, E))

        def event(st, ev):
            u.ask("stops on a finite number" if ev.kind == "assert" else "other", fin if ev.kind == "assert" else True, repr(ev))
        u.event = event
        u.run(A.args(), lambda st: u.ask("accepts an infinity or NaN", c_not(fin)))
        return u.result("%s_%s" % t, bounds_of(u))

    def confirm(name, v, what, note):
        f = name[-1]
        p, eb = FMT[f]["p"], FMT[f]["eb"]
        b = v["m"] | v["E"] << p | v["s"] << (p + eb)
        got = calls.run(name, [b])
        fin = v["E"] != (1 << eb) - 1
        return (type(got) is list) != fin, {"harness": name, "bits": hex(b)}, {"got": got}
    chk.bounds["handler"] = "all bit patterns (the default call: all infinities and NaNs)"
    unit.execute(chk, task, [(k, f) for k in ("handler", "default") for f in "df"], confirm)


PROPS = {"C14": c14, "C20": c20, "C07": c07, "C08": c08}
