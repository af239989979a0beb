"""Symbolic execution of one harness function with arguments chosen by a property, and replay of what it finds."""
import os
import time

import common
from common import FTYPE
from symex import UNDEF, Engine, dflt
from terms import Lin, Unsupported, add, c_and, c_not, c_or, scale, sub

_cfg = {}


class Unit:
    """one symbolic run.  vars: {name: (lo, hi)}"""

    def __init__(self, mod, fn, timeout_ms, check_ub=True, deadline=None):
        self.eng = Engine(mod, check_ub=check_ub)
        self.eng.start()
        self.eng.deadline = deadline
        self.ctx = self.eng.ctx
        self.fn = fn
        self.timeout = timeout_ms
        self.v = {}
        self.viol, self.unknown, self.counts = [], [], {}
        self.st = self.eng.new_state()
        self.bufs = {}
        self.ignore_events = False

    def var(self, name, lo, hi):
        x = self.v[name] = self.ctx.var(name, lo, hi)
        return x

    def buf(self, name, size):
        p = self.bufs[name] = self.eng.alloc(self.st, size, name)
        return p

    def pool(self, envs):
        """witnesses to try before the solver: [{name: value}]"""
        out = []
        for e in envs:
            if all(type(self.v[k]) is int or self.ctx.interval(self.v[k])[0] <= x <= self.ctx.interval(self.v[k])[1]
                   for k, x in e.items()):
                d = {self.v[k].t[0][0]: x for k, x in e.items() if type(self.v[k]) is Lin}
                d["default"] = dflt
                out.append(d)
        self.eng.set_pool(out)

    def run(self, args, leaf):
        eng = self.eng
        eng.on_leaf = leaf
        eng.on_event = self.event
        eng.enter(self.st, self.fn, args)
        eng.run(self.st)
        return self

    def event(self, st, ev):
        if not self.ignore_events:
            self.ask(ev.kind, True, repr(ev))

    def int(self, v):
        return self.ctx.boolint(v) if type(v) is tuple or v is True or v is False else v

    def cell(self, st, name, off, size, signed=False):
        """integer in a buffer, or None if not (fully) written"""
        eng = self.eng
        o = eng.obj(st, self.bufs[name])
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            for j in range(size):
                if not any(off + j - b in o.cells and o.cells[off + j - b][0] > b for b in range(17)):
                    return None
            v = eng.gather(o, off, size, None)
        if v is UNDEF:
            return None
        return self.ctx.canon(self.int(v), 8 * size, signed)

    def model(self, env=None):
        ctx = self.ctx
        if env is None:
            m = self.eng.sv.model_values()
            return {k: x if type(x) is int else m.get(x.t[0][0], ctx.interval(x)[0]) for k, x in self.v.items()}
        return {k: x if type(x) is int else env.get(x.t[0][0], ctx.interval(x)[0]) for k, x in self.v.items()}

    def ask(self, what, cond, note=None):
        eng = self.eng
        cond = eng.ctx.c_eval(cond)
        self.counts[what] = self.counts.get(what, 0) + 1
        if cond is False:
            return "unsat"
        for env in eng.pool:
            if eng.ctx.ev_cond(cond, env):
                self.viol.append((what, self.model(env), note))
                return "sat"
        eng.sv.push()
        eng.sv.add(cond)
        r = eng.sv.check(timeout=self.timeout)
        if r == "sat":
            self.viol.append((what, self.model(), note))
        elif r == "unknown":
            self.unknown.append((what, note))
        eng.sv.pop()
        return r

    def result(self, name, bounds):
        return {"viol": [(name, w, m, note) for w, m, note in self.viol], "unknown": self.unknown, "counts": self.counts,
                "paths": self.eng.paths, "used": sorted(self.eng.used),
                "sample": {"harness": name, "symbolic": bounds, "paths": self.eng.paths, "queries": dict(self.counts)}}


def bounds_of(u):
    out = {}
    for k, x in u.v.items():
        if type(x) is int:
            out[k] = x
        else:
            a = u.ctx.atoms[x.t[0][0]]
            out[k] = [a.lo, a.hi]
    return out


def _run(t):
    return _cfg["task"](t)


def execute(chk, task, tasks, confirm, limit=120):
    """run task(t) (returning a Unit result) for all tasks; confirm(harness, model, what, note) replays a counterexample on
    compiled code and returns (is it one, identification, detail)"""
    _cfg["task"] = task
    if not chk.thorough:
        chk.deadline = min(chk.deadline, chk.t0 + limit)

    def on_result(r):
        chk.account(r)
        for name, what, model, note in r.get("viol", ()):
            bad, inp, detail = confirm(name, model, what, note)
            chk.validated += 1
            if bad:
                chk.report(what, inp, {"input": inp, "detail": detail, "note": repr(note)})
                return bool(chk.violations)
            chk.unconfirmed.append({"input": inp, "query": what, "note": repr(note), "result": detail})
        return False
    res, missed = common.run_jobs(_run, tasks, chk.deadline, on_result)
    if missed and not chk.violations:
        chk.undecided.append({"task": "%d tasks" % missed, "why": "time limit of the run"})


class Calls:
    """compiled harness functions void f(uint64_t const* a, uint64_t* r), run on concrete arguments"""

    def __init__(self, work, pre, body, names, nres, flags=("-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"),
                 cxx="g++", post=""):
        self.work = work
        main = "int main(int argc, char** argv) { std::uint64_t a[16] = {0}, r[64] = {0}; std::string f = argv[1];\n" \
               "for (int i = 2; i < argc; ++i) a[i - 2] = std::strtoull(argv[i], nullptr, 0);\n"
        main += "".join('  if (f == "%s") %s(a, r);\n' % (n, n) for n in names)
        main += '  for (int i = 0; i < %d; ++i) std::printf("%%llu ", (unsigned long long)r[i]);\n}\n' % nres
        self.path = work.exe(pre + body + main, flags, cxx)

    def run(self, name, args):
        r = common.died(self.work, [self.path, name] + [str(a % (1 << 64)) for a in args])
        return r if type(r) is str else [int(x) for x in r.stdout.split()]


class Args:
    """argument block of a harness function void f(uint64_t const* a, uint64_t* r)"""

    def __init__(self, u, values, nres):
        self.u = u
        self.a = u.buf("a", 8 * max(1, len(values)))
        o = u.eng.obj(u.st, self.a)
        for j, v in enumerate(values):
            o.cells[8 * j] = (8, v)
        self.r = u.buf("r", 8 * nres)

    def args(self):
        return [self.a, self.r]


def concrete(mod, fn, values, nres):
    """run the encoding on concrete arguments: list of results, or None (it ended in an event)"""
    u = Unit(mod, fn, 1000, check_ub=False)
    out = []
    A = Args(u, [v % (1 << 64) for v in values], nres)
    u.ignore_events = True

    def leaf(st):
        out.append([u.cell(st, "r", 8 * j, 8) or 0 for j in range(nres)])
    u.run(A.args(), leaf)
    return out[0] if out else None


def validate(chk, mod, calls, samples, nres):
    """the encoding against the compiled code on concrete arguments"""
    for name, args in samples:
        got, want = concrete(mod, "@" + name, args, nres), calls.run(name, args)
        if got is None or type(want) is str:
            continue
        chk.validated += 1
        if got != want[:nres]:
            chk.undecided.append({"task": "validation %s %r" % (name, args), "why": "encoding %r, compiled %r" % (got, want)})
