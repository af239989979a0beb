"""Text output: the digit writer on all significands and exponents, special values, and the public entry points end to end."""
import os
import re
import time

import common
import numprops
import plan
import props_rel
import unit
from common import CRS, DIRECTED, FTYPE, MODES, NEAREST, Check, bits_of
from numeric import FMT, Job
from props_num import POLICIES
from symex import UNDEF, Engine
from terms import c_and, c_not, c_or, add, scale, sub
from unit import Unit, bounds_of

HEAD = common.GRISU_H + '#include "fp_to_chars.h"\n'
CPP = '#include "fp_to_chars/fp_to_chars.cpp"\n'
VARIANTS = {"clang": HEAD + CPP, "gcc": HEAD + "#undef __clang__\n" + CPP}
DIGITS = {"d": 17, "f": 9}
TRANGE = {"d": (-324, 308), "f": (-45, 38)}        # exponent as printed
SIZE = {"d": 24, "f": 15}
ASSUME = [
    "IR of clang 18 for x86-64 at -O0 semantics with locals promoted to registers (opt mem2reg) is the code under test",
    "memcpy has its documented meaning",
    "concrete runs of the encoding are compared with g++-compiled code on every run",
]


# ------------------------------------------------------------------------------ what the text has to be
def expo(T):
    return ("E" + str(T)).encode()


def text_of(N, X):
    s = str(N)
    return (s[0] + ("." + s[1:] if len(s) > 1 else "")).encode() + expo(X + len(s) - 1)


def classes(lo, hi):
    """ranges of printed exponents with the same sign and number of digits"""
    out = []
    for a, b in ((-999, -100), (-99, -10), (-9, -1), (0, 9), (10, 99), (100, 999)):
        a, b = max(a, lo), min(b, hi)
        if a <= b:
            out.append((a, b))
    return out


class Text:
    """compares the bytes in a buffer with the text of N*10^X; `host` has ask(), ctx, and cell(off)"""

    def __init__(self, host, at):
        self.h, self.ctx, self.at = host, host.ctx, at

    def byte(self, off, want, cond, what):
        got = self.h.byte(self.at + off)
        if got is None:
            self.h.ask("bounds", cond, ("unwritten byte", self.at + off))
            return
        self.h.ask(what, c_and(cond, c_not(self.ctx.eq0(sub(got, want)))), ("byte", self.at + off))

    def mantissa(self, N, k, cond, what="text"):
        """k digits of N with the point after the first; returns the number of bytes"""
        ctx = self.ctx
        for j in range(k):           # the digit of 10^j
            d = sub(ctx.div(N, 10 ** j), scale(ctx.div(N, 10 ** (j + 1)), 10)) if j < k - 1 else ctx.div(N, 10 ** j)
            pos = k - 1 - j
            self.byte(pos + 1 if pos else 0, add(d, 48), cond, what)
        if k > 1:
            self.byte(1, ord("."), cond, what)
        return k + (k > 1)

    def exponent(self, off, T, cond, a, b, what="text"):
        """T in [a, b], one class"""
        ctx = self.ctx
        self.byte(off, ord("E"), cond, what)
        off += 1
        if b < 0:
            self.byte(off, ord("-"), cond, what)
            off += 1
            T, a, b = scale(T, -1) if type(T) is not int else -T, -b, -a
        n = len(str(b))
        for j in range(n):
            d = sub(ctx.div(T, 10 ** j), scale(ctx.div(T, 10 ** (j + 1)), 10)) if j < n - 1 else ctx.div(T, 10 ** j)
            self.byte(off + n - 1 - j, add(d, 48), cond, what)
        return off + n


def within(ctx, x, a, b):
    return c_and(ctx.ge0(sub(x, a)), ctx.ge0(sub(b, x)))


def written(cells):
    return sorted(x for off, (n, v) in cells.items() if v is not UNDEF for x in range(off, off + n))


# ------------------------------------------------------------------------------ the writer itself
def writer_fn(fmt):
    F = FTYPE[fmt][0]
    return ('extern "C" void write_%s(std::uint64_t const* a, std::uint64_t* r, char* buf) { jkj::unsigned_fp_t<%s> v; '
            'v.significand = (decltype(v.significand))a[0]; v.exponent = (int)(std::int64_t)a[1]; '
            'char* e = jkj::fp_to_chars_detail::%s_to_chars(v, buf); r[0] = (std::uint64_t)(e - buf); }\n' % (fmt, F, F))


class TextUnit(Unit):
    def byte(self, off):
        return self.cell(self.leaf_st, "buf", off, 1)


class Printer:
    """compiled harness functions void f(a, r, buf) with guard bytes around the buffer"""

    def __init__(self, work, pre, body, names, flags=("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"),
                 cxx="g++"):
        self.work = work
        main = """int main(int argc, char** argv) {
  std::uint64_t a[8] = {0}, r[8] = {0}; std::string f = argv[1];
  for (int i = 2; i < argc; ++i) a[i - 2] = std::strtoull(argv[i], nullptr, 0);
  char* mem = new char[%d]; std::memset(mem, 0x7f, %d); char* buf = mem + 64;
""" % (256, 256)
        main += "".join('  if (f == "%s") %s(a, r, buf);\n' % (n, n) for n in names)
        main += """  for (int i = 0; i < 256; ++i) std::printf("%02x", (unsigned char)mem[i]);
  std::printf("\\n"); for (int i = 0; i < 8; ++i) std::printf("%llu ", (unsigned long long)r[i]); std::printf("\\n"); delete[] mem;
}
"""
        self.path = work.exe(pre + body + main, flags, cxx)

    def run(self, name, args):
        """(text from the buffer's start to the returned end, results, bytes outside that were touched), or how it died"""
        r = common.died(self.work, [self.path, name] + [str(a % (1 << 64)) for a in args])
        if type(r) is str:
            return r
        h, res = r.stdout.decode().split("\n")[:2]
        mem = bytes.fromhex(h)
        res = [int(x) for x in res.split()]
        end = res[0] - (1 << 64) if res[0] >> 63 else res[0]
        out = [i - 64 for i in range(256) if mem[i] != 0x7f and not 0 <= i - 64 < end]
        return mem[64:64 + max(0, min(end, 190))], res, out


def writer_task(mods, timeout):
    def task(t):
        var, fmt, k, lo, hi = t
        u = TextUnit(mods[var], "@write_" + fmt, timeout)
        ctx = u.ctx
        N = u.var("N", 10 ** (k - 1), 10 ** k - 1)
        T = u.var("T", lo, hi)
        X = sub(T, k - 1)
        u.buf("buf", SIZE[fmt] - 1)
        A = unit.Args(u, [N, ctx.mod(X, 1 << 64) if type(X) is not int else X % (1 << 64)], 1)
        rnd = common.random.Random(k * 1009 + hi)
        envs = []
        for n in [10 ** (k - 1), 10 ** k - 1] + [rnd.randint(10 ** (k - 1), 10 ** k - 1) for _ in range(4)]:
            for x in (lo, hi, rnd.randint(lo, hi), max(lo, min(hi, 0)), max(lo, min(hi, 9)), max(lo, min(hi, 10))):
                envs.append({"N": n, "T": x})
        u.pool(envs)

        def event(st, ev):
            u.ask("bounds" if ev.kind == "oob" else "defined", True, repr(ev))
        u.event = event

        def leaf(st):
            u.leaf_st = st
            end = u.cell(st, "r", 0, 8)
            tx = Text(u, 0)
            got = written(u.eng.obj(st, u.bufs["buf"]).cells)
            for a, b in classes(lo, hi):
                C = ctx.c_eval(within(ctx, T, a, b))
                if C is False or u.eng.can_hold(C) is False:
                    continue
                p = tx.mantissa(N, k, C)
                p = tx.exponent(p, T, C, a, b)
                u.ask("end", c_and(C, c_not(ctx.eq0(sub(end, p)))) if end is not None else C, ("end", p))
                u.ask("bounds", c_and(C, any(x >= p or x < 0 for x in got)), "writes past the returned end")
        u.run(A.args() + [u.bufs["buf"]], leaf)
        return u.result("write_%s/%s" % (fmt, var), bounds_of(u))
    return task


def wrong(fmt, text, got):
    """what a concrete run of the writer breaks, against the text it should give"""
    if type(got) is str:
        return {"text", "end", "bounds", "defined"}
    bad = set()
    if got[0] != text:
        bad |= {"text", "end"}
    if 0x7f in got[0] or got[2] or got[1][0] != len(got[0]) or len(got[0]) > SIZE[fmt] - 1:
        bad |= {"bounds", "end"}
    return bad


KINDS = {"C10": {"text", "end", "defined"}, "C12": {"bounds", "end"}}


def writer(chk, kinds):
    body = writer_fn("d") + writer_fn("f")
    mods = {v: chk.work.module(pre + body) for v, pre in VARIANTS.items()}
    pr = {v: Printer(chk.work, pre, body, ["write_d", "write_f"], cxx="clang++" if v == "clang" else "g++")
          for v, pre in VARIANTS.items()}
    tasks = []
    for v in VARIANTS:
        for f in "df":
            lo, hi = TRANGE[f]
            for k in range(1, DIGITS[f] + 1):
                tasks += [(v, f, k, a, b) for a, b in classes(lo, hi)] if chk.thorough else [(v, f, k, lo, hi)]
    # concrete
    for v in VARIANTS:
        for f in "df":
            for _ in range(6):
                k = chk.rnd.randint(1, DIGITS[f])
                N, X = chk.rnd.randint(10 ** (k - 1), 10 ** k - 1), chk.rnd.randint(*TRANGE[f]) - k + 1
                got, want = concrete(mods[v], f, N, X), pr[v].run("write_" + f, [N, X])
                if got is None or type(want) is str:
                    continue
                chk.validated += 1
                if got != want[0]:
                    chk.undecided.append({"task": "validation %s %d %d" % (f, N, X), "why": "encoding %r, compiled %r" % (got, want)})

    def confirm(name, m, what, note):
        fn, var = name.split("/")
        f = fn[-1]
        N, T = m["N"], m["T"]
        X = T - len(str(N)) + 1
        got = pr[var].run(fn, [N, X])
        bad = wrong(f, text_of(N, X), got) & kinds
        return bool(bad), {"format": f, "branch": var, "significand": N, "exponent": X}, \
            {"expected": text_of(N, X).decode(), "got": repr(got)}
    chk.assumptions = ASSUME
    chk.bounds["writer"] = "every significand of 1..17 (1..9) digits with every exponent that prints as -324..308 (-45..38): " \
                           "no bound; the branches for clang and for other compilers"
    unit.execute(chk, writer_task(mods, 60000 if chk.thorough else 5000), tasks, confirm)


def concrete(mod, f, N, X):
    u = TextUnit(mod, "@write_" + f, 1000, check_ub=False)
    u.ignore_events = True
    u.buf("buf", 64)
    A = unit.Args(u, [N, X % (1 << 64)], 1)
    out = []

    def leaf(st):
        u.leaf_st = st
        n = u.cell(st, "r", 0, 8)
        out.append(bytes(u.byte(j) or 0 for j in range(n)))
    u.run(A.args() + [u.bufs["buf"]], leaf)
    return out[0] if out else None


# ------------------------------------------------------------------------------ special values
def public_fn(fmt, name, call, result=None, put=""):
    F, B = FTYPE[fmt]
    return ('extern "C" void %s(std::uint64_t const* a, std::uint64_t* r, char* buf) { %s b = (%s)a[0]; %s x; '
            'std::memcpy(&x, &b, sizeof(x)); char* e = %s; r[0] = (std::uint64_t)(e - buf); %s }\n'
            % (name, B, B, F, call, put))


def args_of(mode, cr):
    return "" if mode is None else ", jkj::grisu_exact_rounding_modes::%s{}, jkj::grisu_exact_correct_rounding::%s{}" % (
        MODES[mode], CRS[cr])


SPECIAL = (b"0E0", b"Infinity", b"NaN")


def special_text(fmt, bits):
    p, eb = FMT[fmt]["p"], FMT[fmt]["eb"]
    s, E, m = bits >> (p + eb), bits >> p & ((1 << eb) - 1), bits & ((1 << p) - 1)
    if E == 0 and m == 0:
        return b"-" * s + b"0E0"
    if E == (1 << eb) - 1:
        return b"NaN" if m else b"-" * s + b"Infinity"
    return None


def special(chk, kinds, names):
    """names: {harness: (fmt, terminated)}; zeros, infinities and NaNs through the public functions"""
    body, info = "", {}
    for f in "df":
        combos = [(None, None), (chk.rnd.choice(list(MODES)), chk.rnd.choice(list(CRS)))]
        for j, (m, c) in enumerate(combos):
            for z in (0, 1):
                n = "special_%s_%d%s" % (f, j, "z" if z else "")
                info[n] = (f, z)
                body += public_fn(f, n, "jkj::fp_to_chars%s(x, buf%s)" % ("" if z else "_n", args_of(m, c)))
    mod = chk.work.module(HEAD + CPP + body)
    pr = Printer(chk.work, HEAD + CPP, body, list(info))

    def task(t):
        n, kind = t
        f, z = info[n]
        p, eb = FMT[f]["p"], FMT[f]["eb"]
        u = TextUnit(mod, "@" + n, 10000)
        ctx = u.ctx
        s = u.var("s", 0, 1)
        if kind == "0E0":
            E, m = 0, 0
        else:
            E = (1 << eb) - 1
            m = u.var("m", 0, 0) if kind == "Infinity" else u.var("m", 1, (1 << p) - 1)
        u.buf("buf", SIZE[f] + z)
        A = unit.Args(u, [add(add(m, E << p), scale(s, 1 << (p + eb)))], 1)
        u.event = lambda st, ev: u.ask("bounds" if ev.kind == "oob" else "special", True, repr(ev))

        def leaf(st):
            u.leaf_st = st
            end = u.cell(st, "r", 0, 8)
            got = written(u.eng.obj(st, u.bufs["buf"]).cells)
            for neg in (0, 1):
                C = ctx.eq0(sub(s, neg))
                C = ctx.c_eval(C)
                if C is False:
                    continue
                want = (b"-" if neg and kind != "NaN" else b"") + kind.encode()
                tx = Text(u, 0)
                for j, ch in enumerate(want):
                    tx.byte(j, ch, C, "special")
                if z:
                    tx.byte(len(want), 0, C, "bounds")
                u.ask("end", c_and(C, c_not(ctx.eq0(sub(end, len(want))))), "end")
                u.ask("bounds", c_and(C, any(x >= len(want) + z or x < 0 for x in got)), "writes past the end")
        u.run(A.args() + [u.bufs["buf"]], leaf)
        r = u.result(n, bounds_of(u))
        r["viol"] = [(a, b, dict(c, kind=kind), d) for a, b, c, d in r["viol"]]
        return r

    def confirm(n, v, what, note):
        f, z = info[n]
        p, eb = FMT[f]["p"], FMT[f]["eb"]
        E = 0 if v["kind"] == "0E0" else (1 << eb) - 1
        m = v.get("m", 0)
        b = m | E << p | v["s"] << (p + eb)
        got = pr.run(n, [b])
        want = special_text(f, b)
        bad = public_wrong(f, z, want, got) & kinds
        return bool(bad), {"format": f, "harness": n, "bits": hex(b)}, {"expected": want.decode(), "got": repr(got)}
    for n in info:
        f, z = info[n]
        for b in (0, 1 << (63 if f == "d" else 31), ((1 << FMT[f]["eb"]) - 1) << FMT[f]["p"]):
            got = pr.run(n, [b])
            chk.validated += 1
            if type(got) is str or got[0] != special_text(f, b):
                pass        # the solver's task reports it
    chk.bounds["special values"] = "both zeros, both infinities, all NaNs: no bound"
    unit.execute(chk, task, [(n, k.decode()) for n in info for k in SPECIAL], confirm)


def public_wrong(f, z, want, got):
    if type(got) is str:
        return {"special", "text", "end", "bounds", "sign", "forward"}
    bad = set()
    text, res, out = got
    if text != want:
        bad |= {"special", "end", "text", "forward"}
        if text[:1] == b"-" and want[:1] != b"-" or want[:1] == b"-" and text[:1] != b"-":
            bad.add("sign")
    if z:
        if out != [len(text)]:
            bad.add("bounds")
    elif out:
        bad.add("bounds")
    if 0x7f in text or len(text) > SIZE[f]:
        bad.add("bounds")
    return bad


# ------------------------------------------------------------------------------ end to end
def end_fn(fmt, name, z, mode, cr):
    """text by the public function, and the decimal number by grisu_exact under the same convention"""
    put = "auto v = jkj::grisu_exact<false>(x%s); r[1] = v.significand; r[2] = (std::uint64_t)(std::int64_t)v.exponent;" % \
        args_of(mode or "ne", cr or "even")
    return public_fn(fmt, name, "jkj::fp_to_chars%s(x, buf%s)" % ("" if z else "_n", args_of(mode, cr)), put=put)


class EndJob(Job):
    def __init__(self, eng, fmt, E, z, want, timeout_ms, slice_=None):
        Job.__init__(self, eng, fmt, "ne", "even", E, want, timeout_ms, slice_)
        self.z = z

    def size(self):
        return SIZE[self.fmt] + self.z

    def start(self, st):
        self.ctx = self.eng.ctx
        self.a = self.eng.alloc(st, 8, "a")
        self.r = self.eng.alloc(st, 24, "r")
        self.b = self.eng.alloc(st, self.size(), "buf")
        eb = FMT[self.fmt]["eb"]
        st.mem[self.a.obj].cells[0] = (8, add(add(self.m, self.E << self.p), scale(self.s, 1 << (self.p + eb))))
        return [self.a, self.r, self.b]

    def event(self, st, ev):
        kind = "bounds" if ev.kind == "oob" else "forward"
        if kind in self.want or "forward" in self.want:
            self.ask(kind, True, repr(ev))

    def byte(self, off):
        o = self.leaf_st.mem[self.b.obj]
        c = o.cells.get(off)
        if c is None or c[0] != 1:
            if not any(off - b in o.cells and o.cells[off - b][0] > b for b in range(17)):
                return None
            v = self.eng.gather(o, off, 1, None)
        else:
            v = c[1]
        if v is UNDEF:
            return None
        return self.ctx.canon(self.ctx.boolint(v) if type(v) is tuple or type(v) is bool else v, 8)

    def leaf(self, st):
        eng, ctx = self.eng, self.ctx
        self.leaf_st = st
        self.leaves += 1
        cells = st.mem[self.r.obj].cells
        end = ctx.canon(cells[0][1], 64, True)
        N, X = ctx.canon(cells[8][1], 64), ctx.canon(cells[16][1], 64, True)
        for v, n in ((end, "end"), (X, "exponent")):
            if type(v) is not int:
                lo, hi = ctx.interval(v)
                eng.branch(ctx.eq0(sub(v, lo)), lambda side: self.fixed(st, n, lo) if side else self.leaf(st))
                return
        self.check(st, end, N, X)

    def fixed(self, st, n, lo):
        c = st.mem[self.r.obj].cells
        c[0 if n == "end" else 16] = (8, lo % (1 << 64))
        self.leaf(st)

    def check(self, st, end, N, X):
        ctx, z, want = self.ctx, self.z, self.want
        got = written(st.mem[self.b.obj].cells)
        if "bounds" in want:
            self.ask("bounds", any(x >= end + z or x < 0 for x in got) or any(x not in got for x in range(end + z)),
                     "written bytes")
            if z:
                b = self.byte(end)
                self.ask("bounds", True if b is None else c_not(ctx.eq0(b)), "terminator")
        if end <= 0:
            self.ask("forward", True, "nothing written")
            return
        if "sign" in want:
            dash = ctx.eq0(sub(self.byte(0), 45))
            self.ask("sign", c_or(c_and(self.neg, c_not(dash)), c_and(c_not(self.neg), dash)), "sign")
        if "forward" not in want:
            return
        neg = ctx.c_eval(self.neg)
        for s in (0, 1):
            S = neg if s else c_not(neg)
            if S is False:
                continue
            if s:
                self.ask("forward", c_and(S, c_not(ctx.eq0(sub(self.byte(0), 45)))), "minus sign")
            fits = []
            for k in range(1, DIGITS[self.fmt] + 1):
                R = ctx.c_eval(within(ctx, N, 10 ** (k - 1), 10 ** k - 1))
                if R is not False and s + len(text_of(10 ** (k - 1), X)) == end:
                    fits.append((k, R))
            self.ask("forward", c_and(S, c_not(c_or(*[R for k, R in fits]))), "length")
            for k, R in fits:
                C = c_and(S, R)
                tx = Text(self, s)
                p = tx.mantissa(N, k, C, "forward")
                T = X + k - 1
                tx.exponent(p, T, C, T, T, "forward")


# stand-ins for the writer that record what they are given: who calls it with what can be decided apart from its work
RECORDER = HEAD + """namespace jkj { namespace fp_to_chars_detail {
  static char* record(std::uint64_t n, std::int64_t x, char* buffer) {
    std::memcpy(buffer, &n, 8); std::memcpy(buffer + 8, &x, 8); return buffer + 16;
  }
  char* float_to_chars(unsigned_fp_t<float> v, char* buffer) { return record(v.significand, v.exponent, buffer); }
  char* double_to_chars(unsigned_fp_t<double> v, char* buffer) { return record(v.significand, v.exponent, buffer); }
} }
"""


class RecJob(EndJob):
    def size(self):
        return 17 + self.z

    def word(self, off):
        o = self.leaf_st.mem[self.b.obj]
        c = o.cells.get(off)
        return None if c is None or c[0] != 8 or c[1] is UNDEF else self.ctx.canon(c[1], 64)

    def check(self, st, end, N, X):
        ctx = self.ctx
        neg = ctx.c_eval(self.neg)
        for s in (0, 1):
            S = neg if s else c_not(neg)
            if S is False:
                continue
            self.ask("forward", S if end != s + 16 else False, "end")
            if end != s + 16:
                continue
            if s:
                b = self.byte(0)
                self.ask("forward", S if b is None else c_and(S, c_not(ctx.eq0(sub(b, 45)))), "minus sign")
            n, x = self.word(s), self.word(s + 8)
            self.ask("forward", S if n is None else c_and(S, c_not(ctx.eq0(sub(n, N)))), "significand")
            self.ask("forward", S if x is None else c_and(S, c_not(ctx.eq0(sub(x, X % (1 << 64))))), "exponent")
            if self.z:
                b = self.byte(end)
                self.ask("forward", S if b is None else c_and(S, c_not(ctx.eq0(b))), "terminator")


_cfg = {}


def run_end(t):
    name, fmt, z, spec, part = t
    total = {"viol": [], "unknown": [], "counts": {}, "paths": 0, "used": set()}
    for E, sl in ([(spec, None)] if part == "n" else [(x, (0, 0)) for x in range(*spec)]):
        eng = Engine(_cfg["mod"])
        eng.deadline = time.time() + _cfg["task_s"]
        job = _cfg["job"](eng, fmt, E, z, _cfg["want"], _cfg["timeout_ms"], sl)
        try:
            job.run("@" + name, _cfg["seed"])
        except Exception as ex:
            if not job.viol:
                raise
            job.unknown.append(("aborted", repr(ex)))
        total["viol"] += [(w, ms, note, E) for w, ms, note in job.viol]
        total["unknown"] += [(u, E) for u in job.unknown]
        for k, v in job.counts.items():
            total["counts"][k] = total["counts"].get(k, 0) + v
        total["paths"] += eng.paths
        total["used"] |= eng.used
    total["used"] = sorted(total["used"])
    total["sample"] = {"harness": name, "exponent_field": spec, "mantissas": "0" if part == "e" else "all but 0",
                       "paths": total["paths"], "queries": dict(total["counts"])}
    return total


def end_to_end(chk, combos, budget, kinds, timeout_ms=1500, limit=110, task_s=20, record=False):
    """combos: [(fmt, terminated, mode or None, cr)]; budget: {fmt: (exponent fields each, one mantissa-0 slice in by)}"""
    names, body = {}, ""
    for f, z, m, c in combos:
        n = "end_%s_%s_%s%s" % (f, m or "default", c or "default", "_z" if z else "")
        names[n] = (f, z, m, c)
        body += end_fn(f, n, z, m, c)
    pre = RECORDER if record else HEAD + CPP
    mod = chk.work.module(pre + body)
    pr = Printer(chk.work, pre, body, list(names), ("-O1",))
    _cfg.update(mod=mod, job=RecJob if record else EndJob, want=kinds, timeout_ms=60000 if chk.thorough else timeout_ms, task_s=900 if chk.thorough else task_s, seed=chk.seed)
    tasks, picked = [], {}
    for n, (f, z, m, c) in names.items():
        emax = (1 << FMT[f]["eb"]) - 1
        k, by = budget[f]
        if chk.thorough:
            Es, by = range(emax), 1
        else:
            Es = list(dict.fromkeys(([0, 1] if chk.rnd.random() < .3 else []) + plan.strata(chk.rnd, 0, emax, k)))
        picked[n] = len(Es)
        tasks += [(n, f, z, E, "n") for E in Es]
        first = chk.rnd.randint(1, by)
        tasks += [(n, f, z, (E, min(E + 64 * by, emax), by), "e") for E in range(first, emax, 64 * by)]
    chk.rnd.shuffle(tasks)
    if not chk.thorough:
        chk.deadline = chk.t0 + 170
    chk.bounds["forwarding" if record else "end to end"] = {"per slice": "one exponent field; all mantissas and both signs", "exponent fields": picked}
    if not chk.thorough:
        chk.deadline = min(chk.deadline, time.time() + limit)

    def on_result(r):
        chk.account(r)
        n, f, z = r["task"][:3]
        for what, (m, s), note, E in r.get("viol", ()):
            b = bits_of(f, E, m, s)
            got = pr.run(n, [b])
            chk.validated += 1
            inp = {"harness": n, "bits": hex(b)}
            if type(got) is str:
                bad, want = {"forward", "bounds"}, None
            else:
                X = got[1][2]
                if record:
                    want = b"-" * s + got[1][1].to_bytes(8, "little") + X.to_bytes(8, "little")
                    bad = {"forward"} if got[0] != want or z and got[2][:1] != [s + 16] else set()
                else:
                    want = b"-" * s + text_of(got[1][1], X - (1 << 64) if X >> 63 else X)
                    bad = public_wrong(f, z, want, got)
            bad &= kinds
            if bad:
                chk.report(",".join(sorted(bad)), inp, {"input": inp, "expected": repr(want), "got": repr(got), "query": what,
                                                        "note": repr(note)})
                return bool(chk.violations)
            chk.unconfirmed.append({"input": inp, "query": what, "note": repr(note), "got": repr(got)})
        return False
    res, missed = common.run_jobs(run_end, tasks, chk.deadline, on_result)
    if missed and not chk.violations:
        chk.undecided.append({"task": "%d slices" % missed, "why": "time limit of the run"})


def c10():
    chk = Check("C10")
    writer(chk, KINDS["C10"])
    return chk.finish()


def c11():
    chk = Check("C11")
    chk.assumptions = ASSUME
    special(chk, {"special", "end"}, None)
    if not chk.violations:
        combos = [(f, z, m, "dnc") for f in "df" for z, m in ((0, "ne"), (1, "tz"))]
        end_to_end(chk, combos, {"d": (6, 64), "f": (8, 32)}, {"sign"})
    return chk.finish()


def c12():
    chk = Check("C12")
    writer(chk, KINDS["C12"])
    if not chk.violations:
        special(chk, {"bounds", "end"}, None)
    if not chk.violations:
        combos = [(f, z, m, "even") for f in "df" for z, m in ((1, None), (0, "az"))]
        end_to_end(chk, combos, {"d": (6, 64), "f": (8, 32)}, {"bounds"})
    return chk.finish()


def defaults(chk):
    """omitted arguments mean nearest-to-even and tie-to-even; arguments may be lvalues"""
    srcs, budget = {}, {}
    M = "jkj::grisu_exact_rounding_modes::"
    C = "jkj::grisu_exact_correct_rounding::"
    for f in "df":
        m, c = chk.rnd.choice(list(MODES)), chk.rnd.choice(list(CRS))
        n = f + "_default"
        srcs[n] = (props_rel.harness(n, f, [
            (props_rel.call("ne", "even"), None), ("jkj::grisu_exact(x)", None),
            ("jkj::grisu_exact(x, %snearest_to_even{})" % M, None), ("jkj::grisu_exact<false>(x)", "r[2]")]), 4)
        budget[n] = (8, 64)
        n = f + "_lvalue"
        srcs[n] = (props_rel.harness(n, f, [
            (props_rel.call(m, c), None),
            ("[&] { auto const p = %s%s{}; auto q = %s%s{}; return jkj::grisu_exact(x, p, q); }()" % (M, MODES[m], C, CRS[c]),
             None)]), 2)
        budget[n] = (4, 64)
    keep = dict(chk.bounds)
    props_rel.decide(chk, srcs, budget, finish=False, limit=120)
    chk.bounds = {**keep, "default arguments": chk.bounds}


def c21():
    chk = Check("C21")
    chk.assumptions = ASSUME
    crs = list(CRS)
    combos = [(f, z, None, None) for f in "df" for z in (0, 1)]
    for f in "df":
        for m in MODES:
            for c in crs if chk.thorough else chk.rnd.sample(crs, 2):
                combos += [(f, z, m, c) for z in ((0, 1) if chk.thorough else (chk.rnd.randrange(2),))]
    end_to_end(chk, combos, {"d": (2, 256), "f": (2, 64)}, {"forward"}, record=True, limit=70, task_s=10)
    if not chk.violations:
        defaults(chk)
    if not chk.violations:
        few = [("d", 0, None, None), ("d", 1, "naz", "up"), ("f", 0, "az", "even"), ("f", 1, None, None)]
        end_to_end(chk, few, {"d": (4, 256), "f": (2, 64)}, {"forward"}, limit=40)
    chk.assumptions = ASSUME
    return chk.finish()


PROPS = {"C10": c10, "C11": c11, "C12": c12, "C21": c21}
