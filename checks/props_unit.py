"""Properties of the building blocks: bit inspectors, logarithms, tables, wide products, divisibility, case handlers."""
import functools
import math

import common
import props_rel
import unit
from common import FTYPE, Check
from numeric import FMT
from terms import add, c_and, c_not, c_or, scale, sub
from unit import Args, Calls, Unit, bounds_of

D = "jkj::grisu_exact_detail::"
HEAD = common.GRISU_H
ASSUME = [
    "IR of clang 18 for x86-64 at -O0 semantics with locals promoted to registers (opt mem2reg) is the code under test",
    "concrete runs of the encoding are compared with g++-compiled code on every run",
]


def timeout(chk):
    return 120000 if chk.thorough else 20000


def fn(name, body):
    return 'extern "C" void %s(std::uint64_t const* a, std::uint64_t* r) { %s }\n' % (name, body)


# ------------------------------------------------------------------------------ C15
INSPECT = ("is_finite", "is_nonzero", "is_subnormal", "is_negative", "is_positive", "is_positive_infinity",
           "is_negative_infinity", "is_infinity", "is_nan", "is_quiet_nan", "is_signaling_nan")


def inspect_fn(fmt):
    F, B = FTYPE[fmt]
    s = "%s f = (%s)a[0]; %s x; std::memcpy(&x, &f, sizeof(x)); auto br = jkj::get_bit_representation(x); " % (B, B, F)
    for j, n in enumerate(INSPECT):
        s += "r[%d] = br.%s() ? 1 : 0; " % (j, n)
    j = len(INSPECT)
    s += "r[%d] = br.extract_significand_bits(); r[%d] = br.extract_exponent_bits(); " % (j, j + 1)
    s += "auto p = br.get_nan_payload(); r[%d] = p.to_ullong(); r[%d] = p.size(); " % (j + 2, j + 3)
    s += "%s y = br.as_ieee754(); %s g = 0; std::memcpy(&g, &y, sizeof(y)); r[%d] = g; r[%d] = br.f; " % (F, B, j + 4, j + 5)
    return fn("inspect_" + fmt, s)


NI = len(INSPECT) + 6


def inspect_spec(fmt, s, E, m, land, lnot, eq0, ge0, mod):
    """values of all inspectors; works on terms and on numbers"""
    p, eb = FMT[fmt]["p"], FMT[fmt]["eb"]
    fin = lnot(eq0(sub(E, (1 << eb) - 1)))
    neg = eq0(sub(s, 1))
    m0 = eq0(m)
    nan = land(lnot(fin), lnot(m0))
    q = ge0(sub(m, 1 << (p - 1)))
    inf = land(lnot(fin), m0)
    bits = add(add(m, scale(E, 1 << p)), scale(s, 1 << (p + eb)))
    return [fin, lnot(land(eq0(E), m0)), eq0(E), neg, lnot(neg), land(inf, lnot(neg)), land(inf, neg), inf, nan,
            land(nan, q), land(nan, lnot(q))], [m, E, mod(m, 1 << (p - 1)), p - 1, bits, bits]


def inspect_truth(fmt, bits):
    p, eb = FMT[fmt]["p"], FMT[fmt]["eb"]
    s, E, m = bits >> (p + eb), bits >> p & ((1 << eb) - 1), bits & ((1 << p) - 1)
    c, v = inspect_spec(fmt, s, E, m, lambda a, b: a and b, lambda a: not a, lambda x: x == 0, lambda x: x >= 0,
                        lambda x, n: x % n)
    return [int(x) for x in c] + v


def c15():
    chk = Check("C15")
    chk.assumptions = ASSUME
    body = inspect_fn("d") + inspect_fn("f")
    mod = chk.work.module(HEAD + body)
    calls = Calls(chk.work, HEAD, body, ["inspect_d", "inspect_f"], NI)
    names = list(INSPECT) + ["significand bits", "exponent bits", "payload", "payload length", "as_ieee754", "f"]

    def task(fmt):
        u = Unit(mod, "@inspect_" + fmt, timeout(chk))
        p, eb = FMT[fmt]["p"], FMT[fmt]["eb"]
        s, E, m = u.var("s", 0, 1), u.var("E", 0, (1 << eb) - 1), u.var("m", 0, (1 << p) - 1)
        ctx = u.ctx
        A = Args(u, [add(add(m, scale(E, 1 << p)), scale(s, 1 << (p + eb)))], NI)
        conds, vals = inspect_spec(fmt, s, E, m, c_and, c_not, ctx.eq0, ctx.ge0, ctx.mod)

        def leaf(st):
            for j in range(NI):
                x = u.cell(st, "r", 8 * j, 8)
                if j < len(conds):
                    c = conds[j]
                    u.ask(names[j], c_or(c_and(c, c_not(ctx.eq0(sub(x, 1)))), c_and(c_not(c), c_not(ctx.eq0(x)))))
                else:
                    u.ask(names[j], c_not(ctx.eq0(sub(x, vals[j - len(conds)]))))
        u.run(A.args(), leaf)
        return u.result("inspect_" + fmt, bounds_of(u))

    def confirm(name, v, what, note):
        fmt = name[-1]
        p, eb = FMT[fmt]["p"], FMT[fmt]["eb"]
        b = v["m"] | v["E"] << p | v["s"] << (p + eb)
        got, want = calls.run(name, [b]), inspect_truth(fmt, b)
        bad = [n for n, x, y in zip(names, got, want) if x != y] if type(got) is list else got
        return bool(bad), {"format": fmt, "bits": hex(b)}, {"wrong": bad, "got": got, "expected": want}
    rnd = chk.rnd
    unit.validate(chk, mod, calls, [("inspect_" + f, [rnd.choice((rnd.getrandbits(w), ((1 << eb) - 1) << p | rnd.getrandbits(p),
                                                                  rnd.getrandbits(p)))])
                                    for f, w, p, eb in (("d", 64, 52, 11), ("f", 32, 23, 8)) for _ in range(6)], NI)
    chk.bounds = {"inputs": "all 2^64 (2^32) bit patterns, no bound"}
    unit.execute(chk, task, ["d", "f"], confirm)
    return chk.finish()


# ------------------------------------------------------------------------------ C16
@functools.lru_cache(None)
def neighbours(base, power, n):
    """fractions lo < log_base(power) < hi with no fraction of denominator <= n strictly between"""
    def less(a, b):          # a/b < log_base(power)
        return base ** a < power ** b
    lo, hi = (0, 1), (1, 0)
    while True:
        # as many steps as possible in one direction
        for side in (0, 1):
            k = 0
            while True:
                x = (lo[0] + hi[0], lo[1] + hi[1])
                if x[1] > n:
                    return lo, hi
                if less(*x) != (side == 0):
                    break
                if side == 0:
                    lo = x
                else:
                    hi = x
                k += 1
    return lo, hi


def real_floor(base, power, e):
    """floor(e * log_base(power)), exactly"""
    k = int(math.floor(e * math.log(power) / math.log(base)))
    for c in (k - 1, k, k + 1):
        # base^c <= power^e < base^(c+1)
        def le(a, b):        # base^a <= power^b
            return (base ** a if a > 0 else 1) * (power ** -b if b < 0 else 1) <= \
                   (power ** b if b > 0 else 1) * (base ** -a if a < 0 else 1)
        if le(c, e) and not le(c + 1, e):
            return c
    raise ValueError


LOGS = {"floor_log10_pow2": (10, 2, 1650), "floor_log2_pow10": (2, 10, 642), "floor_log5_pow2": (5, 2, 65536)}


def c16():
    chk = Check("C16")
    chk.assumptions = ASSUME + ["the documented ranges: " + ", ".join("%s: |e| <= %d" % (k, v[2]) for k, v in LOGS.items())]
    body = "".join(fn(n, "r[0] = (std::uint64_t)(std::int64_t)%s%s((int)(std::int64_t)a[0]);" % (D, n)) for n in LOGS)
    mod = chk.work.module(HEAD + body)
    calls = Calls(chk.work, HEAD, body, list(LOGS), 1)

    def task(t):
        n, lo, hi = t
        base, power, rng = LOGS[n]
        u = Unit(mod, "@" + n, timeout(chk))
        ctx = u.ctx
        e = u.var("e", lo, hi)
        A = Args(u, [e], 1)
        L, H = neighbours(base, power, rng)

        def leaf(st):
            k = u.cell(st, "r", 0, 8, True)
            le = lambda x, fr, d: ctx.ge0(sub(scale(e, fr[0]), scale(add(x, d), fr[1])))     # (x+d) <= e * fr
            if lo > 0:
                bad = c_or(c_not(le(k, L, 0)), c_not(ctx.ge0(sub(scale(add(k, 1), H[1]), scale(e, H[0])))))
            elif hi < 0:
                bad = c_or(c_not(le(k, H, 0)), c_not(ctx.ge0(sub(scale(add(k, 1), L[1]), scale(e, L[0])))))
            else:
                bad = c_not(ctx.eq0(k))
            u.ask("floor", bad, None)
        u.run(A.args(), leaf)
        return u.result(n, bounds_of(u))

    def confirm(name, v, what, note):
        base, power, _ = LOGS[name]
        got, want = calls.run(name, [v["e"]]), real_floor(base, power, v["e"])
        if type(got) is list:
            got = got[0] - (1 << 64) if got[0] >> 63 else got[0]
        return got != want, {"function": name, "e": v["e"]}, {"got": got, "expected": want}
    tasks = []
    for n, (b, p, rng) in LOGS.items():
        parts = 4 if rng < 5000 else 16
        for j in range(parts):
            a, z = 1 + rng * j // parts, rng * (j + 1) // parts
            tasks += [(n, a, z), (n, -z, -a)]
        tasks.append((n, 0, 0))
    unit.validate(chk, mod, calls, [(n, [chk.rnd.randint(-r, r)]) for n, (b, p, r) in LOGS.items() for _ in range(5)], 1)
    chk.bounds = {"e": {n: "all of [-%d, %d], the documented range" % (r, r) for n, (b, p, r) in LOGS.items()}}
    unit.execute(chk, task, tasks, confirm)
    return chk.finish()


# ------------------------------------------------------------------------------ C17
def power_entry(k, w):
    """the w-bit scaled power of ten the tables hold: floor for k >= 0 (exact where it fits), ceiling for k < 0"""
    if k >= 0:
        x = 10 ** k
        s = x.bit_length() - w
        return x >> s if s >= 0 else x << -s
    d = 10 ** -k
    s = d.bit_length() + w - 1
    return -((-1 << s) // d)


CONST = fn("range_d", "r[0] = (std::uint64_t)(std::int64_t)%scommon_info<double>::min_k; "
                      "r[1] = (std::uint64_t)(std::int64_t)%scommon_info<double>::max_k;" % (D, D)) + \
    fn("range_f", "r[0] = (std::uint64_t)(std::int64_t)%scommon_info<float>::min_k; "
                  "r[1] = (std::uint64_t)(std::int64_t)%scommon_info<float>::max_k;" % (D, D))


def c17():
    chk = Check("C17")
    chk.assumptions = ASSUME
    body = CONST + fn("entry_d", "auto c = %sget_cache<double>((int)(std::int64_t)a[0]); r[0] = c.high(); r[1] = c.low();" % D) + \
        fn("entry_f", "r[0] = %sget_cache<float>((int)(std::int64_t)a[0]); r[1] = 0;" % D)
    mod = chk.work.module(HEAD + body)
    calls = Calls(chk.work, HEAD, body, ["entry_d", "entry_f", "range_d", "range_f"], 2)
    rng = {}
    for f in "df":
        rng[f] = tuple(x - (1 << 64) if x >> 63 else x for x in unit.concrete(mod, "@range_" + f, [0], 2))
    # exponents that conversions need: from the exact definition of the multiplier's range
    for f in "df":
        need = needed(f)
        if need[0] < rng[f][0] or need[1] > rng[f][1]:
            chk.undecided.append({"task": "range " + f, "why": "table covers %r, conversions need %r" % (rng[f], need)})

    def task(t):
        f, a, z = t
        u = Unit(mod, "@entry_" + f, timeout(chk))
        k = u.var("k", a, z)
        A = Args(u, [k], 2)
        w = 128 if f == "d" else 64
        full = [power_entry(x, w) for x in range(a, z + 1)]
        hi = table(u, k, [x >> 64 if f == "d" else x for x in full], a)
        lo = table(u, k, [x % (1 << 64) if f == "d" else 0 for x in full], a)

        def leaf(st):
            u.ask("entry", c_not(u.ctx.eq0(sub(u.cell(st, "r", 0, 8), hi))))
            u.ask("entry", c_not(u.ctx.eq0(sub(u.cell(st, "r", 8, 8), lo))))
        u.run(A.args(), leaf)
        return u.result("entry_" + f, bounds_of(u))

    def confirm(name, v, what, note):
        got = calls.run(name, [v["k"]])
        x = power_entry(v["k"], 128 if name[-1] == "d" else 64)
        want = [x >> 64, x % (1 << 64)] if name[-1] == "d" else [x, 0]
        return got != want, {"table": FTYPE[name[-1]][0], "power": v["k"]}, {"got": got, "expected": want}
    tasks = []
    for f in "df":
        a, z = rng[f]
        n = 16 if f == "d" else 4
        tasks += [(f, a + (z + 1 - a) * j // n, a + (z + 1 - a) * (j + 1) // n - 1) for j in range(n)]
    unit.validate(chk, mod, calls, [("entry_" + f, [chk.rnd.randint(*rng[f])]) for f in "df" for _ in range(4)], 2)
    chk.bounds = {"power": {FTYPE[f][0]: "all of [%d, %d]" % rng[f] for f in "df"}}
    unit.execute(chk, task, tasks, confirm)
    return chk.finish()


def needed(fmt):
    """powers of ten that the conversion uses: floor((alpha - e - 1) * log10 2) + 1 for the exponents e of the format"""
    F = FMT[fmt]
    q = 64 if fmt == "d" else 32
    lo = 1 - F["bias"] + F["p"] - q + 1
    es = (lo, lo + (1 << F["eb"]) - 3)
    ks = [-real_floor(10, 2, e + 1 + 5) for e in es]
    return min(ks), max(ks)


def table(u, k, vals, base):
    if all(v == vals[0] for v in vals):
        return vals[0]
    from terms import Lin
    from symex import TAB
    x = sub(k, 0)
    at = u.ctx._atom(TAB, min(vals), max(vals), (x, tuple(vals), base), ("t", x, tuple(vals), base))
    return Lin(0, ((at.id, 1),))


# ------------------------------------------------------------------------------ C18
UNDEF_GENERIC = "#undef __SIZEOF_INT128__\n#undef __x86_64__\n"
MUL = {
    "umul64": (["x32", "y32"], "r[0] = NS::umul64((std::uint32_t)a[0], (std::uint32_t)a[1]); r[1] = 0;"),
    "umul128": (["x64", "y64"], "auto p = NS::umul128(a[0], a[1]); r[0] = p.high(); r[1] = p.low();"),
    "umul128_upper64": (["x64", "y64"], "r[0] = NS::umul128_upper64(a[0], a[1]); r[1] = 0;"),
    "umul192_upper64": (["x64", "y64", "z64"],
                        "r[0] = NS::umul192_upper64(a[0], NS::uint128{a[1], a[2]}); r[1] = 0;"),
    "umul96_upper32": (["x32", "y64"], "r[0] = NS::umul96_upper32((std::uint32_t)a[0], a[1]); r[1] = 0;"),
}


def mul_truth(n, a):
    if n == "umul64":
        return [(a[0] * a[1]), 0]
    if n == "umul128":
        return [a[0] * a[1] >> 64, a[0] * a[1] % (1 << 64)]
    if n == "umul128_upper64":
        return [a[0] * a[1] >> 64, 0]
    if n == "umul192_upper64":
        return [a[0] * (a[1] << 64 | a[2]) >> 128, 0]
    return [a[0] * a[1] >> 64, 0]


VARIANTS = ("x64", "generic", "msvc", "i386")


def variant_pre(v):
    if v == "generic":
        return UNDEF_GENERIC + HEAD
    return HEAD


def c18():
    chk = Check("C18")
    chk.assumptions = ASSUME + ["MSVC intrinsics stand-ins (engine/inc/msvc) have the documented meaning"]
    names = {n: n for n in MUL}
    body = "".join(fn("h_" + n, c.replace("NS::", D)) for n, (a, c) in MUL.items())
    mods, calls = {}, {}
    for v in VARIANTS:
        pre = variant_pre(v)
        mods[v] = chk.work.module(pre + body, "x64" if v == "generic" else v)
        if v == "msvc":
            inc = '#include "fake_intrin.h"\n' + common.MSVC
            calls[v] = Calls(chk.work, inc + HEAD, body, ["h_" + n for n in MUL], 2,
                             ("-O1", "-Wno-builtin-macro-redefined", "-I" + common.os.path.join(common.ROOT, "engine", "inc", "msvc")),
                             "clang++")
        else:
            calls[v] = Calls(chk.work, pre, body, ["h_" + n for n in MUL], 2, ("-O1", "-m32") if v == "i386" else ("-O1",))

    def task(t):
        v, n = t
        u = Unit(mods[v], "@h_" + n, timeout(chk))
        ctx = u.ctx
        vals, parts = [], []
        for x in MUL[n][0]:
            if x.endswith("32"):
                p = [u.var(x[0], 0, (1 << 32) - 1)]
            else:
                p = [u.var(x[0] + "_low", 0, (1 << 32) - 1), u.var(x[0] + "_high", 0, (1 << 32) - 1)]
            parts.append(p)
            vals.append(p[0] if len(p) == 1 else add(p[0], scale(p[1], 1 << 32)))
        A = Args(u, vals, 2)
        pr = ctx.prod(vals[0], vals[1]) if n != "umul192_upper64" else \
            add(scale(ctx.prod(vals[0], vals[1]), 1 << 64), ctx.prod(vals[0], vals[2]))
        w = {"umul64": 0, "umul128": 64, "umul128_upper64": 64, "umul192_upper64": 128, "umul96_upper32": 64}[n]
        hi = ctx.div(pr, 1 << w) if w else pr
        lo = sub(pr, scale(hi, 1 << 64)) if n == "umul128" else 0

        def leaf(st):
            u.ask("high", c_not(ctx.eq0(sub(u.cell(st, "r", 0, 8), hi))))
            u.ask("low", c_not(ctx.eq0(sub(u.cell(st, "r", 8, 8), lo))))
        rnd = chk.rnd
        M = (1 << 32) - 1
        sp = lambda: rnd.choice((0, 1, 2, M, M - 1, 1 << 31, (1 << 31) - 1, (1 << 31) + 1, rnd.getrandbits(32), 1 << 16))
        u.pool([{k: sp() for k in u.v} for _ in range(200)])
        u.run(A.args(), leaf)
        return u.result(v + ":h_" + n, bounds_of(u))

    def confirm(name, m, what, note):
        v, h = name.split(":")
        n = h[2:]
        a = []
        for x in MUL[n][0]:
            a.append(m[x[0]] if x.endswith("32") else m[x[0] + "_low"] | m[x[0] + "_high"] << 32)
        got, want = calls[v].run(h, a), mul_truth(n, a)
        return got != want, {"branch": v, "function": n, "operands": [hex(x) for x in a]}, {"got": got, "expected": want}
    for v in VARIANTS:
        unit.validate(chk, mods[v], calls[v], [("h_" + n, [chk.rnd.getrandbits(int(x[1:])) for x in MUL[n][0]])
                                               for n in MUL for _ in range(2)], 2)
    chk.bounds = {"operands": "all values", "branches": list(VARIANTS)}
    unit.execute(chk, task, [(v, n) for v in VARIANTS for n in MUL], confirm)
    return chk.finish()


# ------------------------------------------------------------------------------ C19
def c19():
    chk = Check("C19")
    chk.assumptions = ASSUME + ["MSVC intrinsics stand-ins (engine/inc/msvc) have the documented meaning",
                                "precondition of the test by powers of two: operand not 0, exponent at least 1"]
    body = ""
    for w in (32, 64):
        body += fn("p2_%d" % w, "r[0] = %sdivisible_by_power_of_2<std::uint%d_t>((std::uint%d_t)a[0], (int)a[1]) ? 1 : 0;" % (D, w, w))
        body += fn("p5_%d" % w, "r[0] = %sdivisible_by_power_of_5<std::uint%d_t>((std::uint%d_t)a[0], (unsigned)a[1]) ? 1 : 0;" % (D, w, w))
    names = ["p2_32", "p2_64", "p5_32", "p5_64"]
    mods, calls = {}, {}
    for v in VARIANTS:
        pre = variant_pre(v)
        mods[v] = chk.work.module(pre + body, "x64" if v == "generic" else v)
        if v == "msvc":
            calls[v] = Calls(chk.work, '#include "fake_intrin.h"\n' + common.MSVC + HEAD, body, names, 1,
                             ("-O1", "-Wno-builtin-macro-redefined", "-I" + common.os.path.join(common.ROOT, "engine", "inc", "msvc")),
                             "clang++")
        else:
            calls[v] = Calls(chk.work, pre, body, names, 1, ("-O1", "-m32") if v == "i386" else ("-O1",))

    def task(t):
        v, n, e = t
        w = int(n[3:])
        u = Unit(mods[v], "@" + n, timeout(chk))
        ctx = u.ctx
        x = u.var("x", 1, (1 << w) - 1)
        ex = u.var("e", *e)
        b = int(n[1])
        A = Args(u, [x, ex], 1)
        M = 1 << w
        if e[0] == e[1] and b ** e[0] < M:
            d = b ** e[0]
            mult = ctx.eq0(ctx.mod(x, d))
            q = (M - 1) // d
            envs = [{"x": d * j % M or d} for j in (1, 2, 3, q - 1, q, chk.rnd.randint(1, q))]
            envs += [{"x": d * j % M or 1} for j in (q + 1, q + 2)]        # what a too large quotient bound accepts
            envs += [{"x": max(1, min(M - 1, d * q + j))} for j in (-1, 1)] + [{"x": 1}]
            u.pool(envs)
        else:
            mult = False       # beyond the width
            u.pool([{"x": 1 << (w - 1), "e": e[0]}, {"x": M - 1, "e": e[1]}])

        def leaf(st):
            r = u.cell(st, "r", 0, 8)
            u.ask("accepts a non-multiple", c_and(c_not(mult), c_not(ctx.eq0(r))), e)
            u.ask("rejects a multiple", c_and(mult, c_not(ctx.eq0(sub(r, 1)))), e)
        u.run(A.args(), leaf)
        return u.result(v + ":" + n, bounds_of(u))

    def confirm(name, m, what, note):
        v, n = name.split(":")
        got = calls[v].run(n, [m["x"], m["e"]])
        want = [int(m["x"] % int(n[1]) ** m["e"] == 0)]
        return got != want, {"branch": v, "function": n, "x": hex(m["x"]), "exponent": m["e"]}, {"got": got, "expected": want}
    tasks = []
    for v in VARIANTS:
        for w in (32, 64):
            tasks += [(v, "p2_%d" % w, (e, e)) for e in range(1, w)]
            tasks.append((v, "p2_%d" % w, (w, 1200)))
            if v == "x64":      # no branch on the platform in it
                tasks += [(v, "p5_%d" % w, (e, e)) for e in range(0, 11 if w == 32 else 24)]
        unit.validate(chk, mods[v], calls[v], [
            ("p%d_%d" % (b, w), [b ** e * chk.rnd.randint(1, 9), chk.rnd.randint(max(1, e - 1), e + 1)])
            for b, w in ((2, 32), (2, 64), (5, 32), (5, 64)) for e in (3, 8)], 1)
    chk.bounds = {"operand": "all non-zero values of 32 and 64 bits",
                  "exponent": "2: all of [1, 1200]; 5: [0, 10] for 32 bits, [0, 23] for 64 bits (what conversions ask for)"}
    unit.execute(chk, task, tasks, confirm)
    return chk.finish()


PROPS = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}
