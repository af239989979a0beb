"""Which binary exponents (slices of the input space) a quick run encodes.  Everything here only decides where the
solver looks; the verdict on a slice is the solver's, over all mantissas of the slice."""
import math
import os

import common
import exact
import symex
from common import FTYPE, bits_of, numeric_fn
from numeric import FMT

PROBE = """
#include <csetjmp>
#include <vector>
#include <map>
static jmp_buf jb; static bool on = false; static int curE;
struct key { std::uintptr_t pc; long long a; bool operator<(const key& o) const { return pc < o.pc || (pc == o.pc && a < o.a); } };
static std::map<key, std::vector<std::pair<int, long long>>> seen;
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { longjmp(jb, 1); }
static void rec(std::uintptr_t pc, long long a, long long b) {
  if (!on || a <= -2300 || a >= 2300 || b <= -4600 || b >= 4600) return;
  auto& v = seen[{pc, a}];
  if (v.empty() || (v.back().first != curE && v.size() < 4000)) v.push_back({curE, b});
}
#define PC ((std::uintptr_t)__builtin_return_address(0))
extern "C" {
void __sanitizer_cov_trace_const_cmp1(std::uint8_t, std::uint8_t) {}
void __sanitizer_cov_trace_const_cmp2(std::uint16_t, std::uint16_t) {}
void __sanitizer_cov_trace_const_cmp4(std::uint32_t a, std::uint32_t b) { rec(PC, (std::int32_t)a, (std::int32_t)b); }
void __sanitizer_cov_trace_const_cmp8(std::uint64_t a, std::uint64_t b) { rec(PC, (std::int64_t)a, (std::int64_t)b); }
void __sanitizer_cov_trace_cmp1(std::uint8_t, std::uint8_t) {}
void __sanitizer_cov_trace_cmp2(std::uint16_t, std::uint16_t) {}
void __sanitizer_cov_trace_cmp4(std::uint32_t, std::uint32_t) {}
void __sanitizer_cov_trace_cmp8(std::uint64_t, std::uint64_t) {}
void __sanitizer_cov_trace_switch(std::uint64_t v, std::uint64_t* c) {
  for (std::uint64_t i = 0; i < c[0]; ++i)
    rec(PC, c[1] == 32 ? (std::int32_t)c[2 + i] : (long long)c[2 + i], c[1] == 32 ? (std::int32_t)v : (long long)v); }
void __sanitizer_cov_trace_pc_guard(std::uint32_t*) {}
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t*, std::uint32_t*) {}
}
static std::uint64_t rnd() { static std::uint64_t s = SEED; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
int main() {
  for (int E = 0; E < EMAX; ++E) {
    curE = E;
    for (int k = 0; k < RUNS; ++k) {
      std::uint64_t m = k == 0 ? 1 : k == 1 ? MMAX : (rnd() & MMAX); if (!m) m = 1;
      if (k >= 2 && k % 2 == 0) m &= ~((1ull << (rnd() % PBITS)) - 1);
      if (k >= 2 && k % 4 == 3) {   // a short decimal
        std::uint64_t q = 1; for (unsigned j = rnd() % 7; j; --j) q *= 10; m = m / q * q; }
      BITS b = (BITS)m | (BITS)E << PBITS;
      std::uint64_t r[3] = {0, 0, 0};
      on = true;
      if (setjmp(jb) == 0) { FN(b, r); on = false; }
      else { on = false; std::printf("A %d %llu\\n", E, (unsigned long long)b); continue; }
      if (k < JUDGE) { std::int32_t x; std::memcpy(&x, r + 1, 4); std::uint32_t s; std::memcpy(&s, r + 2, 4);
        std::printf("R %d %llu %llu %d %u\\n", E, (unsigned long long)b, (unsigned long long)r[0], (int)x, (unsigned)s); }
    }
  }
  for (auto& kv : seen) {
    std::printf("C %llx %lld", (unsigned long long)kv.first.pc, kv.first.a);
    for (auto& e : kv.second) std::printf(" %d:%lld", e.first, e.second);
    std::printf("\\n");
  }
}
"""


def probe(work, fmt, mode, cr, seed):
    """(exponents at which a comparison of the code with a constant changes its outcome, exponents with a bad sample)"""
    F = FMT[fmt]
    emax = (1 << F["eb"]) - 1
    work.n += 1
    base = "probe%d" % work.n
    head = "#define SEED %d\n#define EMAX %d\n#define RUNS 16\n#define MMAX ((1ull << %d) - 1)\n" \
           "#define BITS %s\n#define PBITS %d\n#define JUDGE 3\n" \
           'extern "C" void FN(BITS, std::uint64_t*);\n' % (
               88172645463325252 + seed * 2654435761, emax, F["p"], FTYPE[fmt][1], F["p"])
    a = work.write(base + "a.cpp", common.PRELUDE + common.GRISU_H + numeric_fn(fmt, mode, cr, "", "FN"))
    b = work.write(base + "b.cpp", common.PRELUDE + "#include <cstdio>\n" + head + PROBE)
    path = os.path.join(work.dir, base)
    cc = ["clang++", "-std=c++17", "-w", "-I" + common.REPO]
    for src, fl in ((a, ["-O0", "-fsanitize-coverage=trace-pc-guard,trace-cmp"]), (b, ["-O1"])):
        r = work.sh(cc + fl + ["-c", src, "-o", src[:-4] + ".o"])
        if r.returncode:
            raise common.BuildError("probe: " + r.stderr.decode()[:600])
    r = work.sh(["clang++", a[:-4] + ".o", b[:-4] + ".o", "-o", path])
    if r.returncode:
        raise common.BuildError("probe: " + r.stderr.decode()[:600])
    try:
        r = work.sh([path], timeout=60)
    except Exception:
        return [], []
    bad = set()
    out = set()
    sites = {}
    for line in r.stdout.decode().split("\n"):
        w = line.split()
        if not w:
            continue
        if w[0] == "C":
            sites[w[1], int(w[2])] = [tuple(map(int, x.split(":"))) for x in w[3:]]
        elif w[0] == "A":
            bad.add(int(w[1]))
        elif w[0] == "R":
            if exact.judge(fmt, mode, cr, int(w[2]), int(w[3]), int(w[4]), int(w[5])):
                bad.add(int(w[1]))
    for (pc, a), obs in sites.items():
        obs = [o for o in obs if o[0] > 0]
        if len(obs) < 3:
            continue
        ts = []
        for sg in (1, -1):
            # b = sg*E + c: the outcome changes at E = sg*(a - c)
            if len(set(b - sg * E for E, b in obs)) == 1:
                t = sg * (a - obs[0][1]) + obs[0][0]
                ts = [t - 1, t, t + 1]
        if not ts:
            # b follows floor(E*log10(2)) or so: it meets a in a short run of exponents
            for sg in (1, -1):
                c = [b - sg * E * LOG2 for E, b in obs]
                if max(c) - min(c) < 1.6 and obs[-1][0] - obs[0][0] > 4:
                    t = int(round(sg * (a - sum(c) / len(c)) / LOG2))
                    ts = range(t - 3, t + 4)
        out.update(E for E in ts if 0 <= E < emax)
    return sorted(out), sorted(bad)


LOG2 = math.log10(2)


def odd_table_exponents(mod, fmt, fn, limit=24):
    """exponents that use an entry of a table of powers of ten which is not the correctly rounded power"""
    F = FMT[fmt]
    emax = (1 << F["eb"]) - 1
    logs = []
    for E in (emax // 3, emax // 2, 2 * emax // 3):
        eng = symex.Engine(mod)
        eng.start()
        eng.on_leaf = lambda st: None
        eng.on_event = lambda st, ev: None
        eng.load_log = []
        st = eng.new_state()
        out = eng.alloc(st, 24, "out")
        eng.enter(st, fn, [bits_of(fmt, E, 12345, 0), out])
        try:
            eng.run(st)
        except Exception:
            continue
        logs.append((E, eng.load_log))
    res = set()
    for name, (ty, init, const) in mod.globals.items():
        vals = table_values(ty, init)
        if vals is None or len(vals) < 40:
            continue
        w, size, vals = vals_width(vals)
        k0 = first_power(vals, w)
        if k0 is None:
            continue
        near = [v - norm10(k0 + i, w) for i, v in enumerate(vals)]
        neg, pos = near[:max(0, -k0)], near[max(0, -k0):]
        most = [1 if sum(d == 1 for d in x) > sum(d == 0 for d in x) else 0 for x in (neg, pos)]
        odd = []
        for i, d in enumerate(near):
            k = k0 + i
            exact_power = k >= 0 and (5 ** k).bit_length() <= w
            if d != (0 if exact_power else most[k >= 0]):
                odd.append(i)
        refs = [(E, off // size) for E, log in logs for nm, off in log if nm == name and type(off) is int]
        if not refs:
            continue
        for i in odd[:limit]:
            for E, j in refs:
                c = E + (j - i) * math.log2(10)
                for d in range(-4, 5):
                    x = int(round(c)) + d
                    if 1 <= x < emax:
                        res.add(x)
    return sorted(res)


def table_values(ty, init):
    while init is not None and init[0] == "agg" and ty.k == "struct" and len(init[2]) == 1:
        ty, init = init[2][0]
    if init is None or init[0] != "agg" or ty.k != "arr":
        return None
    out = []
    for t, x in init[2]:
        if x[0] == "c" and t.k == "int" and t.size == 8:
            out.append((x[1] % (1 << 64),))
        elif x[0] == "c" and t.k == "int" and t.size == 16:
            v = x[1] % (1 << 128)
            out.append((v >> 64, v % (1 << 64)))
        elif x[0] == "agg":
            f = []
            for t2, y in x[2]:
                if y[0] == "c" and t2.k == "int" and t2.size in (8, 16):
                    v = y[1] % (1 << (8 * t2.size))
                    f += [v] if t2.size == 8 else [v >> 64, v % (1 << 64)]
                elif y[0] == "agg":
                    return None
            if len(f) not in (1, 2):
                return None
            out.append(tuple(f))
        else:
            return None
    return out


def vals_width(vals):
    if len(vals[0]) == 1:
        return 64, 8, [v[0] for v in vals]
    return 128, 16, [v[0] << 64 | v[1] for v in vals]


def norm10(k, w):
    """floor of 10^k scaled to w bits"""
    if k >= 0:
        x = 10 ** k
        s = x.bit_length() - w
        return x >> s if s >= 0 else x << -s
    d = 10 ** -k
    s = d.bit_length() + w + 2
    x = (1 << s) // d
    return x >> (x.bit_length() - w)


def first_power(vals, w):
    """k0 with most vals[i] close to 10^(k0+i) scaled"""
    best = None
    probes = [len(vals) // 5 * j for j in range(5)]
    for k0 in range(-420, 420):
        n = sum(abs(vals[i] - norm10(k0 + i, w)) <= (1 << (w - 20)) for i in probes)
        if n >= 3 and (best is None or n > best[0]):
            best = n, k0
    return best[1] if best else None


# exponent fields around which floats are integers or have few decimal places: exact products, ties, exact endpoints
CORE = {"d": range(1068, 1092), "f": range(145, 166)}


def core(rnd, fmt, share):
    """a share of the core exponents"""
    return sorted(rnd.sample(CORE[fmt], int(round(share * len(CORE[fmt])))))


def strata(rnd, lo, hi, n):
    """n exponents, one per equal part of [lo, hi)"""
    out = []
    for j in range(n):
        a = lo + (hi - lo) * j // n
        b = lo + (hi - lo) * (j + 1) // n
        if b > a:
            out.append(rnd.randrange(a, b))
    return out
