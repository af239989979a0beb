"""SMT back end (z3, integer arithmetic) for the terms of terms.py."""
import os
import time
from fractions import Fraction
from math import gcd

import z3

from terms import VAR, DIV, BOOL, TAB, PROD, CTTZ, EXT, BAND, Lin, is_pow2, add, scale, sub

STATS = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0, "lemmas": 0, "lemma_fail": 0,
         "lemma_time": 0.0, "max_query": 0.0}


def convergents(p, q):
    """convergents h/k of p/q with the partial quotients: [(h, k, a)]"""
    out = []
    h0, k0, h1, k1 = 0, 1, 1, 0
    while q:
        a = p // q
        p, q = q, p - a * q
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        out.append((h1, k1, a))
    return out


OFFSETS = ((0, 1), (1, 2), (-1, 2), (1, 1), (-1, 1), (-1, 4), (1, 4), (3, 4), (-3, 4))


def first_convergent_above(P, Q, bound):
    """(previous convergent, first convergent with denominator > bound) of P/Q; the second is P/Q itself when its
    denominator is not above the bound"""
    h0, k0, h1, k1 = 0, 1, 1, 0
    p, q = P, Q
    while q:
        a = p // q
        p, q = q, p - a * q
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
        if k1 > bound:
            break
    return (h0, k0), (h1, k1)


def prove_floor_equal(A1, B1, D1, A2, B2, D2, ulo, uhi, p, q, timeout=20000):
    """Solver: for every integer u in [ulo, uhi] with u = p mod q, floor((u*A1 + B1)/D1) == floor((u*A2 + B2)/D2).
    Returns True (unsat), False (a counterexample exists) or None."""
    if A1 * D2 == A2 * D1 and B1 * D2 == B2 * D1:
        return True
    STATS["lemmas"] += 1
    t0 = time.time()
    # unimodular change of variables (u, z) -> (a, b) along two consecutive convergents of the slope
    (h1, k1), (h2, k2) = first_convergent_above(A2, D2, uhi)
    a, b = z3.Ints("a b")
    u = k1 * a + k2 * b
    z = h1 * a + h2 * b
    f1 = A1 * u + B1 - D1 * z         # >= 0: z <= first
    f2 = A2 * u + B2 - D2 * z
    ok = True
    for side in ((f1 >= 0, f2 <= -1), (f2 >= 0, f1 <= -1)):
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", timeout)
        s.add(u >= ulo, u <= uhi, *side)
        if q > 1:
            w = z3.Int("w")
            s.add(u == q * w + p)
        r = s.check()
        if r != z3.unsat:
            ok = False if r == z3.sat else None
            break
    STATS["lemma_time"] += time.time() - t0
    if ok is not True:
        STATS["lemma_fail"] += 1
    return ok


class Solver:
    def __init__(self, ctx, hint=None):
        """hint: (e, n0, mlo, mhi, mid): the input's value is (n0 + m) * 2^e, with m the atom `mid`"""
        self.ctx = ctx
        self.s = z3.SolverFor("QF_LIA") if os.environ.get("SOLVER_FOR") else z3.Solver()
        self.level = [set()]
        self.hint = hint
        self.declared = set()
        self.flat_on = []            # declared floors of known shape
        self.zc = {}
        self.exact = {}
        self.same = {}
        ctx.flatten = self.flatten
        ctx.mid = lambda: self.hint[4]
        ctx.divis = self.divis
        self.divided = {}

    # ------------------------------------------------------------ translation
    def zvar(self, A):
        if A.z is None:
            A.z = z3.Int("a%d" % A.id)
        return A.z

    def zlin(self, L):
        if type(L) is int:
            return z3.IntVal(L)
        at = self.ctx.atoms
        xs = [self.zvar(at[a]) if k == 1 else z3.IntVal(k) * self.zvar(at[a]) for a, k in L.t]
        if L.c:
            xs.append(z3.IntVal(L.c))
        return z3.Sum(xs) if len(xs) > 1 else xs[0]

    def zcond(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        r = self.zc.get(c)
        if r is None:
            k = c[0]
            if k == "ge":
                L = c[1]
                r = self.zlin(Lin(0, L.t)) >= -L.c
            elif k == "eq":
                L = c[1]
                r = self.zlin(Lin(0, L.t)) == -L.c
            elif k == "not":
                r = z3.Not(self.zcond(c[1]))
            elif k == "and":
                r = z3.And(*[self.zcond(x) for x in c[1]])
            else:
                r = z3.Or(*[self.zcond(x) for x in c[1]])
            self.zc[c] = r
        return r

    def atoms_of(self, c, out):
        k = c[0]
        if k in ("ge", "eq"):
            for a, _ in c[1].t:
                out.add(a)
        elif k == "not":
            if c[1] is not True and c[1] is not False:
                self.atoms_of(c[1], out)
        else:
            for x in c[1]:
                if x is not True and x is not False:
                    self.atoms_of(x, out)

    def declare(self, aid):
        if aid in self.declared:
            return
        self.declared.add(aid)
        self.level[-1].add(aid)
        A = self.ctx.atoms[aid]
        v = self.zvar(A)
        fl = A.flat
        if fl is not None and fl[0] == "fl":
            self.link(A, fl)
        if A.defs is None:
            d = [v >= A.lo, v <= A.hi]
            deps = set()
            if A.kind == DIV:
                R, m = A.data
                if A.flat is not None:
                    P, c, Q = self.m_form(A.flat)
                    mv = self.zvar(self.ctx.atoms[self.hint[4]])
                    t = P * mv - Q * v
                    d += [t >= -c, t <= Q - 1 - c]
                    deps.add(self.hint[4])
                if A.flat is None or R.t[0][0] != self.hint[4]:
                    self.floor_rows(d, deps, v, R, m)
                if A.flat is None or A.flat[0] == "raw":
                    d += self.wrap_hint(A, R, m)
                for R, m in A.more[:1]:
                    if R.t[0][0] != self.hint[4]:
                        self.floor_rows(d, deps, v, R, m)
            elif A.kind == BOOL:
                d += [(v == 1) == self.zcond(A.data)]
                self.atoms_of(A.data, deps)
            elif A.kind == TAB:
                I, vals, base = A.data
                i = self.zlin(I)
                deps.update(a for a, _ in I.t)
                groups = {}
                for j, x in enumerate(vals):
                    groups.setdefault(x, []).append(j + base)
                d += [z3.Or(*[z3.And(v == x, z3.Or(*[i == j for j in js])) for x, js in groups.items()])]
            elif A.kind == PROD:
                deps.update(A.data)
            elif A.kind == CTTZ:
                L, w = A.data
                i = self.zlin(L)
                deps.update(a for a, _ in L.t)
                for k in range(1, w + 1):
                    d += [(v >= k) == (i % (1 << k) == 0)]
            elif A.kind == BAND:
                # bounds only: more behaviours than the code has; counterexamples are replayed anyway
                for L in A.data:
                    d.append(v <= self.zlin(L))
                    deps.update(a for a, _ in L.t)
            A.defs = (d, deps)
        d, deps = A.defs
        for x in deps:
            self.declare(x)
        self.s.add(*d)

    def link(self, A, fl):
        """floors of the same quantity at scales that differ by an integer factor r: coarse = floor(fine/r)"""
        key = fl[1:3]
        i, k = fl[7]
        best = {}
        for B in self.flat_on:
            g = B.flat
            if g[1:3] != key:
                continue
            di, dk = g[7][0] - i, g[7][1] - k      # slope(B)/slope(A) = 2^di * 10^dk
            d2, d5 = di + dk, dk
            if d2 == d5 == 0:
                continue
            if d2 >= 0 and d5 >= 0:
                fine, coarse, side = B, A, 0
            elif d2 <= 0 and d5 <= 0:
                fine, coarse, side = A, B, 1
            else:
                continue
            if coarse.flat[5] and not fine.flat[5]:
                continue
            r = 2 ** abs(d2) * 5 ** abs(d5)
            if side not in best or r < best[side][0]:
                best[side] = r, fine, coarse
        for r, fine, coarse in best.values():
            t = self.zvar(fine) - r * self.zvar(coarse)
            c = fine.flat[6] - r * coarse.flat[6]
            self.s.add(t >= -c, t <= r - 1 - c)
        _, num, den, h, k, eps = fl[:6]
        if k <= self.hint[3] * den + den * self.hint[1] + num:
            # the remainder can be 0: floor and strict floor differ by 1 just if k divides u (h and k have no common factor)
            for B in self.flat_on:
                g = B.flat
                if g[1:5] == fl[1:5] and g[5] != eps:
                    lo, hi = (A, B) if eps else (B, A)
                    j, t = z3.Ints("j%d t%d" % (A.id, A.id))
                    u = den * self.zvar(self.ctx.atoms[self.hint[4]]) + (den * self.hint[1] + num)
                    dz = (self.zvar(hi) + hi.flat[6]) - (self.zvar(lo) + lo.flat[6])
                    self.s.add(u == k * j + t, t >= 0, t <= k - 1, dz >= 0, dz <= 1, (dz == 1) == (t == 0))
        self.flat_on.append(A)

    def floor_rows(self, d, deps, v, R, m):
        t = self.zlin(Lin(0, R.t)) - m * v
        d += [t >= -R.c, t <= m - 1 - R.c]
        deps.update(a for a, _ in R.t)

    def wrap_hint(self, A, R, m):
        """definitional extension for r = a*x + b - m*q (mod 2^k with a wide multiplier): an integer
        w = s*q - t*x with s*a = u + t*m, u small, so that s*r = u*x + s*b - m*w"""
        if len(R.t) != 1 or not is_pow2(m) or m < 1 << 12:
            return []
        x, a = R.t[0]
        a %= m
        if a < 1 << 8:
            return []
        t0 = R.t[0][1] // m
        out = []
        mult = []
        if a & 1:
            s = pow(a, -1, m)        # exact: s*a = 1 + t*m
            if s < m:
                mult.append((s, (s * a - 1) // m))
        cs = convergents(a, m)
        for j, (h, k, _) in enumerate(cs[:-1]):
            if cs[j + 1][2] >= 256 and k > 1 and (not mult or mult[0][0] != k):
                mult.append((k, h))
        for j, (s, t) in enumerate(mult):
            if True:
                u = s * a - t * m
                w = z3.Int("w%d_%d" % (A.id, j))
                xv = self.zvar(self.ctx.atoms[x])
                q = self.zvar(A)
                # q = floor((t0*m + a)x+b / m): q' = q - t0*x belongs to the reduced multiplier
                out.append(w == s * q - (s * t0 + t) * xv)
                # s*r = u*x + s*b - m*w with 0 <= r < m
                e = u * xv + s * R.c - m * w
                out.append(e >= 0)
                out.append(e <= s * (m - 1))
        return out

    def divis(self, R, d, c):
        """is R mod d <= c a test for divisibility of a simpler term X by a number s?  (d a power of two)
        The equivalence is proved by the solver for all values of the atoms."""
        if d < 1 << 12 or not 0 <= c < d - 1:
            return None
        key = (R, d, c)
        if key in self.divided:
            return self.divided[key]
        r = None
        s0 = d // (c + 1)
        if s0 >= 3:
            for j in range(1, 28):
                s = 5 ** j
                if not s0 <= 8 * s <= 64 * s0:
                    continue
                # a common power of two may have been divided out: (f*R + g) mod f*d = f*(R mod d) + g
                for f, g in ((1, 0), (2, 1), (4, 1), (4, 2), (4, 3), (8, 1), (8, 3), (8, 5), (8, 7)):
                    M, c2 = f * d, f * c + g
                    half = M >> 1
                    us = [(a, (s * f * k + half) % M - half) for a, k in R.t]
                    if any(abs(u) > 64 for _, u in us):
                        continue
                    X = Lin((s * (f * R.c + g) + half) % M - half, tuple((a, u) for a, u in us if u))
                    if X.t and self.ctx.interval(X)[0] < 0:
                        X = add(X, M)
                    if not X.t or abs(X.c) >= 1 << 56:
                        continue
                    if self.prove_divis(Lin(f * R.c + g, tuple((a, f * k) for a, k in R.t)), M, c2, X, s):
                        r = X, s
                        break
                if r:
                    break
        self.divided[key] = r
        return r

    def prove_divis(self, R, d, c, X, s):
        STATS["lemmas"] += 1
        t0 = time.time()
        at = self.ctx.atoms
        S = z3.SolverFor("QF_LIA")
        S.set("timeout", 2000)
        x = {a: z3.Int("x%d" % a) for a, _ in R.t}
        for a in x:
            S.add(x[a] >= at[a].lo, x[a] <= at[a].hi)
        xx = z3.Sum([k * x[a] for a, k in X.t] + [z3.IntVal(X.c)])
        r, w, y, t = z3.Ints("r w y t")
        # r = R mod d makes s*r = X mod d an equation s*r = X - d*w, as s*R = X mod d by construction
        assert all((s * k - dict(X.t).get(a, 0)) % d == 0 for a, k in R.t) and (s * R.c - X.c) % d == 0
        S.add(r >= 0, r <= d - 1, s * r == xx - d * w, xx == s * y + t)
        # a name for (y - r)/d when t = 0 (s and d have no common factor): p*s + q*d = 1
        g = z3.Int("g")
        p = pow(s, -1, d)
        q = (1 - p * s) // d
        S.add(g == p * w + q * (y - r))
        ok = True
        for side in ((r <= c, t >= 1, t <= s - 1), (r >= c + 1, t == 0)):
            S.push()
            S.add(*side)
            if S.check() != z3.unsat:
                ok = False
            S.pop()
            if not ok:
                break
        STATS["lemma_time"] += time.time() - t0
        if not ok:
            STATS["lemma_fail"] += 1
        return ok

    def flatten(self, R, d):
        """("fl", num, den, h, k, eps, c0): floor(R/d) is floor((h*u - eps)/k) - c0 with u = den*(n0 + m) + num,
        for every m of the slice.  ("raw", P, c, Q): floor((P*m + c)/Q).  None if not of either shape."""
        if self.hint is None or len(R.t) > 2:
            return None
        mid = self.hint[4]
        x, k = R.t[0]
        if len(R.t) == 2:
            # floor((k*m + floor(E/Q) + c) / d) = floor((Q*(k*m + c) + E) / (Q*d))
            y, j = R.t[1]
            if y == mid:
                x, k, y, j = y, j, x, k
            A = self.ctx.atoms[y]
            if x != mid or j != 1 or A.kind != DIV or A.flat is None:
                return None
            P, c, Q = self.m_form(A.flat)
            r = (P + k * Q, c + R.c * Q, Q * d)
        elif x == mid:
            r = (k, R.c, d)
        elif k == 1:
            A = self.ctx.atoms[x]
            if A.kind != DIV or A.flat is None:
                return None
            P, c, Q = self.m_form(A.flat)
            # floor((floor(E/Q) + c) / d) = floor((E + c*Q) / (Q*d))
            r = (P, c + R.c * Q, Q * d)
        else:
            return None
        P, c, Q = r
        fl, off = self.exactify(P, c, Q)
        if 0 <= P < Q or P % Q == 0:
            return fl, off, (fl, 0, 0)
        # the floor of fl is q*m + o + the floor of its reduced form
        red, o = self.exactify(P % Q, c, Q)
        return fl, off, (red, P // Q, o - off)

    def m_form(self, fl):
        """(P, c, Q) with floor((P*m + c)/Q) the floor of fl"""
        if fl[0] == "raw":
            return fl[1:]
        _, num, den, h, k, eps, c0, _ = fl
        n0 = self.hint[1]
        return h * den, h * (den * n0 + num) - eps - c0 * k, k

    def exactify(self, P, c, Q):
        key = (P, c, Q)
        r = self.exact.get(key)
        if r is None:
            g = gcd(P, Q)
            r = self.exactify1(P // g, c // g, Q // g)
            if r[0] == "raw":
                off, c = divmod(r[2], r[3])
                r = ("raw", r[1], c, r[3]), off
            else:
                fl, off = r[:6] + (0, r[7]), -r[6]
                # the same floor up to an integer, written with another offset?
                P, c, Q = self.m_form(fl)
                g = gcd(P, Q)
                P, c, Q = P // g, c // g, Q // g
                fl0, c0 = self.same.setdefault((P, c % Q, Q), (fl, c // Q))
                r = fl0, off + c // Q - c0
            self.exact[key] = r
        return r

    def exactify1(self, a, b, d):
        raw = ("raw", a, b, d)
        if a <= 0:
            return raw
        e, n0, mlo, mhi, mid = self.hint
        r = None
        if d % 5 == 0 and is_pow2(a):
            j = 0
            x = d
            while x % 5 == 0:
                x //= 5
                j += 1
            if x == 1:
                r = a, d, (a.bit_length() - 1 + j, -j)
        if r is None:
            if d < 1 << 20:
                return raw
            r = find_rational(a, d, e)
        if r is None:
            return raw
        P, Q, ik = r
        best = None
        for num, den in OFFSETS:
            # b == a*(n0 + num/den) mod d, nearly?
            t = a * (n0 * den + num) - b * den
            c0 = (2 * t + d * den) // (2 * d * den)      # total = floor + c0
            t -= c0 * d * den
            if best is None or abs(t) * best[3] < best[0] * den:
                best = abs(t), t, num, den, c0
        _, t, num, den, c0 = best
        if abs(t) << 6 > a * den or abs(t) << 6 > d * den:
            return raw
        # floor((a*m + b)/d) + c0 = floor((u*a - t)/(d*den))
        lo = den * (n0 + mlo) + num
        hi = den * (n0 + mhi) + num
        if lo <= 0:
            return raw
        Q *= den
        g = gcd(P, Q)
        P //= g
        Q //= g
        _, (h, k) = first_convergent_above(P, Q, hi)
        for eps in (0, 1) if k == Q else (0,):
            if prove_floor_equal(a, -t, d * den, h, -eps, k, lo, hi, num % den, den) is True:
                return ("fl", num, den, h, k, eps, c0, ik)
        return raw

    # ------------------------------------------------------------ solving
    def push(self):
        self.s.push()
        self.level.append(set())

    def pop(self):
        self.s.pop()
        gone = self.level.pop()
        self.declared -= gone
        if gone:
            self.flat_on = [A for A in self.flat_on if A.id not in gone]

    def add(self, c):
        if c is True:
            return
        if c is False:
            self.s.add(z3.BoolVal(False))
            return
        ats = set()
        self.atoms_of(c, ats)
        for a in ats:
            self.declare(a)
        self.s.add(self.zcond(c))

    def check(self, rlimit=0, timeout=0):
        if rlimit:
            self.s.set("rlimit", rlimit)
        self.s.set("timeout", timeout or 4294967295)
        t = time.time()
        r = self.s.check()
        dt = time.time() - t
        STATS["time"] += dt
        STATS["queries"] += 1
        STATS["max_query"] = max(STATS["max_query"], dt)
        if rlimit:
            self.s.set("rlimit", 0)
        r = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        STATS[r] += 1
        return r

    def model_values(self):
        m = self.s.model()
        out = {}
        for A in self.ctx.atoms:
            if A.kind in (VAR, EXT) and A.z is not None and A.id in self.declared:
                v = m.eval(A.z, model_completion=True)
                out[A.id] = v.as_long()
        return out


_p10 = {}


def find_rational(a, d, e):
    """(P, Q) with P/Q = 2^i * 10^k and a/d = P/Q within 2^-40, i near e; None if there is none"""
    # log2(a/d)
    la = a.bit_length() - d.bit_length()
    best = None
    L10 = 3.321928094887362
    x = la + _frac_log2(a) - _frac_log2(d)
    for j in range(-6, 7):
        k = (x - (e + j)) / L10
        kr = round(k)
        if abs(k - kr) < 1e-6:
            P, Q = 1, 1
            i = e + j
            if kr >= 0:
                P *= 10 ** kr
            else:
                Q *= 10 ** -kr
            if i >= 0:
                P <<= i
            else:
                Q <<= -i
            # |a/d - P/Q| <= 2^-28 * P/Q
            if abs(a * Q - P * d) << 28 <= P * d:
                g = gcd(P, Q)
                return P // g, Q // g, (i, kr)
    return None


def _frac_log2(a):
    import math
    n = a.bit_length()
    if n > 60:
        a >>= n - 60
    return math.log2(a) - a.bit_length() + 1
