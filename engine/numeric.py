"""The numeric properties of the decimal conversion, decided per binary exponent.

For one exponent field the mantissa m is an integer variable (all values of the slice), the sign s a 0/1
variable; the harness function is executed symbolically and every path's result (significand N, exponent X)
is checked against the definition of the rounding interval with the solver."""
import random
import time

import symex
from witness import candidates
from solver import STATS
from symex import Engine, Ptr
from terms import EXT, Lin, Unsupported, add, c_and, c_not, c_or, scale, sub

NEAREST = ("ne", "no", "npi", "nmi", "ntz", "naz", "nes", "nos", "npis", "nmis")
DIRECTED = ("tpi", "tmi", "tz", "az")
FMT = {"d": dict(p=52, eb=11, bias=1075), "f": dict(p=23, eb=8, bias=150)}


def closed(mode, neg, even):
    """(left closed, right closed) of the interval on |x| for a nearest mode, as conditions"""
    mode = mode.rstrip("s") if mode != "ne" else mode
    if mode == "ne":
        return even, even
    if mode == "no":
        return c_not(even), c_not(even)
    if mode == "npi":        # ties go up: -> left end belongs for positive, right end for negative
        return c_not(neg), neg
    if mode == "nmi":
        return neg, c_not(neg)
    if mode == "ntz":        # ties go towards zero: the right end rounds down to us
        return False, True
    if mode == "naz":
        return True, False
    raise ValueError(mode)


def interval_of(mode, neg, n, e, edge, even):
    """the interval of reals that round to n*2^e in units of 2^(e-2): (lo, lo closed, hi, hi closed)"""
    if mode in DIRECTED:
        up = {"tpi": c_not(neg), "tmi": neg, "tz": False, "az": True}[mode]
        assert up is True or up is False
        if up:       # rounding away from zero: (v - prev, v]
            return sub(scale(n, 4), 2 if edge else 4), False, scale(n, 4), True
        return scale(n, 4), True, add(scale(n, 4), 4), False
    lc, rc = closed(mode, neg, even)
    return sub(scale(n, 4), 1 if edge else 2), lc, add(scale(n, 4), 2), rc


class Scale:
    """comparisons of K*10^X (K a term or a number) with L*2^(e-2), as comparisons of integers"""

    def __init__(self, ctx, e, X):
        u = e - 2
        self.ctx = ctx
        self.A = 10 ** max(X, 0) * 2 ** max(-u, 0)
        self.B = 2 ** max(u, 0) * 10 ** max(-X, 0)

    def below(self, L):
        """the largest K with K*10^X <= L*2^(e-2)"""
        return self.ctx.div(scale(L, self.B), self.A)

    def strictly_below(self, L):
        """the largest K with K*10^X < L*2^(e-2)"""
        return self.ctx.div(sub(scale(L, self.B), 1), self.A)


def ge_if(ctx, K, a, b, cond, d):
    """K >= a + d if cond, K >= b + d otherwise"""
    x = ctx.ge0(sub(sub(K, a), d))
    if cond is True or a == b:
        return x
    y = ctx.ge0(sub(sub(K, b), d))
    if cond is False:
        return y
    return c_or(c_and(cond, x), c_and(c_not(cond), y))


class Job:
    def __init__(self, eng, fmt, mode, cr, E, want, timeout_ms, slice_=None):
        self.eng, self.fmt, self.mode, self.cr, self.E = eng, fmt, mode, cr, E
        self.want = want
        self.timeout = timeout_ms
        F = FMT[fmt]
        self.p = F["p"]
        self.e = max(E, 1) - F["bias"]
        self.n0 = 1 << self.p if E else 0
        self.lo, self.hi = slice_ or (1, (1 << self.p) - 1)
        self.viol = []
        self.unknown = []
        self.leaves = 0
        self.counts = {}

    def witnesses(self, rnd):
        return candidates(rnd, self.p, self.e, self.n0, self.lo, self.hi)

    # ------------------------------------------------------------------ run
    def run(self, fname, seed=1):
        eng = self.eng
        eng.start()
        ctx = eng.ctx
        p = self.p
        m = ctx.var("m", self.lo, self.hi)
        s = ctx.var("s", 0, 1)
        self.m, self.s = m, s
        sid = s.t[0][0]
        mid = m.t[0][0] if type(m) is Lin else None
        if mid is not None:
            eng.sv.hint = (self.e, self.n0, self.lo, self.hi, mid)
        rnd = random.Random(seed * 1000003 + self.E)
        pool = []
        for j, w in enumerate(self.witnesses(rnd)):
            env = {sid: j & 1, "default": symex.dflt}
            if mid is not None:
                env[mid] = w
            pool.append(env)
        eng.set_pool(pool)
        st = eng.new_state()
        args = self.start(st)
        eng.on_leaf = self.leaf
        eng.on_event = self.event
        self.neg = ctx.eq0(sub(s, 1))
        self.n = add(m, self.n0)
        self.even = ctx.eq0(ctx.mod(m, 2))
        eng.enter(st, fname, args)
        eng.run(st)
        return self

    def start(self, st):
        """arguments of the harness"""
        self.out = self.eng.alloc(st, 24, "out")
        eb = FMT[self.fmt]["eb"]
        return [add(add(self.m, self.E << self.p), scale(self.s, 1 << (self.p + eb))), self.out]

    def model(self):
        """(m, s) of the solver's current model"""
        v = self.eng.sv.model_values()
        m = self.lo if type(self.m) is int else v.get(self.m.t[0][0], self.lo)
        return m, v.get(self.s.t[0][0], 0)

    def of_env(self, env):
        m = self.lo if type(self.m) is int else env[self.m.t[0][0]]
        return m, env.get(self.s.t[0][0], 0)

    def ask(self, what, cond, note=None):
        """is there an input on this path with cond?  it would break property query `what`"""
        eng = self.eng
        cond = eng.ctx.c_eval(cond)
        self.counts[what] = self.counts.get(what, 0) + 1
        if cond is False:
            return "unsat"
        for env in eng.pool:
            if eng.ctx.ev_cond(cond, env):
                self.viol.append((what, self.of_env(env), note))
                return "sat"
        eng.sv.push()
        eng.sv.add(cond)
        r = eng.sv.check(timeout=self.timeout)
        if r == "sat":
            self.viol.append((what, self.model(), note))
        elif r == "unknown":
            self.unknown.append((what, note))
        eng.sv.pop()
        return r

    def impossible(self, cond):
        """does the solver exclude cond on this path?  (a lemma, not a verdict)"""
        eng = self.eng
        cond = eng.ctx.c_eval(cond)
        if cond is True or cond is False:
            return cond is False
        if any(eng.ctx.ev_cond(cond, env) for env in eng.pool):
            return False
        eng.sv.push()
        eng.sv.add(cond)
        r = eng.sv.check(timeout=self.timeout)
        eng.sv.pop()
        return r == "unsat"

    def event(self, st, ev):
        if ev.kind not in self.want and "ub" not in self.want:
            self.ask("other", True, repr(ev))
            return
        self.ask(ev.kind, True, repr(ev))

    def leaf(self, st):
        """split on what the spec needs decided, then check"""
        eng, ctx = self.eng, self.eng.ctx
        o = st.mem[self.out.obj]
        X = o.cells.get(8, (0, None))[1]
        if type(X) is not int:
            if X is None or X is symex.UNDEF:
                self.ask("undef", True, "exponent not set")
                return
            X = ctx.canon(X, 32, True)
            if type(X) is not int:
                lo, hi = ctx.interval(X)
                eng.branch(ctx.eq0(sub(X, lo)), lambda side: self.leaf_x(st, lo) if side else self.leaf(st))
                return
        else:
            X = (X + (1 << 31)) % (1 << 32) - (1 << 31)
        self.leaf_x(st, X)

    def leaf_x(self, st, X):
        eng, ctx = self.eng, self.eng.ctx
        if self.mode in DIRECTED and self.mode in ("tpi", "tmi"):
            neg = ctx.c_eval(self.neg)
            if neg is not True and neg is not False:
                eng.branch(neg, lambda side: self.leaf_n(st, X, side))
                return
            self.leaf_n(st, X, neg)
        else:
            self.leaf_n(st, X, self.neg)

    def leaf_n(self, st, X, neg):
        eng, ctx = self.eng, self.eng.ctx
        self.leaves += 1
        want = self.want
        if "ub" in want:      # the path got here: every operation on it was defined
            self.counts["defined"] = self.counts.get("defined", 0) + 1
        o = st.mem[self.out.obj]
        N = ctx.canon(o.cells[0][1], 64)
        isneg = o.cells.get(16)
        if "sign" in want:
            self.ask("sign", c_not(ctx.eq0(sub(ctx.canon(isneg[1], 32), self.s))))
        edge = self.lo == 0 and self.hi == 0 and self.E > 1
        n, e, mode = self.n, self.e, self.mode
        L, lc, H, hc = interval_of(mode, neg, n, e, edge, self.even)
        ev = ctx.c_eval
        lc, hc = ev(lc), ev(hc)
        self.cur = (L, lc, H, hc)

        def scl(X):
            return Scale(ctx, e, X)

        def lower(K, X):
            """K*10^X is not below the left end"""
            s = scl(X)
            return ge_if(ctx, K, s.strictly_below(L), s.below(L), lc, 1)

        def upper(K, X):
            s = scl(X)
            return ge_if(ctx, scale(K, -1), scale(s.below(H), -1), scale(s.strictly_below(H), -1), hc, 0)

        def inside(K, X):
            return c_and(lower(K, X), upper(K, X))

        def outside(K, X):
            return c_or(c_not(lower(K, X)), c_not(upper(K, X)))

        if "inside" in want:
            self.ask("inside", outside(N, X), X)
        if "shortest" in want:
            self.shortest(N, X, inside)
        c = scl(X)
        v8 = scale(n, 8)
        if "closest" in want and self.cr != "dnc":
            # 2N+1 < 2v/10^X: N+1 is closer, if it is a candidate
            self.ask("closest", c_and(ctx.ge0(sub(c.strictly_below(v8), add(scale(N, 2), 1))), upper(add(N, 1), X)), X)
            self.ask("closest", c_and(ctx.ge0(sub(add(scale(N, 2), -2), c.below(v8))), lower(sub(N, 1), X)), X)
            lo, hi = ctx.interval(N)
            if lo <= 1:
                # one-digit results: 9 * 10^(X-1) also is a one-digit candidate
                c9 = scl(X - 1)
                self.ask("closest", c_and(ctx.eq0(sub(N, 1)), ctx.ge0(sub(18, c9.below(v8))), lower(9, X - 1)), X)
        if "tie" in want and self.cr in ("even", "odd", "up", "down") and mode not in DIRECTED:
            w = c.below(v8)
            exact = ctx.eq0(sub(sub(w, c.strictly_below(v8)), 1))      # 2v is a multiple of 10^X
            for d in (1, -1):
                if self.cr == "up":
                    wrong = d == 1
                elif self.cr == "down":
                    wrong = d == -1
                else:
                    par = ctx.eq0(ctx.mod(N, 2))
                    wrong = c_not(par) if self.cr == "even" else par
                self.ask("tie", c_and(exact, ctx.eq0(sub(add(scale(N, 2), d), w)), wrong,
                                      upper(add(N, 1), X) if d == 1 else lower(sub(N, 1), X)), X)
        if "digits" in want:
            lim = 10 ** (17 if self.fmt == "d" else 9)
            lo, hi = (-324, 308) if self.fmt == "d" else (-45, 38)
            if not lo <= X <= hi:
                self.ask("digits", True, X)
            self.ask("digits", c_or(ctx.ge0(sub(N, lim)), ctx.ge0(scale(N, -1))), X)
            # N = 0 mod 10: easy to exclude if N is inside and no multiple of 10^(X+1) is
            c10 = scl(X + 1)
            M, Ms = c10.below(H), c10.strictly_below(H)
            some = c_or(c_and(hc, ge_if(ctx, M, c10.strictly_below(L), c10.below(L), lc, 1)),
                        c_and(c_not(hc), ge_if(ctx, Ms, c10.strictly_below(L), c10.below(L), lc, 1)))
            if not (self.impossible(some) and self.impossible(outside(N, X))):
                self.ask("digits", ctx.eq0(ctx.mod(N, 10)), X)

    def shortest(self, N, X, inside):
        eng, ctx = self.eng, self.eng.ctx
        self.counts["shortest"] = self.counts.get("shortest", 0) + 1
        lo, hi = ctx.interval(N)
        if hi < 10:
            return
        c = Scale(ctx, self.e, X + 1)
        L, lc, H, hc = self.cur
        # the largest multiple of 10^(X+1) not above the right end
        def go(closed):
            M = c.below(H) if closed else c.strictly_below(H)
            bad = ctx.c_eval(ge_if(ctx, M, c.strictly_below(L), c.below(L), ctx.c_eval(lc), 1))
            if bad is False:
                return
            for env in eng.pool:
                if ctx.ev_cond(bad, env) and len(str(ctx.ev(M, env))) < len(str(ctx.ev(N, env))):
                    self.viol.append(("shortest", self.of_env(env), X))
                    return
            eng.sv.push()
            eng.sv.add(bad)
            r = eng.sv.check(timeout=self.timeout)
            eng.sv.pop()
            if r == "unsat":
                return
            if r == "unknown":
                self.unknown.append(("shortest", X))
                return
            # a multiple of 10^(X+1) is there: is one shorter than N?
            for d in range(2, 21):
                dig = c_and(ctx.ge0(sub(N, 10 ** (d - 1))), ctx.ge0(sub(10 ** d - 1, N)))
                if dig is False:
                    continue
                eng.sv.push()
                eng.sv.add(dig)
                eng.sv.add(bad)
                eng.sv.add(c_or(inside(10 ** (d - 2), X + 1), inside(10 ** (d - 1), X + 1),
                                ctx.ge0(sub(10 ** (d - 1) - 1, M))))
                r = eng.sv.check(timeout=self.timeout)
                if r == "sat":
                    self.viol.append(("shortest", self.model(), X))
                elif r == "unknown":
                    self.unknown.append(("shortest", X))
                eng.sv.pop()
        if hc is True or hc is False:
            go(hc)
        else:
            eng.branch(hc, go)
