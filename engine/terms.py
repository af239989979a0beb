"""Integer terms for symbolic machine words.

A symbolic word is a Lin: an integer linear combination of atoms.  The word's bit pattern is
the value of the Lin modulo 2^w; operators that look at the value (comparisons, divisions,
shifts to the right, extensions) first bring it into range with Ctx.canon.
Atoms: input variables, floor(Lin / d), 0/1 of a condition, table lookups, products, cttz.
Conditions: ('ge', L) means L >= 0, ('eq', L) means L == 0, and/or/not over those; Python
True/False when decided."""
from math import gcd


class Lin:
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c, self.t = c, t

    def __hash__(self):
        return hash((self.c, self.t))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return "%d%s" % (self.c, "".join(" %+d*a%d" % (k, a) for a, k in self.t))


def lin(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    return Lin(c, t) if t else c


def add(x, y):
    if type(x) is int:
        if type(y) is int:
            return x + y
        return Lin(x + y.c, y.t) if x else y
    if type(y) is int:
        return Lin(x.c + y, x.t) if y else x
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return lin(x.c + y.c, d)


def scale(x, k):
    if type(x) is int:
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, q * k) for a, q in x.t))


def sub(x, y):
    return add(x, scale(y, -1))


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    """raised by an operator that can only go on once `cond` is decided"""

    def __init__(self, cond):
        self.cond = cond


VAR, DIV, BOOL, TAB, PROD, CTTZ, EXT, BAND = range(8)


class Atom:
    __slots__ = ("id", "kind", "lo", "hi", "data", "z", "defs", "name", "flat", "more")

    def __init__(self, id, kind, lo, hi, data, name=None):
        self.id, self.kind, self.lo, self.hi, self.data = id, kind, lo, hi, data
        self.z = self.defs = self.flat = None
        self.more = ()
        self.name = name


def is_pow2(n):
    return n & (n - 1) == 0


class Ctx:
    def __init__(self):
        self.atoms = []
        self.index = {}
        self.facts = {}
        self.known = {}              # conditions decided on this path
        self.trail = []
        self.flatten = None          # callback(R, d) -> hashable closed form of floor(R/d), or None
        self.reduced = {}            # reduced closed form -> (atom, q, o, mantissa): floor = q*m + o + reduced floor
        self.shifted = {}
        self.limbs = {}
        self.wraps = {}              # values found to wrap: not asked over and over
        self.mid = None              # callback: the mantissa's atom
        self.divis = None            # callback(R, d, c): (X, s) with R mod d <= c just if s divides X, or None
        self.bound_check = None      # callback(cond) -> bool: cond can hold on this path

    # ---------------------------------------------------------------- atoms
    def _atom(self, kind, lo, hi, data, key, name=None):
        a = self.index.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, lo, hi, data, name)
            self.atoms.append(a)
            self.index[key] = a
        return a

    def var(self, name, lo, hi):
        if lo == hi:
            return lo
        a = self._atom(VAR, lo, hi, None, ("v", name), name)
        return Lin(0, ((a.id, 1),))

    def boolint(self, cond):
        if cond is True or cond is False:
            return int(cond)
        neg = False
        if cond[0] == "not":
            cond, neg = cond[1], True
        if cond[0] == "ge":
            w = self.limb_diff(cond[1])
            if w is not None and w[0] >= -1 and w[1] <= 0:       # a carry: the condition is a difference of limbs
                return sub(0, cond[1]) if neg else add(cond[1], 1)
            c = c_not(cond)
            w = self.limb_diff(c[1])
            if w is not None and w[0] >= -1 and w[1] <= 0:
                return add(c[1], 1) if neg else sub(0, c[1])
        a = self._atom(BOOL, 0, 1, cond, ("b", cond))
        return Lin(1, ((a.id, -1),)) if neg else Lin(0, ((a.id, 1),))

    def as_bool(self, x):
        """cond c if x is 0/1 of c"""
        if type(x) is Lin and len(x.t) == 1:
            aid, k = x.t[0]
            a = self.atoms[aid]
            if a.kind == BOOL:
                if k == 1 and x.c == 0:
                    return a.data
                if k == -1 and x.c == 1:
                    return c_not(a.data)
        return None

    def prod(self, x, y):
        """product of two Lins"""
        if type(x) is int:
            return scale(y, x)
        if type(y) is int:
            return scale(x, y)
        out = x.c * y.c
        out = add(out, scale(Lin(0, x.t), y.c))
        out = add(out, scale(Lin(0, y.t), x.c))
        for a, k in x.t:
            for b, l in y.t:
                A, B = self.atoms[a], self.atoms[b]
                if A.kind == PROD or B.kind == PROD:
                    raise Unsupported("product of degree 3")
                p, q = (a, b) if a <= b else (b, a)
                c = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
                at = self._atom(PROD, min(c), max(c), (p, q), ("p", p, q))
                out = add(out, Lin(0, ((at.id, k * l),)))
        return out

    # ---------------------------------------------------------------- bounds
    def interval(self, L):
        if type(L) is int:
            return L, L
        lo = hi = L.c
        at = self.atoms
        facts = self.facts
        for a, k in L.t:
            A = at[a]
            l, h = A.lo, A.hi
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if facts:
            key, g = norm_key(L.t)
            f = facts.get(key)
            if f is not None:
                fl, fh = f
                if g < 0:
                    fl, fh = (None if fh is None else -fh), (None if fl is None else -fl)
                    g = -g
                if fl is not None and fl * g + L.c > lo:
                    lo = fl * g + L.c
                if fh is not None and fh * g + L.c < hi:
                    hi = fh * g + L.c
        return lo, hi

    def add_fact(self, cond):
        """record a condition known on this path"""
        self._known(cond, True)
        self._known(c_not(cond), False)
        k = cond[0]
        if k == "and":
            for c in cond[1]:
                self.add_fact(c)
            return
        if k == "not":
            c = cond[1]
            if c[0] == "or":
                for x in c[1]:
                    self.add_fact(c_not(x))
            elif c[0] == "eq":       # trim the interval at the end
                L = c[1]
                lo, hi = self.interval(L)
                if lo == 0:
                    self.add_fact(("ge", sub(L, 1)))
                elif hi == 0:
                    self.add_fact(("ge", sub(-1, L)))
            return
        if k == "ge":
            L = cond[1]
            key, g = norm_key(L.t)
            if g > 0:      # g*K + c >= 0
                self._fact(key, -(L.c // g), None)
            else:          # -|g|*K + c >= 0
                self._fact(key, None, L.c // -g)
        elif k == "eq":
            L = cond[1]
            key, g = norm_key(L.t)
            if L.c % g == 0:
                v = -(L.c // g)
                self._fact(key, v, v)

    def _known(self, c, v):
        if c not in self.known:
            self.known[c] = v
            self.trail.append((c, self.known))

    def _fact(self, key, lo, hi):
        old = self.facts.get(key)
        l, h = old if old else (None, None)
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        self.trail.append((key, old))
        self.facts[key] = (l, h)

    def sum_fact(self, L, lo, hi):
        key, g = norm_key(L.t)
        if abs(g) == 1:
            lo, hi = lo - L.c, hi - L.c
            self._fact(key, *((lo, hi) if g == 1 else (-hi, -lo)))

    def mark(self):
        return len(self.trail)

    def undo(self, m):
        t = self.trail
        while len(t) > m:
            key, old = t.pop()
            if old is self.known:
                del self.known[key]
            elif old is None:
                del self.facts[key]
            else:
                self.facts[key] = old

    # ---------------------------------------------------------------- floor division
    def div(self, L, d, collapse=True):
        """floor(L / d), d > 0"""
        if type(L) is int:
            return L // d
        if d == 1:
            return L
        q = self.div1(L, d, collapse)
        if type(q) is not int and len(q.t) > 1 and len(L.t) > 1:
            lo, hi = self.interval(L)
            lo, hi = lo // d, hi // d
            a, b = self.interval(q)
            if lo > a or hi < b:
                self.sum_fact(q, lo, hi)
        return q

    def div1(self, L, d, collapse):
        qc, rc = divmod(L.c, d)
        out = qc
        rem = []
        for a, k in L.t:
            if k % d == 0:
                out = add(out, Lin(0, ((a, k // d),)))
            else:
                rem.append((a, k))
        if not rem:
            return out
        g = d
        for a, k in rem:
            g = gcd(g, k)
        if g > 1:
            rem = [(a, k // g) for a, k in rem]
            d //= g
            rc //= g
            if d == 1:
                return add(out, Lin(rc, tuple(rem)))
        R = Lin(rc, tuple(rem))
        lo, hi = self.interval(R)
        if lo // d == hi // d:
            return add(out, lo // d)
        if self.flatten is not None and len(rem) > 1 and d >> 32 and is_pow2(d):
            for a, k in rem:
                # a coefficient 1 + j*2^t (a sum that two limbs of a long product share): split there
                t = ((k - 1) & (1 - k)).bit_length() - 1
                if k != 1 and t >= 32:
                    t = min(t, d.bit_length() - 1)
                    hi_, lo_ = [], []
                    for b, j in rem:
                        if b == a:
                            hi_.append((b, (j - 1) >> t))
                            lo_.append((b, 1))
                        elif j % (1 << t) == 0:
                            hi_.append((b, j >> t))
                        else:
                            lo_.append((b, j))
                    Z = Lin(rc, tuple(lo_))
                    fl = self.flatten(Z, 1 << t)
                    if fl is not None and fl[0][0] == "fl":
                        return add(out, self.div(add(Lin(0, tuple(hi_)), self.div(Z, 1 << t)), d >> t, False))
        if collapse:
            for a, k in rem:
                A = self.atoms[a]
                if k == 1 and A.kind == DIV and is_pow2(A.data[1]) == is_pow2(d):
                    B, e = A.data
                    rest = scale(sub(R, Lin(0, ((a, 1),))), e)
                    return add(out, self.div(add(rest, B), d * e))
        key = ("d", R, d)
        A = self.index.get(key)
        if A is None and self.flatten is not None:
            fl = self.flatten(R, d)
            if fl is not None:
                fl, off, red = fl        # floor(R/d) = off + the floor of fl
                if off:
                    out = add(out, off)
                    R = add(R, -d * off)
                    key = ("d", R, d)
                A = self.index.get(fl)
                if A is not None:        # the same floor, reached another way: one atom, one more fact
                    if key not in self.index:
                        self.index[key] = A
                        A.more.append((R, d))
                        self.range_fact(R, d, Lin(0, ((A.id, 1),)))
                else:
                    X = self.shifted.get(key)
                    if X is None and red[0] in self.reduced:
                        # the same floor up to a multiple of the mantissa
                        A, q, o, mid = self.reduced[red[0]]
                        D = lin(red[2] - o, {mid: red[1] - q})
                        X = add(Lin(0, ((A.id, 1),)), D)
                        self.shifted[key] = X
                        A.more.append((sub(R, scale(D, d)), d))
                        self.range_fact(R, d, X)
                        saved, self.facts = self.facts, {}
                        lo, hi = self.interval(R)
                        self.facts = saved
                        k2, g = norm_key(X.t)
                        if abs(g) == 1 and k2 not in self.facts:
                            lo, hi = lo // d - X.c, hi // d - X.c
                            self.facts[k2] = (lo, hi) if g == 1 else (-hi, -lo)
                    if X is not None:
                        return add(out, X)
        if A is None:
            # the atom's own bounds must not depend on path facts
            saved, self.facts = self.facts, {}
            lo, hi = self.interval(R)
            self.facts = saved
            A = self._atom(DIV, lo // d, hi // d, (R, d), key)
            A.more = []
            if self.flatten is not None:
                A.flat = fl
                if fl is not None:
                    self.index[fl] = A
                    self.reduced.setdefault(red[0], (A, red[1], red[2], self.mid()))
            self.range_fact(R, d, Lin(0, ((A.id, 1),)))
        return add(out, Lin(0, ((A.id, 1),)))

    def range_fact(self, R, d, X):
        """0 <= R - d*X <= d-1 holds always"""
        M = sub(R, scale(X, d))
        if type(M) is int:
            return
        k2, g2 = norm_key(M.t)
        if abs(g2) == 1 and k2 not in self.facts:
            if g2 == 1:
                self.facts[k2] = (-M.c, d - 1 - M.c)
            else:
                self.facts[k2] = (M.c - (d - 1), M.c)

    def mod(self, L, d, collapse=False):
        if type(L) is int:
            return L % d
        return sub(L, scale(self.div(L, d, collapse), d))

    def canon(self, L, w, signed=False):
        """the representative of L mod 2^w in [0, 2^w), or in [-2^(w-1), 2^(w-1))"""
        M = 1 << w
        base = -(M >> 1) if signed else 0
        if type(L) is int:
            return (L - base) % M + base
        lo, hi = self.interval(L)
        if base <= lo and hi < base + M:
            return L
        k = (lo - base) // M
        if k == (hi - base) // M:
            return add(L, -k * M)
        w2 = self.limb_diff(L)
        if w2 is not None:
            lo, hi = max(lo, w2[0]), min(hi, w2[1])
            k = (lo - base) // M
            if k == (hi - base) // M:
                return add(L, -k * M)
        # drop what is a multiple of 2^w
        if any(abs(c) >= M for _, c in L.t) or abs(L.c) >= 2 * M:
            d = {}
            for a, c in L.t:
                r = abs(c) % M
                d[a] = r if c > 0 else -r
            L = lin(L.c % M, d)
            return self.canon(L, w, signed)
        if self.bound_check is not None:
            key = (L, w, signed)
            n = self.wraps.get(key, 0)
            if n < 4:
                if not self.bound_check(("ge", sub(base - 1, L))) and \
                        not self.bound_check(("ge", sub(L, base + M))):
                    self.add_fact(("ge", sub(L, base)))
                    self.add_fact(("ge", sub(base + M - 1, L)))
                    return L
                self.wraps[key] = n + 1
        return self.shifted_mod(L, base, M)

    def shifted_mod(self, L, base, M):
        return sub(L, scale(self.div(sub(L, base), M, False), M))

    # ---------------------------------------------------------------- conditions
    def ge0(self, L):
        if type(L) is int:
            return L >= 0
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = self.interval(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.divis is not None:
            for a, k in L.t:
                A = self.atoms[a]
                if A.kind == DIV and (k == A.data[1] or k == -A.data[1]) and k & (k - 1) == 0 or \
                        A.kind == DIV and k == -A.data[1] and is_pow2(-k):
                    R, d = A.data
                    t = 1 if k > 0 else -1
                    c = add(sub(L, Lin(0, ((a, k),))), scale(R, t))       # L = c - t*(R - d*a)
                    if type(c) is int:
                        X = self.divis(R, d, c if t > 0 else -c - 1)
                        if X is not None:
                            r = self.eq0(self.mod(*X))
                            return r if t > 0 else c_not(r)
        r = self.carry(L)
        return ("ge", L) if r is None else r if r is True or r is False else ("ge", r)

    def carry(self, L):
        """L = X - d*Q >= 0 is floor(X/d) >= Q: the comparison by which a lost carry is found, as a difference of limbs"""
        r = self.carry1(L)
        if r is None:
            r = self.carry1(sub(-1, L))
            if r is not None:
                r = (not r) if type(r) is bool else sub(-1, r)
        return r

    def carry1(self, L):
        for a, k in L.t:
            A = self.atoms[a]
            if A.kind == DIV and is_pow2(A.data[1]) and abs(k) >> 32 and is_pow2(abs(k)):
                d = abs(k)
                X, Y = {}, 0
                for b, j in L.t:
                    if j % d:
                        X[b] = j
                    else:
                        Y = add(Y, Lin(0, ((b, j // d),)))
                if not X:
                    continue
                n = len(self.atoms)
                q = add(Y, self.div(lin(L.c, X), d, False))
                if len(self.atoms) == n:
                    lo, hi = self.interval(q)
                    w = self.limb_diff(q)
                    if w is not None:
                        lo, hi = max(lo, w[0]), min(hi, w[1])
                    return True if lo >= 0 else False if hi < 0 else q
        return None

    def limb_diff(self, q):
        """bounds of a difference of two floors (plus a linear term), kept as a fact"""
        if type(q) is int or len(q.t) > 4:
            return None
        divs = [(a, k) for a, k in q.t if abs(k) == 1 and self.atoms[a].kind == DIV and self.atoms[a].data[1] >> 32]
        if len(divs) != 2 or divs[0][1] == divs[1][1]:
            return None
        key, g = norm_key(q.t)
        w = self.limbs.get(key)
        if w is None:
            (a, i), (b, j) = divs
            A, B = self.atoms[a], self.atoms[b]
            d, e = A.data[1], B.data[1]
            D = max(d, e)
            if not is_pow2(d) or not is_pow2(e):
                return None
            rest = lin(0, {x: k for x, k in q.t if x != a and x != b})
            saved, self.facts = self.facts, {}
            lo, hi = self.interval(add(add(scale(A.data[0], i * (D // d)), scale(B.data[0], j * (D // e))), scale(rest, D)))
            self.facts = saved
            # floor(R/d) = R/d - r/d with r in [0, d-1]
            r1, r2 = (d - 1) * (D // d), (e - 1) * (D // e)
            if i < 0:
                r1, r2 = r2, r1
            w = -((r1 - lo) // D), (hi + r2) // D
            if abs(g) == 1:
                self.limbs[key] = w = w if g == 1 else (-w[1], -w[0])
                if key not in self.facts:
                    self.facts[key] = w
            else:
                return w[0] + q.c, w[1] + q.c
        return (w[0] + q.c, w[1] + q.c) if g == 1 else (-w[1] + q.c, -w[0] + q.c)

    def eq0(self, L):
        if type(L) is int:
            return L == 0
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if L.c % g:
            return False
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = self.interval(L)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        b = self.as_bool(L)
        if b is not None:
            return c_not(b)
        b = self.as_bool(add(L, 1))
        if b is not None:
            return b
        if len(L.t) == 1 and abs(L.t[0][1]) == 1:
            A = self.atoms[L.t[0][0]]
            if A.kind == CTTZ:
                pass
        if L.t[0][1] < 0:
            L = scale(L, -1)
        return ("eq", L)

    def c_eval(self, c):
        """decide a condition from bounds, or give it back"""
        if c is True or c is False:
            return c
        r = self.known.get(c)
        if r is not None:
            return r
        k = c[0]
        if k == "ge":
            lo, hi = self.interval(c[1])
            return True if lo >= 0 else False if hi < 0 else c
        if k == "eq":
            lo, hi = self.interval(c[1])
            return False if lo > 0 or hi < 0 else True if lo == hi == 0 else c
        if k == "not":
            return c_not(self.c_eval(c[1]))
        if k == "and":
            return c_and(*[self.c_eval(x) for x in c[1]])
        return c_or(*[self.c_eval(x) for x in c[1]])

    def sharpen(self, c):
        """x != end of x's range becomes an inequality"""
        if c is not True and c is not False and c[0] == "not" and c[1][0] == "eq":
            L = c[1][1]
            lo, hi = self.interval(L)
            if lo == 0:
                return ("ge", sub(L, 1))
            if hi == 0:
                return ("ge", sub(-1, L))
        return c

    # ---------------------------------------------------------------- concrete evaluation
    def ev(self, L, env):
        """value of a Lin under env: {atom id: int}, filled in on the way"""
        if type(L) is int:
            return L
        v = L.c
        for a, k in L.t:
            x = env.get(a)
            if x is None:
                x = self.ev_atom(a, env)
            v += k * x
        return v

    def ev_atom(self, a, env):
        A = self.atoms[a]
        if A.kind == DIV:
            x = self.ev(A.data[0], env) // A.data[1]
        elif A.kind == BOOL:
            x = int(self.ev_cond(A.data, env))
        elif A.kind == TAB:
            x = A.data[1][self.ev(A.data[0], env) - A.data[2]]
        elif A.kind == PROD:
            x = self.ev(Lin(0, ((A.data[0], 1),)), env) * self.ev(Lin(0, ((A.data[1], 1),)), env)
        elif A.kind == CTTZ:
            v = self.ev(A.data[0], env)
            x = (v & -v).bit_length() - 1 if v else A.data[1]
        elif A.kind == BAND:
            x = self.ev(A.data[0], env) & self.ev(A.data[1], env)
        else:
            x = env["default"](A)
        env[a] = x
        return x

    def ev_cond(self, c, env):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "ge":
            return self.ev(c[1], env) >= 0
        if k == "eq":
            return self.ev(c[1], env) == 0
        if k == "not":
            return not self.ev_cond(c[1], env)
        if k == "and":
            return all(self.ev_cond(x, env) for x in c[1])
        return any(self.ev_cond(x, env) for x in c[1])


_nk = {}


def norm_key(t):
    r = _nk.get(t)
    if r is None:
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if t[0][1] < 0:
            g = -g
        r = (tuple((a, k // g) for a, k in t) if g != 1 else t, g)
        if len(_nk) > 200000:
            _nk.clear()
        _nk[t] = r
    return r


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "not":
        return c[1]
    if k == "ge":
        L = c[1]
        return ("ge", Lin(-L.c - 1, tuple((a, -q) for a, q in L.t)))
    return ("not", c)


def c_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == "and":
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == "or":
            out.extend(c[1])
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", tuple(out))
