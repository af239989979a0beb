"""Exact oracle (plain integers): what a decimal result must satisfy.  Used to confirm a counterexample of the
solver on the output of the compiled code, never to decide a property."""
from fractions import Fraction

P = {"d": (52, 11, 1075), "f": (23, 8, 150)}


def decode(fmt, bits):
    p, eb, bias = P[fmt]
    m = bits & ((1 << p) - 1)
    E = bits >> p & ((1 << eb) - 1)
    return bits >> (p + eb), E, m


def value(fmt, bits):
    s, E, m = decode(fmt, bits)
    p, eb, bias = P[fmt]
    n = m + (1 << p) if E else m
    e = max(E, 1) - bias
    return s, n, e, (m == 0 and E > 1)


def pow2(e):
    return Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)


def pow10(k):
    return Fraction(10 ** k) if k >= 0 else Fraction(1, 10 ** -k)


def interval(fmt, mode, bits):
    """the reals that read back as |x|: (lo, lo closed, hi, hi closed), v"""
    s, n, e, edge = value(fmt, bits)
    ulp = pow2(e)
    v = n * ulp
    even = n % 2 == 0
    left = ulp / 2 if edge else ulp
    if mode in ("tpi", "tmi", "tz", "az"):
        up = {"tpi": not s, "tmi": bool(s), "tz": False, "az": True}[mode]
        if up:
            return v - left, False, v, True, v
        return v, True, v + ulp, False, v
    base = mode[:-1] if mode in ("nes", "nos", "npis", "nmis") else mode
    lc, hc = {"ne": (even, even), "no": (not even, not even), "npi": (not s, bool(s)), "nmi": (bool(s), not s),
              "ntz": (False, True), "naz": (True, False)}[base]
    return v - left / 2, lc, v + ulp / 2, hc, v


def contains(I, x):
    lo, lc, hi, hc, _ = I
    return (lo <= x if lc else lo < x) and (x <= hi if hc else x < hi)


def multiples(I, X):
    """all K with K*10^X in the interval, as a range"""
    lo, lc, hi, hc, _ = I
    q = pow10(X)
    a, b = lo / q, hi / q
    ka = -(-a.numerator // a.denominator)
    if not lc and ka == a:
        ka += 1
    kb = b.numerator // b.denominator
    if not hc and kb == b:
        kb -= 1
    return range(max(ka, 1), kb + 1)


def best(fmt, mode, bits):
    """(length, candidates): all shortest decimals of the interval, as (K, X)"""
    I = interval(fmt, mode, bits)
    hi = I[2]
    top = len(str(hi.numerator)) - len(str(hi.denominator)) + 1
    X = top
    while not len(multiples(I, X)):
        X -= 1
    ks = multiples(I, X)
    d = min(len(str(k)) for k in ks)
    out = [(k, X) for k in ks if len(str(k)) == d]
    for j in range(1, 3):
        k = 10 ** d - 1
        while len(str(k)) == d and contains(I, k * pow10(X - j)):
            out.append((k, X - j))
            k -= 1
    return d, out, I


def judge(fmt, mode, cr, bits, N, X, neg=None):
    """the set of requirements that the result N*10^X breaks"""
    bad = set()
    s, n, e, edge = value(fmt, bits)
    if neg is not None and bool(neg) != bool(s):
        bad.add("sign")
    d, cand, I = best(fmt, mode, bits)
    v = I[4]
    r = N * pow10(X)
    if N <= 0 or N >= 10 ** (17 if fmt == "d" else 9) or N % 10 == 0 or \
            not (-324 <= X <= 308 if fmt == "d" else -45 <= X <= 38):
        bad.add("digits")
    if N <= 0 or not contains(I, r):
        bad.add("inside")
        return bad
    if len(str(N)) > d:
        bad.add("shortest")
        return bad
    if cr != "dnc":
        m = min(abs(k * pow10(x) - v) for k, x in cand)
        if abs(r - v) != m:
            bad.add("closest")
        else:
            ties = [(k, x) for k, x in cand if abs(k * pow10(x) - v) == m]
            if len(ties) == 2 and ties[0][1] == ties[1][1]:
                lo, hi = sorted(k for k, x in ties)
                good = {"even": lo if lo % 2 == 0 else hi, "odd": lo if lo % 2 else hi, "up": hi, "down": lo}[cr]
                if N != good:
                    bad.add("tie")
    return bad
