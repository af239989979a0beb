"""Concrete inputs of one exponent field that are likely to take rare paths.  They only steer the search: they keep
feasible branches alive without a solver call, and give counterexamples without one."""


def first_in_window(a, m, l, r):
    """the smallest t >= 0 with l <= a*t mod m <= r (0 <= l <= r < m), or None"""
    a %= m
    if l == 0:
        return 0
    if a == 0:
        return None
    if 2 * a > m:
        a, l, r = m - a, m - r, m - l
    t = (l + a - 1) // a
    if t * a <= r:
        return t
    # some multiple of m is needed: a*t in [l + m*y, r + m*y]; m*y mod a must land in [-r, -l] mod a
    y = first_in_window(m % a, a, (-r) % a, (-l) % a)
    if y is None:
        return None
    return (l + m * y + a - 1) // a


def near(A, B, M, width, tmax):
    """some t in [0, tmax] with (A*t + B) mod M in [0, width), or None"""
    l = (-B) % M
    r = l + width - 1
    c = []
    if r < M:
        c = [first_in_window(A, M, l, r)]
    else:
        c = [first_in_window(A, M, l, M - 1), 0 if r - M >= 0 else None]
    for t in c:
        if t is not None and t <= tmax and (A * t + B) % M < width:
            return t
    return None


def candidates(rnd, p, e, n0, lo, hi, rich=True):
    """mantissas m in [lo, hi]; the value is (n0 + m) * 2^e"""
    out = set()
    if hi - lo < 8:
        return list(range(lo, hi + 1))
    for _ in range(8):
        out.add(rnd.randrange(lo, hi + 1))
    out.update((lo, lo + 1, hi, hi - 1))
    for _ in range(4):
        sh = rnd.randrange(0, p)
        out.add((rnd.randrange(1, 1 << (p - sh)) << sh))
    n_lo, n_hi = n0 + lo, n0 + hi
    top = len(str((n_hi << e) if e >= 0 else max(1, (n_hi * 10 ** 400) >> -e))) - (0 if e >= 0 else 400)
    # short decimals
    for X in range(top - 19, top + 1):
        num = 10 ** max(X, 0) << max(-e, 0)
        den = (1 << max(e, 0)) * 10 ** max(-X, 0)     # n = N * num / den
        a, b = -(-n_lo * den // num), n_hi * den // num
        for _ in range(2):
            if a > b:
                break
            N = rnd.randrange(a, b + 1)
            q, r = divmod(N * num, den)
            out.add(q - n0)
            out.add(q + (r != 0) - n0)
    if rich:
        # 10^-X * v, and the middle points next to v, very close to an integer or to a half
        for X in range(top - 18, top + 1):
            num = 10 ** max(X, 0) << max(-e, 0)
            den = (1 << max(e, 0)) * 10 ** max(-X, 0)
            for off in rnd.sample((0, 2, -2, 4, -4, 1, -1), 2):      # quarter units of the last place
                for half in (0, 1):
                    # 4*n + off = k * 4*num/den (+ half of it)
                    A = 8 * den
                    M = 8 * num
                    B = (4 * n_lo + off) * 2 * den - (4 * num if half else 0)
                    width = max(1, (M << 2) // (n_hi - n_lo + 1))
                    t = near(A, B, M, width, n_hi - n_lo)
                    if t is not None:
                        out.add(n_lo + t - n0)
                    t = near(-A % M, -B, M, width, n_hi - n_lo)
                    if t is not None:
                        out.add(n_lo + t - n0)
        # exact multiples of powers of five and of two
        for k in rnd.sample(range(1, 24), 8):
            q = 5 ** k
            for num, den in ((0, 1), (1, 2), (-1, 2)):
                # den*n + num = q * odd
                j = (den * n_lo + num) // q + 1
                for jj in (j, j + 1, j + rnd.randrange(0, max(1, (n_hi - n_lo) * den // q))):
                    u = q * jj - num
                    if u % den == 0:
                        out.add(u // den - n0)
    return [m for m in out if lo <= m <= hi]
