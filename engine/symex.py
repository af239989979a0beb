"""Symbolic executor for LLVM IR over the terms of terms.py, depth first, with an SMT solver
kept in step with the path (push/pop)."""
import sys
import time

from ir import IRError
from solver import Solver, STATS
from terms import (BAND, BOOL, CTTZ, DIV, EXT, TAB, VAR, Ctx, Lin, NeedFork, Unsupported, add, c_and, c_not, c_or,
                   is_pow2, lin, scale, sub)

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "ptr(%s+%s)" % (self.obj, self.off)


class Obj:
    """memory object: cells {offset: (size, value)}; values are never partially overlapping"""
    __slots__ = ("size", "cells", "const", "name", "data")

    def __init__(self, size, cells, const, name, data=None):
        self.size, self.cells, self.const, self.name, self.data = size, cells, const, name, data


class Frame:
    __slots__ = ("fn", "env", "blk", "ip", "prev", "retdst", "args")

    def copy(self):
        f = Frame()
        f.fn, f.env, f.blk, f.ip, f.prev, f.retdst = self.fn, self.env[:], self.blk, self.ip, self.prev, self.retdst
        return f


class State:
    __slots__ = ("frames", "mem", "steps", "ret", "notes")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: (o if o.const else Obj(o.size, dict(o.cells), False, o.name)) for k, o in self.mem.items()}
        s.steps = self.steps
        s.notes = list(self.notes)
        return s


class PathEnd(Exception):
    def __init__(self, kind, what):
        self.kind, self.what = kind, what


class Event:
    """something that went wrong on a path: assertion, ub, oob, unreachable, steps"""

    def __init__(self, kind, what):
        self.kind, self.what = kind, what

    def __repr__(self):
        return "%s: %s" % (self.kind, self.what)


class Engine:
    def __init__(self, mod, check_ub=False, prune_rlimit=1000, max_steps=200000, stubs=None):
        self.mod = mod
        self.check_ub = check_ub
        self.prune_rlimit = prune_rlimit
        self.max_steps = max_steps
        self.stubs = stubs or {}
        self.gobjs = {}
        self.gids = {}
        self.used = set()
        self.load_log = None
        self.deadline = None
        self.ext_calls = set()

    # ---------------------------------------------------------------- set-up
    def start(self, hint=None):
        self.ctx = Ctx()
        self.hint = hint
        self.sv = Solver(self.ctx, None)
        self.ctx.bound_check = self.can_hold
        self.pool = []
        self.nobj = 1 << 20
        self.nfresh = 0
        self.on_leaf = None
        self.on_event = None
        self.paths = 0
        self.events = 0
        self.pcond = []

    def set_pool(self, envs):
        """envs: list of {var atom id: value} that satisfy the input assumptions"""
        self.pool = envs

    def fresh(self, name, lo, hi):
        self.nfresh += 1
        return self.ctx.var("%s!%d" % (name, self.nfresh), lo, hi)

    def new_state(self):
        s = State()
        s.frames = []
        s.mem = {}
        s.steps = 0
        s.ret = None
        s.notes = []
        return s

    def alloc(self, st, size, name):
        self.nobj += 1
        st.mem[self.nobj] = Obj(size, {}, False, name)
        return Ptr(self.nobj, 0)

    def enter(self, st, fname, args, retdst=None):
        fn = self.mod.funcs.get(fname)
        if fn is None:
            raise Unsupported("no body: " + fname)
        self.used.add(fname)
        f = Frame()
        f.fn, f.env, f.blk, f.ip, f.prev, f.retdst = fn, [None] * fn.nlocals, 0, 0, None, retdst
        for (t, n), a in zip(fn.params, args):
            f.env[fn.localid[n]] = a
        st.frames.append(f)

    # ---------------------------------------------------------------- conditions on a path
    def can_hold(self, cond):
        """can cond be true on the current path?  (True when in doubt)"""
        cond = self.ctx.c_eval(cond)
        if cond is True or cond is False:
            return cond
        for env in self.pool:
            if self.ctx.ev_cond(cond, env):
                return True
        self.sv.push()
        self.sv.add(cond)
        r = self.sv.check(self.prune_rlimit)
        if r == "sat":
            self.learn()
        self.sv.pop()
        return r != "unsat"

    def learn(self):
        """keep the solver's model as a witness of the current path"""
        env = self.sv.model_values()
        env["default"] = dflt
        # a witness must satisfy the path's conditions (a model of the declared atoms may leave some out)
        for c in self.pcond:
            if not self.ctx.ev_cond(c, env):
                return
        self.pool = self.pool + [env]

    def assume(self, cond):
        self.sv.add(cond)
        self.pcond.append(cond)
        self.ctx.add_fact(cond)
        self.pool = [e for e in self.pool if self.ctx.ev_cond(cond, e)]

    def branch(self, cond, then):
        """then(side) for each feasible side of cond"""
        cond = self.ctx.c_eval(cond)
        if cond is True or cond is False:
            then(cond)
            return
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time limit of the job")
        cond = self.ctx.sharpen(cond)
        ev = self.ctx.ev_cond
        yes, no = [], []
        for e in self.pool:
            (yes if ev(cond, e) else no).append(e)
        saved = self.pool
        for side, c, pool in ((True, cond, yes), (False, self.ctx.sharpen(c_not(cond)), no)):
            m = self.ctx.mark()
            self.sv.push()
            self.sv.add(c)
            np = len(self.pcond)
            self.pcond.append(c)
            self.pool = pool
            ok = True
            if not pool:
                r = self.sv.check(self.prune_rlimit)
                if r == "unsat":
                    ok = False
                elif r == "sat":
                    self.learn()
            if ok:
                self.ctx.add_fact(c)
                then(side)
            self.sv.pop()
            self.ctx.undo(m)
            del self.pcond[np:]
        self.pool = saved

    # ---------------------------------------------------------------- main loop
    def run(self, st):
        """run st to the end of every path"""
        while True:
            fork = None
            try:
                r = self.steps(st)
            except NeedFork as nf:
                fork = nf.cond
            except PathEnd as pe:
                self.paths += 1
                self.events += 1
                self.on_event(st, Event(pe.kind, pe.what))
                return
            if fork is not None:
                self.branch(fork, lambda side: self.run(st.copy()))
                return
            if r == "done":
                self.paths += 1
                self.on_leaf(st)
                return

    def steps(self, st):
        while True:
            f = st.frames[-1]
            code = f.fn.blocks[f.blk][1]
            while True:
                ins = code[f.ip]
                st.steps += 1
                if st.steps > self.max_steps:
                    raise PathEnd("steps", "more than %d steps in %s" % (self.max_steps, f.fn.name))
                r = DISPATCH[ins[0]](self, st, f, ins)
                if r is None:
                    f.ip += 1
                elif r == "jump":
                    break
                elif r == "done":
                    return "done"

    # ---------------------------------------------------------------- operands
    def val(self, f, o, ty=None):
        k = o[0]
        if k == "l":
            v = f.env[o[1]]
            if v is None:
                raise Unsupported("read of unset local in " + f.fn.name)
            return v
        if k == "c":
            return o[1]
        if k == "g":
            return Ptr(self.gobj(o[1]), o[2])
        if k == "null":
            return Ptr(0, 0)
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(o[1])
        if k == "agg":
            return [self.val(f, v, t) for t, v in o[2]]
        raise Unsupported("operand " + k)

    def zero(self, ty):
        if ty.k in ("int", "fp"):
            return 0
        if ty.k == "ptr":
            return Ptr(0, 0)
        if ty.k == "struct":
            return [self.zero(t) for t in ty.elts]
        return [self.zero(ty.elts) for _ in range(ty.n)]

    def defined(self, v, w):
        """an undefined value is arbitrary"""
        if v is UNDEF:
            return self.fresh("undef", 0, (1 << w) - 1)
        return v

    def gobj(self, name):
        g = self.gids.get(name)
        if g is None:
            if name in self.mod.funcs or name in self.mod.declared:
                g = self.gids[name] = len(self.gids) + 1
                self.gobjs[g] = Obj(1, {}, True, name)
                return g
            ty, init, const = self.mod.globals[name]
            g = self.gids[name] = len(self.gids) + 1
            cells = {}
            if init is not None and init[0] != "undef":
                self.flatten(cells, 0, ty, init)
            self.gobjs[g] = Obj(ty.size, cells, True if const else None, name)
        return g

    def flatten(self, cells, off, ty, v):
        k = v[0]
        if k == "zero":
            if ty.k in ("int", "fp"):
                cells[off] = (ty.size, 0)
            elif ty.k == "ptr":
                cells[off] = (ty.size, Ptr(0, 0))
            elif ty.k == "struct":
                for o, t in zip(ty.offs, ty.elts):
                    self.flatten(cells, off + o, t, ("zero", t))
            else:
                for j in range(ty.n):
                    self.flatten(cells, off + j * ty.elts.size, ty.elts, ("zero", ty.elts))
        elif k == "bytes":
            for j, b in enumerate(v[1]):
                cells[off + j] = (1, b)
        elif k == "agg":
            if ty.k == "struct":
                for o, (t, x) in zip(ty.offs, v[2]):
                    self.flatten(cells, off + o, t, x)
            else:
                for j, (t, x) in enumerate(v[2]):
                    self.flatten(cells, off + j * ty.elts.size, t, x)
        elif k == "c":
            cells[off] = (ty.size, v[1])
        elif k == "g":
            cells[off] = (ty.size, Ptr(self.gobj(v[1]), v[2]))
        elif k == "null":
            cells[off] = (ty.size, Ptr(0, 0))

    # ---------------------------------------------------------------- memory
    def obj(self, st, p):
        o = st.mem.get(p.obj)
        if o is None:
            o = self.gobjs.get(p.obj)
            if o is None:
                raise PathEnd("oob", "access through a null or dangling pointer")
            if o.const is None:      # a mutable global: the state gets its own copy
                o = st.mem[p.obj] = Obj(o.size, dict(o.cells), False, o.name)
        return o

    def in_bounds(self, o, off, n):
        if type(off) is int:
            w = self.mod.layout.ptr * 8
            off = (off + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
            if off < 0 or off + n > o.size:
                raise PathEnd("oob", "access of %d bytes at offset %d of %s (%d bytes)" % (n, off, o.name, o.size))
            return off
        off = self.ctx.canon(off, self.mod.layout.ptr * 8, True)
        if type(off) is not int:
            lo, hi = self.ctx.interval(off)
            if lo == hi:
                off = lo
        if type(off) is int:
            return self.in_bounds(o, off, n)
        bad = c_or(self.ctx.ge0(sub(-1, off)), self.ctx.ge0(sub(off, o.size - n + 1)))
        bad = self.ctx.c_eval(bad)
        if bad is True or (bad is not False and self.can_hold(bad)):
            if bad is True:
                raise PathEnd("oob", "access of %d bytes outside %s" % (n, o.name))
            raise NeedFork(bad)
        self.ctx.add_fact(self.ctx_fact(sub(off, 0), 0, o.size - n))
        return off

    def ctx_fact(self, L, lo, hi):
        return c_and(("ge", sub(L, lo)), ("ge", sub(hi, L)))

    def load(self, st, p, n, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("load through a non-pointer")
        o = self.obj(st, p)
        off = self.in_bounds(o, p.off, n)
        if self.load_log is not None and o.const:
            self.load_log.append((o.name, off))
        if type(off) is not int:
            return self.load_sym(st, o, off, n, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self.gather(o, off, n, ty)

    def gather(self, o, off, n, ty):
        """assemble n bytes from cells of other sizes"""
        parts = []
        pos = off
        undef_all = True
        while pos < off + n:
            c = o.cells.get(pos)
            if c is not None:
                sz, v = c
                take = min(sz, off + n - pos)
                parts.append((pos - off, take, v, sz, 0))
                if v is not UNDEF:
                    undef_all = False
                pos += take
                continue
            # inside an earlier cell?
            for back in range(1, 17):
                c = o.cells.get(pos - back)
                if c is not None:
                    if c[0] > back:
                        sz, v = c
                        take = min(sz - back, off + n - pos)
                        parts.append((pos - off, take, v, sz, back))
                        if v is not UNDEF:
                            undef_all = False
                        pos += take
                    else:
                        c = None
                    break
            if c is None:
                parts.append((pos - off, 1, UNDEF, 1, 0))
                pos += 1
        if undef_all:
            return UNDEF
        if len(parts) == 1 and parts[0][2].__class__ is Ptr and parts[0][1] == n:
            return parts[0][2]
        out = 0
        for at, take, v, sz, back in parts:
            if v is UNDEF:
                v = self.fresh("undef", 0, (1 << (8 * take)) - 1)
            elif isinstance(v, Ptr):
                raise Unsupported("partial pointer load")
            else:
                if type(v) is tuple or v is True or v is False:
                    v = self.ctx.boolint(v)
                v = self.ctx.canon(v, 8 * sz)
                if back:
                    v = self.ctx.div(v, 1 << (8 * back))
                if take < sz - back:
                    v = self.ctx.mod(v, 1 << (8 * take))
            out = add(out, scale(v, 1 << (8 * at)))
        return out

    def load_sym(self, st, o, off, n, ty):
        lo, hi = self.ctx.interval(off)
        lo, hi = max(lo, 0), min(hi, o.size - n)
        from math import gcd
        g = 0
        for _, k in off.t:
            g = gcd(g, k)
        r = off.c % g
        first = lo + (r - lo) % g
        if (hi - first) // g > 4096:
            raise Unsupported("symbolic load over a large range")
        A = Lin(off.c // g, tuple((a, k // g) for a, k in off.t))     # off = g*A + r
        vals = []
        for x in range(first, hi + 1, g):
            c = o.cells.get(x)
            v = c[1] if c is not None and c[0] == n else self.gather(o, x, n, ty)
            if type(v) is not int:
                raise NeedFork(self.ctx.eq0(sub(off, x)))
            vals.append(v)
        base = (first - r) // g
        if len(vals) == 1:
            return vals[0]
        f = self.fit(A, vals, base)
        if f is not None:
            return f
        key = ("t", A, tuple(vals), base)
        at = self.ctx._atom(TAB, min(vals), max(vals), (A, tuple(vals), base), key)
        return Lin(0, ((at.id, 1),))

    def fit(self, A, vals, base):
        """a closed form that equals the table on its whole range, if there is a simple one"""
        if all(v == vals[0] for v in vals):
            return vals[0]
        d = vals[1] - vals[0]
        if all(v == vals[0] + d * j for j, v in enumerate(vals)):
            return add(scale(sub(A, base), d), vals[0])
        for t in (10, 100, 1000):
            k = vals[0] - (base // t)
            if all(v == k + (base + j) // t for j, v in enumerate(vals)):
                return add(self.ctx.div(A, t), k)
            k = vals[0] - base % t
            if all(v == k + (base + j) % t for j, v in enumerate(vals)):
                return add(self.ctx.mod(A, t), k)
        return None

    def store(self, st, p, n, v, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("store through a non-pointer")
        o = self.obj(st, p)
        off = self.in_bounds(o, p.off, n)
        if o.const:
            raise PathEnd("oob", "write to constant " + o.name)
        if type(off) is not int:
            lo, hi = self.ctx.interval(off)
            if hi - lo > 4096:
                raise Unsupported("store at a symbolic offset")
            raise NeedFork(self.ctx.eq0(sub(off, lo)))
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            # split what it overlaps into bytes
            for x in range(off - 16, off + n):
                c = cells.get(x)
                if c is not None and x + c[0] > off:
                    if x >= off and x + c[0] <= off + n:
                        del cells[x]
                        continue
                    sz, w = c
                    del cells[x]
                    if w is UNDEF:
                        continue
                    if isinstance(w, Ptr):
                        raise Unsupported("partial pointer overwrite")
                    if type(w) is tuple or w is True or w is False:
                        w = self.ctx.boolint(w)
                    w = self.ctx.canon(w, 8 * sz)
                    for j in range(sz):
                        if not off <= x + j < off + n:
                            cells[x + j] = (1, self.ctx.mod(self.ctx.div(w, 1 << (8 * j)), 256))
        if v is UNDEF:
            cells.pop(off, None)
        else:
            cells[off] = (n, v)

    def length(self, n):
        """a byte count: split by value when symbolic"""
        if type(n) is int:
            return n
        return self.concrete(self.ctx.canon(n, 8 * self.mod.layout.ptr), 64)

    def memset(self, st, d, c, n):
        c = self.ctx.canon(self.defined(c, 8), 8)
        for j in range(self.length(n)):
            self.store(st, Ptr(d.obj, add(d.off, j)), 1, c, None)

    def byte(self, st, p, j):
        return self.ctx.canon(self.defined(self.load(st, Ptr(p.obj, add(p.off, j)), 1, None), 8), 8)

    def strlen(self, st, p, at_most=1 << 16):
        for j in range(at_most):
            c = self.ctx.c_eval(self.ctx.eq0(self.byte(st, p, j)))
            if c is True:
                return j
            if c is not False:
                raise NeedFork(c)
        return at_most

    def memcpy(self, st, d, s, n):
        n = self.length(n)
        if n == 0:
            return
        so = self.obj(st, s)
        soff = self.in_bounds(so, s.off, n)
        do = self.obj(st, d)
        doff = self.in_bounds(do, d.off, n)
        if do.const:
            raise PathEnd("oob", "write to constant " + do.name)
        if type(doff) is not int:
            lo, hi = self.ctx.interval(doff)
            raise NeedFork(self.ctx.eq0(sub(doff, lo)))
        if type(soff) is not int:
            vs = [(j, 1, self.load_sym(st, so, add(soff, j), 1, None)) for j in range(n)]
        else:
            vs = []
            pos = 0
            while pos < n:
                c = so.cells.get(soff + pos)
                if c is not None and pos + c[0] <= n:
                    vs.append((pos, c[0], c[1]))
                    pos += c[0]
                else:
                    vs.append((pos, 1, self.gather(so, soff + pos, 1, None)))
                    pos += 1
        for j, sz, v in vs:
            self.put(do, doff + j, sz, v)

    # ---------------------------------------------------------------- arithmetic
    def ub(self, cond, what):
        """cond: the undefined behaviour happens"""
        cond = self.ctx.c_eval(cond)
        if cond is False:
            return
        if cond is True:
            raise PathEnd("ub", what)
        if self.can_hold(cond):
            raise NeedFork(cond)

    def binop(self, f, op, w, a, b, fl):
        if a is UNDEF or b is UNDEF:
            if self.check_ub:
                raise PathEnd("ub", "use of an uninitialised value in " + f.fn.name)
            a, b = self.defined(a, w), self.defined(b, w)
        ta, tb = type(a), type(b)
        if ta is bool or ta is tuple or tb is bool or tb is tuple:
            if w != 1:
                raise Unsupported("bool operand")
            return self.boolop(op, a, b)
        if w == 1:
            return self.boolop(op, self.tobool(a), self.tobool(b))
        ctx = self.ctx
        M = 1 << w
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return sub(a.off, b.off) % M if type(a.off) is int and type(b.off) is int else sub(a.off, b.off)
            if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.obj, add(a.off, ctx.canon(b, w, True)) if op == "add" else sub(a.off, ctx.canon(b, w, True)))
            if op == "add" and isinstance(b, Ptr):
                return Ptr(b.obj, add(b.off, ctx.canon(a, w, True)))
            raise Unsupported("pointer arithmetic " + op)
        conc = ta is int and tb is int
        if op in ("add", "sub", "mul"):
            if self.check_ub and ("nsw" in fl or "nuw" in fl):
                if "nsw" in fl:
                    sa, sb = ctx.canon(a, w, True), ctx.canon(b, w, True)
                    r = add(sa, sb) if op == "add" else sub(sa, sb) if op == "sub" else ctx.prod(sa, sb)
                    self.ub(c_or(ctx.ge0(sub(r, M >> 1)), ctx.ge0(sub(-(M >> 1) - 1, r))), "signed overflow in " + f.fn.name)
                    return r % M if type(r) is int else r
                sa, sb = ctx.canon(a, w), ctx.canon(b, w)
                r = add(sa, sb) if op == "add" else sub(sa, sb) if op == "sub" else ctx.prod(sa, sb)
                return r % M if type(r) is int else r
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else \
                (a * b if conc else self.mul(a, b, w))
            if type(r) is int:
                return r % M
            if op == "add" and w >= 32 and ta is not int and tb is not int:
                lo, hi = ctx.interval(r)
                if lo < 0 or hi >= M:        # what the operands' own ranges say of the sum
                    (la, ha), (lb, hb) = ctx.interval(a), ctx.interval(b)
                    if la + lb > lo or ha + hb < hi:
                        ctx.sum_fact(r, la + lb, ha + hb)
            return r
        if op in ("udiv", "urem"):
            a, b = ctx.canon(a, w), ctx.canon(b, w)
            b = self.concrete(b)
            if b == 0:
                raise PathEnd("ub", "division by zero in " + f.fn.name)
            if type(a) is int:
                return a // b if op == "udiv" else a % b
            return ctx.div(a, b, not is_pow2(b)) if op == "udiv" else ctx.mod(a, b)
        if op in ("sdiv", "srem"):
            a, b = ctx.canon(a, w, True), self.concrete(ctx.canon(b, w, True))
            if b == 0:
                raise PathEnd("ub", "division by zero in " + f.fn.name)
            if type(a) is not int:
                neg = ctx.ge0(sub(-1, a))
                if neg is not True and neg is not False:
                    raise NeedFork(neg)
                x = scale(a, -1) if neg else a
                q = ctx.div(x, abs(b), not is_pow2(abs(b)))
                if neg != (b < 0):
                    q = scale(q, -1)
            else:
                if self.check_ub and a == -(M >> 1) and b == -1:
                    raise PathEnd("ub", "signed overflow in division in " + f.fn.name)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
            r = q if op == "sdiv" else sub(a, scale(q, b))
            return r % M if type(r) is int else r
        if op in ("shl", "lshr", "ashr"):
            b = ctx.canon(b, w)
            b = self.concrete(b)
            if b >= w:
                if self.check_ub:
                    raise PathEnd("ub", "shift by %d of a %d-bit value in %s" % (b, w, f.fn.name))
                return self.fresh("undef", 0, M - 1)
            if op == "shl":
                r = scale(a, 1 << b)
                return r % M if type(r) is int else r
            a = ctx.canon(a, w, op == "ashr")
            r = ctx.div(a, 1 << b)
            return r % M if type(r) is int else r
        # bitwise
        if conc:
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        if ta is int:
            a, b = b, a
        a = ctx.canon(a, w)
        if type(a) is int:
            return self.binop(f, op, w, a, b, fl)
        if type(b) is int:
            return self.bitconst(op, a, b, w)
        b = ctx.canon(b, w)
        if type(b) is int:
            return self.bitconst(op, a, b, w)
        return self.bitsym(op, a, b, w)

    def mul(self, a, b, w):
        if type(a) is int or type(b) is int:
            # use small multipliers as they are, wide ones unsigned
            return self.ctx.prod(a, b)
        a, b = self.ctx.canon(a, w), self.ctx.canon(b, w)
        for x, y in ((a, b), (b, a)):
            if type(x) is Lin:
                lo, hi = self.ctx.interval(x)
                if lo == hi:
                    return self.ctx.prod(lo, y)
                if hi - lo <= 16:
                    raise NeedFork(self.ctx.eq0(sub(x, lo)))
        return self.ctx.prod(a, b)

    def concrete(self, v, limit=130):
        if type(v) is int:
            return v
        lo, hi = self.ctx.interval(v)
        if lo == hi:
            return lo
        if hi - lo > limit:
            # perhaps the path bounds it
            v2 = self.small_range(v)
            if v2 is None:
                raise Unsupported("symbolic operand where a constant is needed")
            lo, hi = v2
        raise NeedFork(self.ctx.eq0(sub(v, lo)))

    def small_range(self, v):
        return None

    def trailing(self, L):
        """k with 2^k dividing L always"""
        from math import gcd
        g = abs(L.c)
        for _, k in L.t:
            g = gcd(g, k)
        return (g & -g).bit_length() - 1 if g else 999

    def bitconst(self, op, a, b, w):
        ctx = self.ctx
        M = 1 << w
        if op == "xor" and b == M - 1:
            return sub(M - 1, a)
        if op == "and":
            return self.andmask(a, b, w)
        # a|b = a + b - (a&b)
        x = self.andmask(a, b, w)
        return sub(add(a, b), x if op == "or" else scale(x, 2))

    def andmask(self, a, b, w):
        ctx = self.ctx
        lo, hi = ctx.interval(a)
        tz = self.trailing(a)
        out = 0
        i = 0
        while b >> i:
            if not b >> i & 1:
                i += 1
                continue
            j = i
            while b >> j & 1:
                j += 1
            # bits i..j-1 of a
            if j > tz and hi >> i:
                x = a
                if hi >> j or lo < 0:
                    x = ctx.mod(x, 1 << j)
                if i > tz:
                    x = scale(ctx.div(x, 1 << i, False), 1 << i)
                out = add(out, x)
            i = j
        return out

    def bitsym(self, op, a, b, w):
        ctx = self.ctx
        ta, tb = self.trailing(a), self.trailing(b)
        if ctx.interval(a)[1] < 1 << tb or ctx.interval(b)[1] < 1 << ta:
            return 0 if op == "and" else add(a, b)
        ha, hb = ctx.interval(a)[1], ctx.interval(b)[1]
        n = max(ha.bit_length(), hb.bit_length())
        if a == b:
            return a if op in ("and", "or") else 0
        if n == 1:
            x, y = ctx.eq0(sub(a, 1)), ctx.eq0(sub(b, 1))
            return ctx.boolint(self.boolop(op, x, y))
        if n > 8:
            if repr(a.t) > repr(b.t):
                a, b = b, a
            A = ctx._atom(BAND, 0, min(ha, hb), (a, b), ("band", a, b))
            x = Lin(0, ((A.id, 1),))
            return x if op == "and" else sub(add(a, b), x if op == "or" else scale(x, 2))
        out = 0
        for i in range(n):
            x = ctx.eq0(sub(ctx.mod(ctx.div(a, 1 << i), 2), 1))
            y = ctx.eq0(sub(ctx.mod(ctx.div(b, 1 << i), 2), 1))
            out = add(out, scale(ctx.boolint(self.boolop(op, x, y)), 1 << i))
        return out

    def tobool(self, v):
        if v is True or v is False or type(v) is tuple:
            return v
        if v is UNDEF:
            v = self.fresh("undef", 0, 1)
        if type(v) is int:
            return bool(v & 1)
        b = self.ctx.as_bool(v)
        if b is not None:
            return b
        return self.ctx.eq0(sub(self.ctx.mod(v, 2), 1))

    def boolop(self, op, a, b):
        a, b = self.tobool(a), self.tobool(b)
        if op in ("and", "mul"):
            return c_and(a, b)
        if op == "or":
            return c_or(a, b)
        if op in ("xor", "add", "sub"):
            if a is True:
                return c_not(b)
            if b is True:
                return c_not(a)
            if a is False:
                return b
            if b is False:
                return a
            return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        raise Unsupported("i1 " + op)

    def icmp(self, pred, ty, a, b):
        ctx = self.ctx
        if a is UNDEF:
            a = self.defined(a, ty.n)
        if b is UNDEF:
            b = self.defined(b, ty.n)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer compare")
            if a.obj != b.obj:
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
                raise Unsupported("pointer order")
            w = 8 * self.mod.layout.ptr
            if pred[0] == "u":
                pred = "s" + pred[1:]
            a, b = a.off, b.off
        else:
            w = ty.n
        if w == 1:
            x = self.boolop("xor", a, b)
            if pred == "ne":
                return x
            if pred == "eq":
                return c_not(x)
            a, b = self.ctx.boolint(self.tobool(a)), self.ctx.boolint(self.tobool(b))
            if pred[0] == "s":
                a, b = scale(a, -1), scale(b, -1)
            pred = "u" + pred[1:]
            w = 2
        if type(a) is int and type(b) is int:
            if pred[0] == "s":
                h = 1 << (w - 1)
                a, b = (a + h) % (2 * h) - h, (b + h) % (2 * h) - h
            return {"eq": a == b, "ne": a != b}[pred] if pred in ("eq", "ne") else \
                {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]]
        if pred in ("eq", "ne"):
            # a trailing-zero count against a constant is a divisibility condition
            a, b = ctx.canon(a, w), ctx.canon(b, w)
            r = ctx.eq0(sub(a, b))
            return r if pred == "eq" else c_not(r)
        s = pred[0] == "s"
        a, b = ctx.canon(a, w, s), ctx.canon(b, w, s)
        p = pred[1:]
        if p == "lt":
            r = c_not(self.ge(a, b))
        elif p == "ge":
            r = self.ge(a, b)
        elif p == "gt":
            r = c_not(self.ge(b, a))
        else:
            r = self.ge(b, a)
        return r

    def ge(self, a, b):
        D = sub(a, b)
        if type(D) is Lin and len(D.t) == 1 and abs(D.t[0][1]) == 1:
            A = self.ctx.atoms[D.t[0][0]]
            if A.kind == CTTZ:
                L, w = A.data
                if D.t[0][1] == 1:       # cttz + c >= 0
                    return self.cttz_ge(L, w, -D.c)
                return c_not(self.cttz_ge(L, w, D.c + 1))    # -cttz + c >= 0
        return self.ctx.ge0(D)

    def cttz_ge(self, L, w, k):
        if k <= 0:
            return True
        if k > w:
            return False
        return self.ctx.eq0(self.ctx.mod(L, 1 << k))


def dflt(A):
    return A.lo if A.lo > 0 else 0 if A.hi >= 0 else A.hi


# ------------------------------------------------------------------------------ instructions
def x_bin(E, st, f, ins):
    _, dst, op, ty, a, b, fl = ins
    if ty.k != "int":
        raise Unsupported("vector arithmetic")
    f.env[dst] = E.binop(f, op, ty.n, E.val(f, a), E.val(f, b), fl)


def x_icmp(E, st, f, ins):
    _, dst, pred, ty, a, b = ins
    f.env[dst] = E.icmp(pred, ty, E.val(f, a), E.val(f, b))


def fp_parts(E, v, n):
    """(sign condition, magnitude bits, not-a-NaN condition) of a floating-point word"""
    v = E.ctx.canon(E.defined(v, n), n)
    h = 1 << (n - 1)
    m = E.ctx.mod(v, h)
    inf = {32: 0x7f800000, 64: 0x7ff << 52}[n]
    return E.ctx.ge0(sub(v, h)), m, E.ctx.ge0(sub(inf, m))


def x_fneg(E, st, f, ins):
    _, dst, ty, a = ins
    if ty.k != "fp" or ty.n not in (32, 64):
        raise Unsupported("fneg")
    v = add(E.ctx.canon(E.defined(E.val(f, a), ty.n), ty.n), 1 << (ty.n - 1))
    f.env[dst] = v % (1 << ty.n) if type(v) is int else v


def x_fcmp(E, st, f, ins):
    _, dst, pred, ty, a, b = ins
    if ty.k != "fp" or ty.n not in (32, 64):
        raise Unsupported("fcmp")
    ge0, eq0 = E.ctx.ge0, E.ctx.eq0
    sa, ma, oka = fp_parts(E, E.val(f, a), ty.n)
    sb, mb, okb = fp_parts(E, E.val(f, b), ty.n)
    ordered = c_and(oka, okb)
    zero = c_and(eq0(ma), eq0(mb))
    same = c_or(c_and(sa, sb), c_and(c_not(sa), c_not(sb)))
    eq = c_or(zero, c_and(same, eq0(sub(ma, mb))))
    lt = c_or(c_and(sa, c_not(sb), c_not(zero)), c_and(c_not(sa), c_not(sb), ge0(sub(sub(mb, ma), 1))),
              c_and(sa, sb, ge0(sub(sub(ma, mb), 1))))
    if pred in ("true", "false"):
        f.env[dst] = pred == "true"
        return
    if pred in ("ord", "uno"):
        r = ordered
        f.env[dst] = r if pred == "ord" else c_not(r)
        return
    r = {"eq": eq, "ne": c_not(eq), "lt": lt, "le": c_or(lt, eq), "gt": c_and(c_not(lt), c_not(eq)),
         "ge": c_not(lt)}[pred[1:]]
    f.env[dst] = c_and(ordered, r) if pred[0] == "o" else c_or(c_not(ordered), r)


def x_cast(E, st, f, ins):
    _, dst, op, sty, tty, a = ins
    v = E.val(f, a)
    if op == "bitcast":
        f.env[dst] = v
        return
    if op == "ptrtoint" or op == "inttoptr":
        f.env[dst] = v
        return
    if v is UNDEF:
        f.env[dst] = UNDEF
        return
    if isinstance(v, Ptr):
        if op in ("zext", "sext", "trunc") and tty.n >= 8 * E.mod.layout.ptr:
            f.env[dst] = v
            return
        raise Unsupported("cast of pointer")
    if sty.n == 1:
        v = E.tobool(v)
        r = E.ctx.boolint(v)
        if op == "sext":
            r = scale(r, -1)
            if type(r) is int:
                r %= 1 << tty.n
        f.env[dst] = r
        return
    if op == "zext":
        f.env[dst] = E.ctx.canon(v, sty.n)
    elif op == "sext":
        r = E.ctx.canon(v, sty.n, True)
        f.env[dst] = r % (1 << tty.n) if type(r) is int else r
    elif op == "trunc":
        if tty.n == 1:
            f.env[dst] = E.tobool(v)
        else:
            f.env[dst] = v % (1 << tty.n) if type(v) is int else v


def load_any(E, st, p, ty):
    if ty.k == "struct":
        return [load_any(E, st, Ptr(p.obj, add(p.off, o)), t) for o, t in zip(ty.offs, ty.elts)]
    if ty.k == "arr":
        return [load_any(E, st, Ptr(p.obj, add(p.off, j * ty.elts.size)), ty.elts) for j in range(ty.n)]
    return E.load(st, p, ty.size, ty)


def x_load(E, st, f, ins):
    _, dst, ty, p = ins
    v = load_any(E, st, E.val(f, p), ty)
    if ty.k == "int" and ty.n == 1:
        v = E.tobool(v)
    f.env[dst] = v


def x_store(E, st, f, ins):
    _, _, ty, v, p = ins
    v = E.val(f, v)
    if ty.k in ("struct", "arr"):
        pp = E.val(f, p)
        for j, t in enumerate(ty.elts if ty.k == "struct" else [ty.elts] * ty.n):
            o = ty.offs[j] if ty.k == "struct" else j * ty.elts.size
            E.store(st, Ptr(pp.obj, add(pp.off, o)), t.size, v[j], t)
        return
    if type(v) is tuple or v is True or v is False:
        v = E.ctx.boolint(v)
    E.store(st, E.val(f, p), ty.size, v, ty)


def x_alloca(E, st, f, ins):
    _, dst, ty, n = ins
    n = E.val(f, n)
    if type(n) is not int:
        raise Unsupported("alloca of symbolic size")
    f.env[dst] = E.alloc(st, ty.size * n, "local of " + f.fn.name)


def x_gep(E, st, f, ins):
    _, dst, sty, base, idx = ins
    p = E.val(f, base)
    if not isinstance(p, Ptr):
        raise Unsupported("gep on a non-pointer")
    off = p.off
    t = sty
    for j, (it, iv) in enumerate(idx):
        v = E.val(f, iv)
        if type(v) is int:
            if v >> (it.n - 1):
                v -= 1 << it.n
        elif v is UNDEF:
            raise Unsupported("gep undef")
        else:
            v = E.ctx.canon(v, it.n, True)
        if j == 0:
            off = add(off, scale(v, t.size))
        elif t.k == "struct":
            off = add(off, t.offs[v])
            t = t.elts[v]
        else:
            t = t.elts
            off = add(off, scale(v, t.size))
    f.env[dst] = Ptr(p.obj, off)


def goto(E, f, lab):
    fn = f.fn
    me = fn.blocks[f.blk][0]
    nb = fn.bindex[lab]
    code = fn.blocks[nb][1]
    ip = 0
    vals = []
    while code[ip][0] == "phi":
        _, dst, ty, inc = code[ip]
        for v, l in inc:
            if l == me:
                vals.append((dst, E.val(f, v)))
                break
        else:
            raise Unsupported("phi")
        ip += 1
    for d, v in vals:
        f.env[d] = v
    f.blk, f.ip = nb, ip
    return "jump"


def x_jmp(E, st, f, ins):
    return goto(E, f, ins[2])


def cond_of(E, v):
    c = E.tobool(v)
    if c is True or c is False:
        return c
    c = E.ctx.c_eval(c)
    if c is True or c is False:
        return c
    raise NeedFork(c)


def x_br(E, st, f, ins):
    c = cond_of(E, E.val(f, ins[2]))
    return goto(E, f, ins[3] if c else ins[4])


def x_switch(E, st, f, ins):
    _, _, ty, v, d, cases = ins
    v = E.val(f, v)
    if v is UNDEF:
        v = E.defined(v, ty.n)
    if type(v) is tuple or v is True or v is False:
        v = E.ctx.boolint(v)
    v = E.ctx.canon(v, ty.n)
    for cv, lab in cases:
        c = E.ctx.eq0(sub(v, cv))
        if c is True:
            return goto(E, f, lab)
        if c is not False:
            raise NeedFork(c)
    return goto(E, f, d)


def x_select(E, st, f, ins):
    _, dst, ty, c, a, b = ins
    c = E.tobool(E.val(f, c))
    if c is not True and c is not False:
        c = E.ctx.c_eval(c)
    if c is True:
        f.env[dst] = E.val(f, a)
    elif c is False:
        f.env[dst] = E.val(f, b)
    else:
        x, y = E.val(f, a), E.val(f, b)
        if ty.k == "int" and ty.n == 1:
            x, y = E.tobool(x), E.tobool(y)
            f.env[dst] = c_or(c_and(c, x), c_and(c_not(c), y))
        elif type(x) in (int, Lin) and x == y:
            f.env[dst] = x
        else:
            raise NeedFork(c)


def x_ret(E, st, f, ins):
    v = E.val(f, ins[3]) if ins[3] is not None else None
    st.frames.pop()
    if not st.frames:
        st.ret = v
        return "done"
    g = st.frames[-1]
    if f.retdst is not None:
        g.env[f.retdst] = v
    g.ip += 1
    return "jump"


def x_unreachable(E, st, f, ins):
    raise PathEnd("ub", "unreachable code reached in " + f.fn.name)


def x_extractvalue(E, st, f, ins):
    _, dst, ty, v, idx = ins
    v = E.val(f, v)
    for i in idx:
        if v is UNDEF:
            break
        v = v[i]
    f.env[dst] = v


def x_insertvalue(E, st, f, ins):
    _, dst, ty, v, et, e, idx = ins
    v = E.val(f, v)
    if v is UNDEF:
        v = mkundef(ty)
    e = E.val(f, e)
    v = copyagg(v)
    x = v
    for i in idx[:-1]:
        x = x[i]
    x[idx[-1]] = e
    f.env[dst] = v


def mkundef(ty):
    if ty.k == "struct":
        return [mkundef(t) for t in ty.elts]
    if ty.k == "arr":
        return [mkundef(ty.elts) for _ in range(ty.n)]
    return UNDEF


def copyagg(v):
    return [copyagg(x) for x in v] if type(v) is list else v


def x_freeze(E, st, f, ins):
    _, dst, ty, v = ins
    v = E.val(f, v)
    if v is UNDEF and ty.k == "int":
        v = E.defined(v, ty.n)
    f.env[dst] = v


def x_unsupported(E, st, f, ins):
    raise Unsupported("instruction: " + ins[2][:100])


ASSERT_FNS = ("@__assert_fail", "@__assert", "@_assert", "@__assert_rtn", "@abort", "@_ZSt9terminatev",
              "@_ZSt21__glibcxx_assert_failPKciS0_S0_")


def x_call(E, st, f, ins):
    _, dst, rt, fn, args, bad = ins
    if bad:
        raise Unsupported("call: " + bad)
    if type(fn) is tuple:
        p = E.val(f, fn)
        if not isinstance(p, Ptr):
            raise Unsupported("call through a non-pointer")
        if p.obj == 0:
            raise PathEnd("oob", "call through a null pointer")
        o = E.gobjs.get(p.obj)
        if o is None or o.name not in E.mod.funcs and o.name not in E.mod.declared:
            raise Unsupported("call through a pointer to data")
        fn = o.name
    if fn in E.stubs:
        r = E.stubs[fn](E, st, [E.val(f, v) for _, v in args])
        if dst is not None:
            f.env[dst] = r
        return
    if fn.startswith("@llvm."):
        return intrinsic(E, st, f, ins)
    if fn in E.mod.funcs:
        E.enter(st, fn, [E.val(f, v) for _, v in args], dst)
        if len(st.frames) > 200:
            raise PathEnd("steps", "recursion")
        return "jump"
    if fn in ASSERT_FNS:
        what = ""
        if args and fn == "@__assert_fail":
            try:
                g = E.mod.globals[args[0][1][1]]
                what = g[1][1].rstrip(b"\0").decode()
            except Exception:
                pass
        raise PathEnd("assert", "assertion failed: %s in %s" % (what, f.fn.name))
    if fn in ("@memcpy", "@memmove"):
        d, s, n = [E.val(f, v) for _, v in args[:3]]
        E.memcpy(st, d, s, n)
        if dst is not None:
            f.env[dst] = d
        return
    if fn == "@memset":
        d, c, n = [E.val(f, v) for _, v in args[:3]]
        E.memset(st, d, c, n)
        if dst is not None:
            f.env[dst] = d
        return
    if fn in ("@strlen", "@strcpy", "@stpcpy", "@memcmp", "@bcmp", "@strcmp", "@strncmp"):
        v = [E.val(f, x) for _, x in args]
        if fn == "@strlen":
            r = E.strlen(st, v[0])
        elif fn in ("@strcpy", "@stpcpy"):
            n = E.strlen(st, v[1])
            E.memcpy(st, v[0], v[1], n + 1)
            r = v[0] if fn == "@strcpy" else Ptr(v[0].obj, add(v[0].off, n))
        else:
            r = 0
            for j in range(E.length(v[2]) if len(v) > 2 else 1 << 16):
                a, b = E.byte(st, v[0], j), E.byte(st, v[1], j)
                c = E.ctx.c_eval(E.ctx.eq0(sub(a, b)))
                if c is False:
                    less = E.ctx.c_eval(E.ctx.ge0(sub(a, b)))
                    if less is not True and less is not False:
                        raise NeedFork(less)
                    r = 1 if less else (1 << 32) - 1
                    break
                if c is not True:
                    raise NeedFork(c)
                if fn in ("@strcmp", "@strncmp"):
                    z = E.ctx.c_eval(E.ctx.eq0(a))
                    if z is True:
                        break
                    if z is not False:
                        raise NeedFork(z)
        if dst is not None:
            f.env[dst] = r
        return
    raise Unsupported("call of " + fn)


def intrinsic(E, st, f, ins):
    _, dst, rt, fn, args, _ = ins
    name = fn[6:]
    if name.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "donothing", "var.annotation", "stackrestore")):
        return
    v = [E.val(f, x) for _, x in args]
    ctx = E.ctx
    if name.startswith("memcpy") or name.startswith("memmove"):
        E.memcpy(st, v[0], v[1], v[2])
    elif name.startswith("memset"):
        E.memset(st, v[0], v[1], v[2])
    elif name.startswith("expect"):
        f.env[dst] = v[0]
    elif name.startswith("is.constant"):
        f.env[dst] = False
    elif name.startswith("trap"):
        raise PathEnd("assert", "trap")
    elif name.startswith("stacksave"):
        f.env[dst] = Ptr(0, 0)
    elif name.startswith(("cttz", "ctlz", "ctpop")):
        w = args[0][0].n
        x = ctx.canon(E.defined(v[0], w), w)
        if type(x) is int:
            if name.startswith("cttz"):
                r = (x & -x).bit_length() - 1 if x else w
            elif name.startswith("ctlz"):
                r = w - x.bit_length()
            else:
                r = bin(x).count("1")
            if x == 0 and len(v) > 1 and v[1] in (1, True) and E.check_ub:
                raise PathEnd("ub", "count of zeros of 0")
            f.env[dst] = r
        elif name.startswith("cttz"):
            if len(v) > 1 and v[1] in (1, True):
                E.ub(ctx.eq0(x), "count of trailing zeros of 0")
            a = ctx._atom(CTTZ, 0, w, (x, w), ("z", x, w))
            f.env[dst] = Lin(0, ((a.id, 1),))
        elif name.startswith("ctlz"):
            lo, hi = ctx.interval(x)
            n = hi.bit_length()
            if lo.bit_length() == n:
                f.env[dst] = w - n
            else:
                raise NeedFork(ctx.ge0(sub(x, 1 << (n - 1))))
        else:
            r = 0
            for j in range(w):
                r = add(r, ctx.mod(ctx.div(x, 1 << j), 2))
            f.env[dst] = r
    elif name.startswith(("umin", "umax", "smin", "smax", "abs")):
        w = rt.n
        s = name[0] != "u"
        a = ctx.canon(v[0], w, s)
        if name.startswith("abs"):
            c = ctx.ge0(a)
            if c is not True and c is not False:
                raise NeedFork(c)
            r = a if c else scale(a, -1)
        else:
            b = ctx.canon(v[1], w, s)
            c = ctx.ge0(sub(a, b))
            if c is not True and c is not False:
                raise NeedFork(c)
            r = (a if c else b) if "max" in name else (b if c else a)
        f.env[dst] = r % (1 << w) if type(r) is int else r
    elif name.startswith(("uadd.with", "usub.with", "umul.with", "sadd.with", "ssub.with", "smul.with")):
        w = args[0][0].n
        s = name[0] == "s"
        a, b = ctx.canon(v[0], w, s), ctx.canon(v[1], w, s)
        r = add(a, b) if name[1:4] == "add" else sub(a, b) if name[1:4] == "sub" else ctx.prod(a, b)
        lo = -(1 << (w - 1)) if s else 0
        ov = c_or(ctx.ge0(sub(lo - 1, r)), ctx.ge0(sub(r, lo + (1 << w))))
        f.env[dst] = [r % (1 << w) if type(r) is int else r, ov]
    elif name.startswith(("fshl", "fshr")):
        w = rt.n
        k = E.concrete(ctx.canon(v[2], w)) % w
        if name.startswith("fshr"):
            k = (w - k) % w
        if k == 0:
            f.env[dst] = v[0] if name.startswith("fshl") or True else v[1]
            if name.startswith("fshr"):
                f.env[dst] = v[1]
        else:
            a, b = ctx.canon(v[0], w), ctx.canon(v[1], w)
            r = add(scale(ctx.mod(a, 1 << (w - k)), 1 << k), ctx.div(b, 1 << (w - k)))
            f.env[dst] = r
    elif name.startswith("bswap"):
        w = rt.n
        a = ctx.canon(v[0], w)
        r = 0
        for j in range(w // 8):
            r = add(r, scale(ctx.mod(ctx.div(a, 1 << (8 * j)), 256), 1 << (w - 8 - 8 * j)))
        f.env[dst] = r
    elif name.startswith("fabs"):
        n = rt.n
        f.env[dst] = ctx.mod(ctx.canon(E.defined(v[0], n), n), 1 << (n - 1))
    elif name.startswith("copysign"):
        n = rt.n
        a, b = (ctx.canon(E.defined(x, n), n) for x in v[:2])
        h = 1 << (n - 1)
        f.env[dst] = add(ctx.mod(a, h), scale(ctx.div(b, h), h))
    elif name.startswith("is.fpclass"):
        n = args[0][0].n
        s, m, ok = fp_parts(E, v[0], n)
        p = {32: 23, 64: 52}[n]
        inf = {32: 0x7f800000, 64: 0x7ff << 52}[n]
        quiet = ctx.ge0(sub(m, inf + (1 << (p - 1))))
        isinf = ctx.eq0(sub(m, inf))
        sub_ = c_and(ctx.ge0(sub((1 << p) - 1, m)), ctx.ge0(sub(m, 1)))
        norm = c_and(ctx.ge0(sub(m, 1 << p)), ctx.ge0(sub(inf - 1, m)))
        zero = ctx.eq0(m)
        cls = [c_and(c_not(ok), c_not(quiet)), quiet, c_and(s, isinf), c_and(s, norm), c_and(s, sub_), c_and(s, zero),
               c_and(c_not(s), zero), c_and(c_not(s), sub_), c_and(c_not(s), norm), c_and(c_not(s), isinf)]
        f.env[dst] = c_or(*[c for j, c in enumerate(cls) if v[1] >> j & 1])
    elif name.startswith("ptrmask"):
        raise Unsupported(name)
    else:
        raise Unsupported("intrinsic " + name)


DISPATCH = {"bin": x_bin, "icmp": x_icmp, "fneg": x_fneg, "fcmp": x_fcmp, "cast": x_cast, "load": x_load, "store": x_store, "alloca": x_alloca,
            "gep": x_gep, "jmp": x_jmp, "br": x_br, "switch": x_switch, "select": x_select, "ret": x_ret,
            "unreachable": x_unreachable, "extractvalue": x_extractvalue, "insertvalue": x_insertvalue,
            "freeze": x_freeze, "call": x_call, "unsupported": x_unsupported}
