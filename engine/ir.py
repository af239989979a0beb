"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that
`clang -O1 -Xclang -disable-llvm-passes | opt -passes=function(sroa)` emits.

The result is a Module of Functions; each Function is a list of basic blocks of
instructions represented as small tuples.  No semantics here (see symex.py)."""
import re
import struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z0-9_.]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<p>[=,(){}\[\]<>*|:])
''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elts", "size", "align", "offs", "packed")

    def __init__(self, k, n=0, elts=None, packed=False):
        self.k, self.n, self.elts, self.packed = k, n, elts, packed
        self.size = self.align = self.offs = None

    def __repr__(self):
        return {"int": "i%d" % self.n}.get(self.k, self.k + str(self.elts or ""))


class Layout:
    def __init__(self, datalayout):
        self.ptr = 8
        self.ialign = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}
        self.falign = {32: 4, 64: 8}
        parts = datalayout.split("-")
        if "p:32:32" in parts:
            self.ptr = 4
            self.ialign[64] = 4
        for p in parts:
            m = re.match(r"i(\d+):(\d+)", p)
            if m:
                self.ialign[int(m[1])] = int(m[2]) // 8
            m = re.match(r"f(\d+):(\d+)", p)
            if m:
                self.falign[int(m[1])] = int(m[2]) // 8

    def finish(self, t):
        if t.size is not None:
            return t
        if t.k == "int":
            b = (t.n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            t.align = self.ialign.get(s * 8, min(s, 16))
            t.size = b if b == s else (b + t.align - 1) // t.align * t.align
        elif t.k == "fp":
            t.size = t.n // 8
            t.align = self.falign.get(t.n, t.size)
        elif t.k == "ptr":
            t.size = t.align = self.ptr
        elif t.k in ("arr", "vec"):
            self.finish(t.elts)
            t.size, t.align = t.elts.size * t.n, t.elts.align
        elif t.k == "struct":
            off, al, offs = 0, 1, []
            for e in t.elts:
                self.finish(e)
                if not t.packed:
                    off = (off + e.align - 1) // e.align * e.align
                    al = max(al, e.align)
                offs.append(off)
                off += e.size
            t.size, t.align, t.offs = (off + al - 1) // al * al, al, offs
        else:
            t.size = t.align = 0
        return t


class Function:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []      # [(Ty, localname)]
        self.blocks = []      # [(label, [ins])]
        self.bindex = {}
        self.nlocals = 0
        self.localid = {}
        self.code = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (Ty, const init operand or None, is_const)
        self.funcs = {}
        self.declared = {}
        self.layout = None
        self.triple = ""


ATTR_WORDS = set("""noundef nonnull zeroext signext nocapture readonly writeonly noalias
 immarg returned inreg nofree readnone nest swiftself swifterror allocptr captures dead_on_unwind writable dead_on_return""".split())
LINKAGE = set("""private internal available_externally linkonce weak common appending extern_weak
 linkonce_odr weak_odr external dso_local dso_preemptable hidden protected default unnamed_addr
 local_unnamed_addr thread_local externally_initialized fastcc ccc coldcc""".split())


def cstring(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Line:
    """token cursor"""

    def __init__(self, text, mod):
        self.mod = mod
        toks = []
        pos, n = 0, len(text)
        while pos < n:
            if text[pos] == ";":
                break
            m = TOK.match(text, pos)
            if not m:
                raise IRError("cannot tokenize: " + text[pos:pos + 60])
            pos = m.end()
            if m.lastgroup != "ws":
                toks.append((m.lastgroup, m.group()))
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r, found %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)[:300]))

    # ---- types
    def type(self):
        tok = self.next()
        mod = self.mod
        if tok == "void":
            t = Ty("void")
        elif tok == "ptr":
            t = Ty("ptr")
            if self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif tok in ("float", "double", "half", "x86_fp80", "fp128"):
            t = Ty("fp", {"float": 32, "double": 64, "half": 16, "x86_fp80": 80, "fp128": 128}[tok])
        elif tok in ("label", "metadata", "token"):
            t = Ty(tok)
        elif tok == "opaque":
            t = Ty("void")
        elif re.fullmatch(r"i\d+", tok):
            t = Ty("int", int(tok[1:]))
        elif tok == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif tok == "<" and self.peek() == "{":
            self.next()
            t = self._struct(True)
            self.expect(">")
        elif tok == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = Ty("vec", n, e)
        elif tok == "{":
            t = self._struct(False)
        elif tok[0] == "%":
            if tok not in mod.types:
                raise IRError("unknown type " + tok)
            t = mod.types[tok]
        else:
            raise IRError("type? %r in %s" % (tok, " ".join(x[1] for x in self.t)[:200]))
        if self.peek() == "(":      # function type
            d = 0
            while True:
                x = self.next()
                d += x == "("
                d -= x == ")"
                if d == 0:
                    break
            t = Ty("func")
        mod.layout.finish(t)
        return t

    def _struct(self, packed):
        elts = []
        if not self.accept("}"):
            while True:
                elts.append(self.type())
                if self.accept("}"):
                    break
                self.expect(",")
        return Ty("struct", 0, elts, packed)

    # ---- operands
    def value(self, ty):
        """('l', name) | ('c', python constant) | ('g', name, off) | ('agg', ty, [..]) | ('undef',)"""
        k, tok = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("l", tok)
        if k == "glob":
            return ("g", tok, 0)
        if k == "num":
            if ty.k == "fp":
                x = float(tok)
                return ("c", fpbits(x, ty.n))
            return ("c", int(tok) & ((1 << ty.n) - 1))
        if k == "hex":
            if tok[2] in "KLMHR":
                raise IRError("fp const " + tok)
            bits = int(tok, 16)
            if ty.n == 32:
                bits = struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", bits))[0]))[0]
            return ("c", bits)
        if tok == "true":
            return ("c", 1)
        if tok == "false":
            return ("c", 0)
        if tok == "null":
            return ("null",)
        if tok in ("undef", "poison"):
            return ("undef",)
        if tok == "zeroinitializer":
            return ("zero", ty)
        if k == "str":
            return ("bytes", cstring(tok))
        if tok == "[" or tok == "{" or tok == "<":
            close = {"[": "]", "{": "}", "<": ">"}[tok]
            packed = False
            if tok == "<" and self.peek() == "{":
                self.next()
                close = "}"
                packed = True
            out = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", ty, out)
        if tok == "getelementptr":
            self.accept("inbounds")
            self.expect("(")
            sty = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(","):
                if self.accept("inrange"):
                    pass
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            off = gep_const(self.mod.layout, sty, [(t, v) for t, v in idx])
            if base[0] == "g":
                return ("g", base[1], base[2] + off)
            if base[0] == "null":
                return ("c", off)
            raise IRError("const gep base")
        if tok in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        raise IRError("value? %r in %s" % (tok, " ".join(x[1] for x in self.t)[:300]))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None:
                return
            if p in ATTR_WORDS:
                self.next()
            elif p in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range",
                       "memory", "elementtype", "byref", "preallocated", "inalloca", "nofpclass"):
                w = self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        d += x == "("
                        d -= x == ")"
                        if d == 0:
                            break
                elif w == "align":
                    self.next()
            else:
                return


def fpbits(x, n):
    return struct.unpack("<I", struct.pack("<f", x))[0] if n == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]


def gep_const(layout, sty, idx):
    off = 0
    t = sty
    for j, (it, v) in enumerate(idx):
        if v[0] != "c":
            raise IRError("gep const index")
        i = v[1]
        if it.k == "int" and i >> (it.n - 1):
            i -= 1 << it.n
        if j == 0:
            off += i * t.size
        elif t.k == "struct":
            off += t.offs[i]
            t = t.elts[i]
        else:
            t = t.elts
            off += i * t.size
    return off


BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor".split())
CAST = set("zext sext trunc bitcast ptrtoint inttoptr".split())
FASTMATH = set("fast nnan ninf nsz arcp contract afn reassoc".split())
FLAGS = set("nsw nuw exact disjoint inbounds nneg nusw samesign".split())


def parse(text):
    mod = Module()
    m = re.search(r'^target datalayout = "([^"]*)"', text, re.M)
    mod.layout = Layout(m[1] if m else "")
    m = re.search(r'^target triple = "([^"]*)"', text, re.M)
    mod.triple = m[1] if m else ""
    lines = text.split("\n")
    # named types may refer to later ones: iterate until fixpoint
    pend = [l for l in lines if l.startswith("%") and " = type " in l]
    while pend:
        rest = []
        for l in pend:
            name, body = l.split(" = type ", 1)
            try:
                mod.types[name] = Line(body, mod).type()
            except IRError:
                rest.append(l)
        if len(rest) == len(pend):
            raise IRError("types: " + rest[0])
        pend = rest
    i = 0
    gl = []
    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            gl.append(l)
        elif l.startswith("declare"):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            mod.declared["@" + mm[1]] = l
        elif l.startswith("define"):
            j = i
            while lines[j] != "}":
                j += 1
            f = parse_func(lines[i:j], mod)
            mod.funcs[f.name] = f
            i = j
        i += 1
    for l in gl:
        L = Line(l, mod)
        name = L.next()
        L.expect("=")
        const = None
        alias = False
        while True:
            w = L.next()
            if w in ("constant", "global"):
                const = w == "constant"
                break
            if w == "alias":
                alias = True
                break
            if w in LINKAGE or w in ("local_exec", "initialexec", "localdynamic"):
                if w == "thread_local" and L.peek() == "(":
                    L.next(); L.next(); L.expect(")")
                continue
            if w == "comdat":
                continue
            raise IRError("global: " + l[:200])
        if alias:
            continue
        ty = L.type()
        init = None
        if L.peek() is not None and L.peek() != ",":
            if L.kind() in ("num", "hex", "str", "glob") or L.peek() in ("[", "{", "<", "zeroinitializer", "null", "undef",
                                                                        "poison", "true", "false", "getelementptr", "ptrtoint", "inttoptr"):
                try:
                    init = L.value(ty)
                except IRError:
                    init = ("undef",)
        mod.globals[name] = (ty, init, const)
    return mod


def parse_func(lines, mod):
    head = lines[0]
    L = Line(re.sub(r'"[^"@%]*"="[^"]*"', "", head), mod)
    L.expect("define")
    while L.peek() in LINKAGE or L.peek() in ATTR_WORDS:
        L.next()
    L.skip_attrs()
    while L.peek() in LINKAGE:
        L.next()
    L.skip_attrs()
    ret = L.type()
    name = L.next()
    f = Function(name)
    f.ret = ret
    L.expect("(")
    cnt = 0
    if not L.accept(")"):
        while True:
            if L.accept("..."):
                L.expect(")")
                break
            pt = L.type()
            L.skip_attrs()
            if L.kind() == "loc":
                pn = L.next()
            else:
                pn = "%%%d" % cnt
            cnt += 1
            f.params.append((pt, pn))
            if L.accept(")"):
                break
            L.expect(",")
    entry = "%" + str(cnt)
    ids = f.localid

    def lid(n):
        r = ids.get(n)
        if r is None:
            r = ids[n] = len(ids)
        return r

    for _, pn in f.params:
        lid(pn)
    cur = []
    f.blocks.append((entry, cur))
    first = True
    k = 1
    while k < len(lines):
        raw = lines[k]
        k += 1
        s = raw.strip()
        if not s or s[0] == ";":
            continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', raw)
        if m:
            lab = "%" + m[1]
            if first and not cur:
                f.blocks[-1] = (lab, cur)
            else:
                cur = []
                f.blocks.append((lab, cur))
            first = False
            continue
        first = False
        if s.startswith("switch") and not s.rstrip().endswith("]"):
            while "]" not in lines[k]:
                s += " " + lines[k].strip()
                k += 1
            s += " " + lines[k].strip()
            k += 1
        cur.append(parse_ins(s, mod, lid))
    f.nlocals = len(ids)
    for n, (lab, _) in enumerate(f.blocks):
        f.bindex[lab] = n
    return f


def parse_ins(s, mod, lid):
    L = Line(s, mod)
    dst = None
    if L.kind() == "loc" and L.peek(1) == "=":
        dst = lid(L.next())
        L.next()
    op = L.next()

    def val(ty):
        v = L.value(ty)
        return ("l", lid(v[1])) if v[0] == "l" else v

    if op in BIN:
        fl = set()
        while L.peek() in FLAGS:
            fl.add(L.next())
        ty = L.type()
        a = val(ty)
        L.expect(",")
        b = val(ty)
        return ("bin", dst, op, ty, a, b, frozenset(fl))
    if op == "icmp":
        while L.peek() in FLAGS:
            L.next()
        pred = L.next()
        ty = L.type()
        a = val(ty)
        L.expect(",")
        b = val(ty)
        return ("icmp", dst, pred, ty, a, b)
    if op == "fneg" or op == "fcmp":
        while L.peek() in FASTMATH:
            L.next()
        pred = L.next() if op == "fcmp" else None
        ty = L.type()
        a = val(ty)
        if op == "fneg":
            return ("fneg", dst, ty, a)
        L.expect(",")
        return ("fcmp", dst, pred, ty, a, val(ty))
    if op in CAST:
        while L.peek() in FLAGS:
            L.next()
        st = L.type()
        a = val(st)
        L.expect("to")
        tt = L.type()
        return ("cast", dst, op, st, tt, a)
    if op == "load":
        L.accept("volatile")
        ty = L.type()
        L.expect(",")
        pt = L.type()
        return ("load", dst, ty, val(pt))
    if op == "store":
        L.accept("volatile")
        ty = L.type()
        v = val(ty)
        L.expect(",")
        pt = L.type()
        return ("store", None, ty, v, val(pt))
    if op == "alloca":
        ty = L.type()
        n = ("c", 1)
        if L.accept(",") and L.peek() != "align":
            nt = L.type()
            n = val(nt)
        return ("alloca", dst, ty, n)
    if op == "getelementptr":
        while L.peek() in FLAGS:
            L.next()
        sty = L.type()
        L.expect(",")
        pt = L.type()
        base = val(pt)
        idx = []
        while L.accept(","):
            it = L.type()
            idx.append((it, val(it)))
        return ("gep", dst, sty, base, idx)
    if op == "br":
        if L.accept("label"):
            return ("jmp", None, L.next())
        ty = L.type()
        c = val(ty)
        L.expect(","); L.expect("label")
        a = L.next()
        L.expect(","); L.expect("label")
        b = L.next()
        return ("br", None, c, a, b)
    if op == "switch":
        ty = L.type()
        v = val(ty)
        L.expect(","); L.expect("label")
        d = L.next()
        L.expect("[")
        cases = []
        while not L.accept("]"):
            ct = L.type()
            cv = val(ct)
            L.expect(","); L.expect("label")
            cases.append((cv[1], L.next()))
        return ("switch", None, ty, v, d, cases)
    if op == "phi":
        ty = L.type()
        inc = []
        while True:
            L.expect("[")
            v = val(ty)
            L.expect(",")
            inc.append((v, L.next()))
            L.expect("]")
            if not L.accept(","):
                break
        return ("phi", dst, ty, inc)
    if op == "select":
        ct = L.type()
        c = val(ct)
        L.expect(",")
        ty = L.type()
        a = val(ty)
        L.expect(",")
        L.type()
        b = val(ty)
        return ("select", dst, ty, c, a, b)
    if op == "ret":
        ty = L.type()
        return ("ret", None, ty, None if ty.k == "void" else val(ty))
    if op == "unreachable":
        return ("unreachable", None)
    if op in ("call", "tail", "musttail", "notail"):
        if op != "call":
            L.expect("call")
        while L.peek() in LINKAGE or L.peek() in ATTR_WORDS or L.peek() in ("nnan", "ninf", "nsz", "fast"):
            L.next()
        L.skip_attrs()
        while L.peek() in LINKAGE:
            L.next()
        L.skip_attrs()
        rt = L.type()
        ind = val(Ty("ptr")) if L.kind() == "loc" else None
        if L.peek() == "asm":
            return ("call", dst, rt, None, [], "asm")
        fn = ind if ind is not None else L.next()
        L.expect("(")
        args = []
        if not L.accept(")"):
            while True:
                at = L.type()
                L.skip_attrs()
                if at.k == "metadata":
                    while L.peek() not in (",", ")"):
                        L.next()
                    args.append((at, ("undef",)))
                else:
                    args.append((at, val(at)))
                if L.accept(")"):
                    break
                L.expect(",")
        return ("call", dst, rt, fn, args, None)
    if op == "extractvalue":
        ty = L.type()
        v = val(ty)
        idx = []
        while L.accept(","):
            idx.append(int(L.next()))
        return ("extractvalue", dst, ty, v, idx)
    if op == "insertvalue":
        ty = L.type()
        v = val(ty)
        L.expect(",")
        et = L.type()
        e = val(et)
        idx = []
        while L.accept(","):
            idx.append(int(L.next()))
        return ("insertvalue", dst, ty, v, et, e, idx)
    if op == "freeze":
        ty = L.type()
        return ("freeze", dst, ty, val(ty))
    # anything else is only an error when executed
    return ("unsupported", dst, s)
