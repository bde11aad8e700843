"""Lazy reader for textual LLVM IR (LLVM 18, opaque pointers)."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@]"[^"]*"|[%@][-\w.$]+)|("[^"]*")|(0x[0-9A-Fa-f]+|0x[KMHLR][0-9A-Fa-f]+)'''
                 r'''|([-+]?\d+\.\d*(?:[eE][-+]?\d+)?)|(-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|(![\w.]*)|(\#\d+)|([\[\]{}()<>,=*:|]))''')


class Reg(str):
    __slots__ = ()


class IRError(Exception):
    pass


def const_double(x):
    """the rational number a double literal stands for: the nearest simple fraction or shortest decimal"""
    if x != x or x in (float("inf"), float("-inf")):
        return x
    if x == int(x) and abs(x) < 2 ** 60:
        return int(x)
    f = Fraction(x).limit_denominator(5000)
    if float(f) == x:
        return f
    return Fraction(repr(x))


class Ty:
    __slots__ = ("k", "a", "n", "_sz", "_al", "_off")

    def __init__(self, k, a=None, n=0):
        self.k, self.a, self.n = k, a, n
        self._sz = self._al = self._off = None

    def __repr__(self):
        return "%s%s%s" % (self.k, self.n or "", self.a or "")


I1, I8, I16, I32, I64, DBL, FLT, PTR, VOID = (Ty("i", n=1), Ty("i", n=8), Ty("i", n=16), Ty("i", n=32), Ty("i", n=64),
                                              Ty("double"), Ty("float"), Ty("ptr"), Ty("void"))
_INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "b", "c", "x", "blk", "txt")

    def __init__(self, op, dst=None, ty=None, a=None, b=None, c=None, x=None):
        self.op, self.dst, self.ty, self.a, self.b, self.c, self.x = op, dst, ty, a, b, c, x


class Block:
    __slots__ = ("name", "phis", "ins", "succ")

    def __init__(self, name):
        self.name, self.phis, self.ins, self.succ = name, [], [], []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.byval = {}
        self.blocks = {}
        self.entry = None
        self.loops = None
        self.vararg = False
        self.retty = None


class GVal:
    """reference to a global (variable or function) with a byte offset"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "@%s+%d" % (self.name, self.off)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Zero:
    """zeroinitializer of an aggregate"""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Module:
    def __init__(self, text):
        self.types = {}
        self.tydefs = {}
        self.gtext = {}
        self.ftext = {}
        self.decls = set()
        self.alias = {}
        self.funcs = {}
        self.ginit = {}
        self.demangle = None
        self.scan(text)

    def scan(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == "%":
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)', l)
                if m:
                    self.tydefs[m.group(1)] = m.group(2)
            elif c == "@":
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                if m:
                    nm = m.group(1).strip('"')
                    rest = m.group(2)
                    if re.search(r'(^|\s)alias\s', rest):
                        t = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', rest)
                        self.alias[nm] = t.group(1).strip('"')
                    else:
                        self.gtext[nm] = rest
            elif l.startswith("define"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.ftext[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            i += 1

    # -------------------------------------------------------- types
    def size(self, t):
        if t._sz is None:
            self._layout(t)
        return t._sz

    def align(self, t):
        if t._al is None:
            self._layout(t)
        return t._al

    def offsets(self, t):
        if t._off is None:
            self._layout(t)
        return t._off

    def _layout(self, t):
        k = t.k
        if k == "i":
            s = 1
            while s * 8 < t.n:
                s *= 2
            t._sz, t._al = s, min(s, 16)
        elif k in ("double", "ptr"):
            t._sz = t._al = 8
        elif k == "float":
            t._sz = t._al = 4
        elif k == "x86_fp80":
            t._sz = t._al = 16
        elif k == "arr":
            t._sz = self.size(t.a) * t.n
            t._al = self.align(t.a)
        elif k == "vec":
            t._sz = self.size(t.a) * t.n
            t._al = t._sz
        elif k == "struct":
            off, o, al = [], 0, 1
            for x in t.a:
                xa = 1 if t.n else self.align(x)
                o = (o + xa - 1) // xa * xa
                off.append(o)
                o += self.size(x)
                al = max(al, xa)
            o = (o + al - 1) // al * al
            t._sz, t._al, t._off = o, al, off
        elif k == "named":
            u = self.resolve(t)
            self._layout(u)
            t._sz, t._al, t._off = u._sz, u._al, u._off
        elif k == "void":
            t._sz, t._al = 0, 1
        else:
            raise IRError("no layout for %s" % k)

    def resolve(self, t):
        while t.k == "named":
            nm = t.a
            u = self.types.get(nm)
            if u is None:
                d = self.tydefs.get(nm)
                if d is None or d.strip() == "opaque":
                    u = Ty("struct", [])
                else:
                    u = Parser(self, d).type()
                self.types[nm] = u
            t = u
        return t

    # -------------------------------------------------------- functions
    def has(self, name):
        return name in self.ftext or name in self.alias

    def func(self, name):
        while name in self.alias:
            name = self.alias[name]
        f = self.funcs.get(name)
        if f is None:
            if name not in self.ftext:
                return None
            f = parse_func(self, name, *self.ftext[name])
            self.funcs[name] = f
        return f

    def global_init(self, name):
        """(type, initialiser or None, is_constant)"""
        g = self.ginit.get(name)
        if g is None:
            txt = self.gtext[name]
            m = re.search(r'(?:^|\s)(global|constant)\s', txt)
            const = m.group(1) == "constant"
            ext = re.match(r'(external|extern_weak)\s', txt) is not None or " external " in txt[:m.start() + 1]
            p = Parser(self, re.sub(r",\s*comdat.*$", "", txt[m.end():], flags=re.S))
            ty = p.type()
            ini = None
            if not ext:
                ini = p.const(ty)
            g = (ty, ini, const)
            self.ginit[name] = g
        return g


SKIPATTR = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly", "readnone",
            "returned", "nest", "immarg", "swiftself", "allocalign", "allocptr", "noinline", "tail", "musttail", "notail",
            "fastcc", "ccc", "coldcc", "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "private",
            "linkonce_odr", "linkonce", "weak", "weak_odr", "available_externally", "hidden", "protected", "default",
            "external", "nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
            "reassoc", "volatile", "disjoint", "nneg", "inalloca", "dllimport", "thread_local", "extern_weak", "noext",
            "preallocated", "swifterror", "nofpclass", "dead_on_unwind", "writable", "nuw", "range", "initializes"}


class Parser:
    def __init__(self, mod, s):
        self.m = mod
        self.s = s
        self.toks = []
        pos = 0
        n = len(s)
        while pos < n:
            mt = TOK.match(s, pos)
            if not mt:
                if s[pos:].strip() == "":
                    break
                raise IRError("token: %r" % s[pos:pos + 60])
            self.toks.append(mt.group(mt.lastindex))
            pos = mt.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def eat(self, t):
        if self.i < len(self.toks) and self.toks[self.i] == t:
            self.i += 1
            return True
        return False

    def expect(self, t):
        if not self.eat(t):
            raise IRError("expected %s at %s in %s" % (t, self.peek(), self.s[:200]))

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in SKIPATTR:
                self.i += 1
                if self.peek() == "(":
                    self.parens()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "elementtype", "byval", "sret", "addrspace"):
                self.i += 1
                if self.peek() == "(":
                    self.parens()
                elif t == "align":
                    self.i += 1
            else:
                return

    def parens(self):
        d = 0
        while True:
            t = self.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
                if d == 0:
                    return

    def type(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            n = int(t[1:])
            r = _INTS.get(n) or Ty("i", n=n)
        elif t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.parens()
        elif t == "double":
            r = DBL
        elif t == "float":
            r = FLT
        elif t == "void":
            r = VOID
        elif t in ("x86_fp80", "label", "metadata", "token"):
            r = Ty(t)
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("arr", e, n)
        elif t == "{":
            r = Ty("struct", self.tylist("}"))
        elif t == "<":
            if self.eat("{"):
                r = Ty("struct", self.tylist("}"), 1)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = Ty("vec", e, n)
        elif t[0] == "%":
            r = Ty("named", t)
        else:
            raise IRError("type %r in %s" % (t, self.s[:200]))
        if self.peek() == "(":          # function type
            self.parens()
            r = Ty("fn", r)
        return r

    def tylist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.expect(",")

    # a value of the given type: Reg or constant
    def value(self, ty):
        t = self.peek()
        if t[0] == "%":
            self.i += 1
            return Reg(t)
        return self.const(ty)

    def tvalue(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)

    def const(self, ty):
        t = self.next()
        if t == "true":
            return True
        if t == "false":
            return False
        if t in ("null", "none"):
            return GVal(None, 0)
        if t in ("undef", "poison"):
            u = self.m.resolve(ty)
            if u.k in ("struct", "arr", "vec"):
                n = u.n if u.k != "struct" else len(u.a)
                return [UNDEF] * n
            return UNDEF
        if t == "zeroinitializer":
            return zero_of(self.m, ty)
        if t[0] == "@":
            return GVal(t[1:].strip('"'))
        if t[0] == "c" and t[1:2] == '"':
            return cstr(t[2:-1])
        if t[:2] == "0x":
            if ty.k == "double":
                return const_double(struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            if ty.k == "float":
                return const_double(struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            if t[2:3] == "K":
                h = int(t[3:], 16)
                e, mnt = (h >> 64) & 0x7fff, h & ((1 << 64) - 1)
                v = Fraction(mnt, 1 << 63) * Fraction(2) ** (e - 16383) if e else Fraction(0)
                v = -v if h >> 79 else v
                return v.numerator if v.denominator == 1 else v
            return int(t, 16)
        if ty.k in ("double", "float"):
            return const_double(float(t))
        if re.match(r'-?\d+$', t):
            v = int(t)
            if ty.k == "i":
                if ty.n == 1:
                    return bool(v & 1)
                v &= (1 << ty.n) - 1
                if v >> (ty.n - 1):
                    v -= 1 << ty.n
            return v
        if t in ("{", "[", "<"):
            end = {"{": "}", "[": "]", "<": ">"}[t]
            packed = t == "<" and self.eat("{")
            if packed:
                end = "}"
            out = []
            if not self.eat(end):
                while True:
                    ety, v = self.tvalue()
                    out.append(v)
                    if self.eat(end):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return out
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange" and self.peek() == "(":
                    self.parens()
            self.expect("(")
            ety = self.type()
            self.expect(",")
            idx = []
            while self.peek() in ("inrange",):
                self.i += 1
            bty, base = self.tvalue()
            while self.eat(","):
                while self.peek() in ("inrange",):
                    self.i += 1
                _, v = self.tvalue()
                idx.append(v)
            self.expect(")")
            off = gep_const(self.m, ety, idx)
            return GVal(base.name, base.off + off)
        if t in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc"):
            self.expect("(")
            _, v = self.tvalue()
            self.expect("to")
            self.type()
            self.expect(")")
            if t == "inttoptr" and isinstance(v, int):
                return GVal(None, v)
            return v
        if t in ("sub", "add"):
            while self.peek() in SKIPATTR:
                self.i += 1
            self.expect("(")
            _, a = self.tvalue()
            self.expect(",")
            _, b = self.tvalue()
            self.expect(")")
            return ("cexpr", t, a, b)
        if t == "no_cfi" or t == "dso_local_equivalent":
            return self.const(ty)
        raise IRError("const %r in %s" % (t, self.s[:300]))


def zero_of(mod, ty):
    ty = mod.resolve(ty)
    if ty.k == "i":
        return False if ty.n == 1 else 0
    if ty.k in ("double", "float", "x86_fp80"):
        return 0
    if ty.k == "ptr":
        return GVal(None, 0)
    return Zero(ty)


def expand_zero(mod, z):
    t = mod.resolve(z.ty)
    if t.k == "struct":
        return [zero_of(mod, x) for x in t.a]
    return [zero_of(mod, t.a)] * t.n


def cstr(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def gep_const(mod, ty, idx):
    off = idx[0] * mod.size(ty)
    t = mod.resolve(ty)
    for v in idx[1:]:
        if t.k == "struct":
            off += mod.offsets(t)[v]
            t = mod.resolve(t.a[v])
        else:
            off += v * mod.size(t.a)
            t = mod.resolve(t.a)
    return off


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr",
        "bitcast", "addrspacecast"}
META = re.compile(r',\s*![\w.]+(\s+!?[\w.]+)?')


def parse_func(mod, name, head, body):
    f = Func(name)
    h = head[head.index("@"):]
    h = h[h.index("("):]
    d = 0
    for pos, ch in enumerate(h):        # the parameter list only
        d += ch == "("
        d -= ch == ")"
        if d == 0:
            break
    p = Parser(mod, h[:pos + 1])
    # parameters
    p.expect("(")
    k = 0
    d = 1
    if not p.eat(")"):
        while True:
            if p.eat("..."):
                f.vararg = True
            else:
                ty = p.type()
                byval = None
                while True:
                    t = p.peek()
                    if t == "byval":
                        p.i += 1
                        p.expect("(")
                        byval = p.type()
                        p.expect(")")
                    elif t in SKIPATTR or t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "elementtype"):
                        p.skip_attrs()
                    else:
                        break
                t = p.peek()
                if t and t[0] == "%":
                    p.i += 1
                    nm = Reg(t)
                else:
                    nm = Reg("%%%d" % k)
                k += 1
                f.params.append(nm)
                if byval is not None:
                    f.byval[nm] = byval
            if p.eat(")"):
                break
            p.expect(",")
    # blocks
    cur = None
    lines = body
    i, n = 0, len(lines)
    first = "%%%d" % k
    while i < n:
        l = lines[i]
        i += 1
        if not l.strip():
            continue
        if l[0] != " ":
            m = re.match(r'("[^"]*"|[-\w.$]+):', l)
            cur = Block("%" + m.group(1))
            f.blocks[cur.name] = cur
            if f.entry is None:
                f.entry = cur.name
            continue
        if cur is None:
            cur = Block(first)
            f.blocks[first] = cur
            f.entry = first
        s = l.strip()
        # multi-line: switch, landingpad clauses, invoke
        if s.startswith("switch"):
            while "]" not in lines[i - 1]:
                s += " " + lines[i].strip()
                i += 1
        elif " invoke " in " " + s:
            s += " " + lines[i].strip()
            i += 1
        elif "landingpad" in s:
            while i < n and re.match(r'\s+(catch|cleanup|filter)', lines[i]):
                s += " " + lines[i].strip()
                i += 1
        c = s.find(" ;")
        if c > 0 and '"' not in s[c:]:
            s = s[:c]
        ins = parse_ins(mod, META.sub("", s))
        ins.blk = cur.name
        ins.txt = s
        if ins.op == "phi":
            cur.phis.append(ins)
        else:
            cur.ins.append(ins)
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == "br":
            b.succ = [t.b] if t.a is None else [t.b, t.c]
        elif t.op == "switch":
            b.succ = [t.b] + [x for _, x in t.c]
        elif t.op == "invoke":
            b.succ = [t.x[0]]
    return f


def parse_call(mod, p, dst, op):
    p.skip_attrs()
    rty = p.type()
    if rty.k == "fn":
        rty = rty.a
    p.skip_attrs()
    t = p.peek()
    if t[0] in "%@":
        p.i += 1
        callee = Reg(t) if t[0] == "%" else GVal(t[1:].strip('"'))
    else:
        callee = p.const(PTR)
    if isinstance(callee, GVal) and callee.name and callee.name.startswith("llvm.experimental.noalias"):
        return Ins("nop")
    p.expect("(")
    args = []
    if not p.eat(")"):
        while True:
            if p.peek() == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    t = p.next()
                    d += t == "("
                    d -= t == ")"
                args.append(None)
            else:
                ty = p.type()
                bv = None
                while True:
                    if p.peek() == "byval":
                        p.i += 1
                        p.expect("(")
                        bv = p.type()
                        p.expect(")")
                    else:
                        k = p.i
                        p.skip_attrs()
                        if k == p.i:
                            break
                args.append(p.value(ty))
            if p.eat(")"):
                break
            p.expect(",")
    ins = Ins(op, dst, rty, callee, args)
    return ins


def parse_ins(mod, s):
    dst = None
    m = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', s)
    if m:
        dst = Reg(m.group(1))
        s = s[m.end():]
    p = Parser(mod, s)
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        p.skip_attrs()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, dst, ty, a, b)
    if op in CAST:
        p.skip_attrs()
        ty, a = p.tvalue()
        p.expect("to")
        return Ins(op, dst, p.type(), a, ty)
    if op == "load":
        if p.eat("atomic"):
            pass
        p.eat("volatile")
        ty = p.type()
        p.expect(",")
        _, a = p.tvalue()
        return Ins(op, dst, ty, a)
    if op == "store":
        p.eat("atomic")
        p.eat("volatile")
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        return Ins(op, None, ty, a, b)
    if op == "getelementptr":
        p.skip_attrs()
        ty = p.type()
        p.expect(",")
        _, base = p.tvalue()
        idx = []
        while p.eat(","):
            ity, v = p.tvalue()
            idx.append(v)
        # precompute the constant part: list of (scale, reg) and constant offset
        off = 0
        var = []
        t = ty
        for n, v in enumerate(idx):
            if n == 0:
                sz = mod.size(ty)
                t = mod.resolve(ty)
            elif t.k == "struct":
                off += mod.offsets(t)[v]
                t = mod.resolve(t.a[v])
                continue
            else:
                sz = mod.size(t.a)
                t = mod.resolve(t.a)
            if isinstance(v, Reg):
                var.append((sz, v))
            else:
                off += sz * v
        return Ins(op, dst, ty, base, off, var)
    if op == "br":
        if p.eat("label"):
            return Ins(op, b=p.next())
        ty, a = p.tvalue()
        p.expect(",")
        p.expect("label")
        b = p.next()
        p.expect(",")
        p.expect("label")
        return Ins(op, None, ty, a, b, p.next())
    if op == "ret":
        ty = p.type()
        if ty.k == "void":
            return Ins(op)
        return Ins(op, None, ty, p.value(ty))
    if op == "icmp" or op == "fcmp":
        p.skip_attrs()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Ins(op, dst, ty, a, b, pred)
    if op == "phi":
        p.skip_attrs()
        ty = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc[p.next()] = v
            p.expect("]")
            if not p.eat(","):
                break
        return Ins(op, dst, ty, inc)
    if op == "call":
        return parse_call(mod, p, dst, op)
    if op == "invoke":
        ins = parse_call(mod, p, dst, op)
        while p.peek() != "to":
            p.i += 1
        p.expect("to")
        p.expect("label")
        n = p.next()
        p.expect("unwind")
        p.expect("label")
        ins.x = (n, p.next())
        return ins
    if op == "alloca":
        p.eat("inalloca")
        ty = p.type()
        cnt = 1
        if p.eat(","):
            if p.peek() not in ("align", "addrspace"):
                _, cnt = p.tvalue()
        return Ins(op, dst, ty, cnt)
    if op == "select":
        p.skip_attrs()
        _, c = p.tvalue()
        p.expect(",")
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        return Ins(op, dst, ty, c, a, b)
    if op == "switch":
        ty, a = p.tvalue()
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.eat("]"):
            _, v = p.tvalue()
            p.expect(",")
            p.expect("label")
            cases.append((v, p.next()))
        return Ins(op, None, ty, a, d, cases)
    if op == "fneg" or op == "freeze":
        p.skip_attrs()
        ty, a = p.tvalue()
        return Ins(op, dst, ty, a)
    if op == "extractvalue":
        ty, a = p.tvalue()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, a, idx)
    if op == "insertvalue":
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Ins(op, dst, ty, a, b, idx)
    if op == "extractelement":
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        return Ins(op, dst, ty, a, b)
    if op == "insertelement":
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        p.expect(",")
        _, c = p.tvalue()
        return Ins(op, dst, ty, a, b, c)
    if op == "shufflevector":
        ty, a = p.tvalue()
        p.expect(",")
        _, b = p.tvalue()
        p.expect(",")
        mty, c = p.tvalue()
        if isinstance(c, Zero):
            c = expand_zero(mod, c)
        return Ins(op, dst, ty, a, b, c)
    if op in ("unreachable", "resume", "landingpad", "fence"):
        return Ins(op, dst)
    if op == "atomicrmw":
        p.eat("volatile")
        k = p.next()
        _, a = p.tvalue()
        p.expect(",")
        ty, b = p.tvalue()
        return Ins(op, dst, ty, a, b, k)
    if op == "cmpxchg":
        return Ins("unsupported", dst, x=s)
    return Ins("unsupported", dst, x=s)


# ------------------------------------------------------------------ natural loops
class Loop:
    __slots__ = ("header", "body", "parent", "latches")

    def __init__(self, h):
        self.header, self.body, self.parent, self.latches = h, {h}, None, []


def loops_of(f):
    """dict header -> Loop (natural loops)"""
    if f.loops is not None:
        return f.loops
    # iterative dominators
    order, seen = [], set()
    st = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in f.blocks[b].succ:
            if dom(s, b):
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in L.body:
                        L.body.add(x)
                        wl.extend(preds[x])
    f.loops = loops
    return loops
