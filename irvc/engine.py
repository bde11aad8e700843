"""Forward symbolic execution of LLVM IR: the verification-condition generator.

Real arithmetic is exact, machine integers are mathematical integers in signed canonical form, memory is a set of disjoint
objects addressed by (object, byte offset).  Every branch whose condition the path condition does not decide forks."""
import re, time, struct, random
from fractions import Fraction
from .terms import *
from . import terms as T
from .ir import *
from .solver import Solver, model_value


class Unsupported(Exception):
    where = None

    def locate(self, st):
        if self.where is None:
            self.where = " < ".join(f.f.name[:60] for f in reversed(st.frames[-6:]))


class Concretise(Exception):
    def __init__(self, term):
        self.term = term


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class ForkBool(Exception):
    def __init__(self, cond):
        self.cond = cond


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ("o", "f")

    def __init__(self, o, f):
        self.o, self.f = o, f

    def __repr__(self):
        return "&%s+%s" % (self.o, self.f)

    def __eq__(self, b):
        return type(b) is Ptr and self.o == b.o and self.f == b.f

    def __hash__(self):
        return hash((self.o, self.f))


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ("size", "cells", "owner", "kind", "name", "alive", "zero", "pure8", "arr")

    def __init__(self, size, owner, kind, name):
        self.size, self.owner, self.kind, self.name = size, owner, kind, name
        self.cells = {}
        self.alive = True
        self.zero = False
        self.pure8 = True
        self.arr = None

    def copy(self, owner):
        o = Obj(self.size, owner, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive, o.zero, o.pure8 = self.alive, self.zero, self.pure8
        o.arr = self.arr.copy() if self.arr is not None else None
        return o


class PBits:
    """an integer word some of whose bits are undefined (mask u); the others are those of v"""
    __slots__ = ("v", "u", "n")

    def __init__(self, v, u, n):
        self.v, self.u, self.n = v, u, n

    def __repr__(self):
        return "PBits(%x,%x)" % (self.v, self.u)


class Pack:
    """a 64-bit word made of two 32-bit values (signed-canonical), as used to pass small structures in registers"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return "Pack(%s,%s)" % (self.lo, self.hi)


def pack(lo, hi):
    if type(lo) is int and type(hi) is int:
        return wrap((lo & 0xffffffff) | ((hi & 0xffffffff) << 32), 64)
    return Pack(lo, hi)


def pbits(v, u, n):
    full = (1 << n) - 1
    u &= full
    if u == 0:
        return wrap(v & full, n)
    return UNDEF if u == full else PBits(v & full & ~u, u, n)


class Partial:
    """bytes of a cell of which only a part was copied: any use is unsupported"""
    def __getattr__(self, n):
        raise Unsupported("use of a partly copied cell")

    def __repr__(self):
        return "PARTIAL"


PARTIAL = Partial()


class Frame:
    __slots__ = ("f", "blk", "ip", "regs", "prev", "dst", "nxt", "loc", "lst", "cut")

    def __init__(self, f):
        self.f = f
        self.blk = f.blocks[f.entry]
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.dst = None      # register of the caller receiving the result
        self.nxt = None      # invoke: normal destination in the caller
        self.loc = []        # stack objects
        self.lst = None
        self.cut = None

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.blk, g.ip, g.prev, g.dst, g.nxt = self.f, self.blk, self.ip, self.prev, self.dst, self.nxt
        g.regs = dict(self.regs)
        g.loc = list(self.loc)
        g.lst = self.lst
        g.cut = self.cut
        return g


class State:
    __slots__ = ("frames", "objs", "owner", "pc", "pcs", "known", "inputs", "names", "covers", "depth", "ghost")

    def fork(self, eng):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        eng.owners += 2
        s.owner = eng.owners
        self.owner = eng.owners + 1
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.known = dict(self.known)
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.covers = self.covers
        s.depth = self.depth + 1
        s.ghost = dict(self.ghost)
        return s


class Failure:
    def __init__(self, label, kind, detail, inputs, backend):
        self.label, self.kind, self.detail, self.inputs, self.backend = label, kind, detail, inputs, backend


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def single_ite(p):
    """(c0, k, cond, a, b) if p = c0 + k*ite(cond, a, b) with numeric a, b"""
    if type(p) is not Poly or len(p.t) > 2:
        return None
    c0 = 0
    at = None
    for m, c in p.t.items():
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and at is None:
            at = (ATOMS[m[0][0]], c)
        else:
            return None
    if at is None or at[0].kind != "ite":
        return None
    c, a, b = at[0].args
    if isnum(a) and isnum(b):
        return c0, at[1], c, a, b
    return None


def cmp0(op, p):
    """formula  p op 0"""
    f = le0 if op == "le" else lt0 if op == "lt" else eq0
    if type(p) is Poly:
        s = single_ite(p)
        if s is not None:
            c0, k, c, a, b = s
            return bite(c, f(c0 + k * a), f(c0 + k * b))
        # integer content: gcd normalisation
    return f(p)


FLOATINF = (float("inf"), float("-inf"))


class Engine:
    def __init__(self, mod, seed=1, log=None):
        self.mod = mod
        self.solver = Solver()
        self.owners = 1
        self.nobj = 1
        self.fobj = {}
        self.idfn = {}
        self.gobj = {}
        self.gname = {}
        self.failures = []
        self.unknowns = []
        self.obl = 0
        self.disch = 0
        self.byback = {}
        self.labels = {}
        self.paths = 0
        self.killed = 0
        self.steps = 0
        self.covers = set()
        self.funcs_run = {}
        self.trusted = set()
        self.deadline = None
        self.max_paths = 20000
        self.unsup = []
        self.nundef = 0
        self.rng = random.Random(seed)
        self.log = log
        self.pmode = False
        self.symsize = False
        self.feas_timeout = 1500
        self.samples = []
        self.fail_limit = 12
        self.trace = None
        self.implicit = {"bounds": 0, "null": 0, "div": 0, "free": 0}
        self.retdepth = 0
        self.intr_cache = {}
        self.loopsum = None
        self.quiet = 0
        self.wlog = None
        self.nthreads = 1
        from . import builtins as B
        self.B = B

    # ------------------------------------------------------------ states and objects
    def new_state(self):
        s = State()
        s.frames, s.objs, s.pc, s.pcs, s.known = [], {}, [], set(), {}
        s.owner = self.owners = self.owners + 1
        s.inputs, s.names, s.covers, s.depth, s.ghost = [], {}, set(), 0, {}
        return s

    def alloc(self, st, size, kind, name=""):
        self.nobj += 1
        o = Obj(size, st.owner, kind, name)
        st.objs[self.nobj] = o
        return self.nobj

    def wobj(self, st, oid):
        o = st.objs[oid]
        if o.owner != st.owner:
            o = o.copy(st.owner)
            st.objs[oid] = o
        return o

    def gval(self, st, g):
        """pointer value of a global constant expression"""
        if g.name is None:
            return NULL if g.off == 0 else Ptr(0, g.off)
        nm = g.name
        while nm in self.mod.alias:
            nm = self.mod.alias[nm]
        if nm in self.mod.ftext or nm in self.mod.decls:
            i = self.fobj.get(nm)
            if i is None:
                self.nobj += 1
                i = self.nobj
                self.fobj[nm] = i
                self.idfn[i] = nm
            return Ptr(i, g.off)
        i = self.gobj.get(nm)
        if i is None:
            self.nobj += 1
            i = self.nobj
            self.gobj[nm] = i
            self.gname[i] = nm
        return Ptr(i, g.off)

    def getobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            nm = self.gname.get(oid)
            if nm is None:
                if oid in self.idfn:
                    raise Unsupported("data access to function " + self.idfn[oid])
                raise Unsupported("no object %s" % oid)
            o = self.init_global(st, oid, nm)
        return o

    def init_global(self, st, oid, nm):
        ty, ini, const = self.mod.global_init(nm)
        sz = self.mod.size(ty)
        o = Obj(sz, st.owner, "c" if const else "g", nm)
        st.objs[oid] = o
        if ini is None:
            if nm in ("_ZSt4cerr", "_ZSt4cout", "_ZSt4clog", "_ZSt3cin"):
                o.zero = True
                return o
            if nm.startswith("_ZTVN10__cxxabiv1") or nm.startswith("_ZTI") or nm.startswith("_ZTV"):
                o.zero = True
                o.size = 1 << 20
                return o
            if nm in ("stdout", "stderr", "__dso_handle"):
                o.zero = True
                return o
            raise Unsupported("external global " + nm)
        self.init_cells(st, o, 0, ty, ini)
        return o

    def init_cells(self, st, o, off, ty, v):
        ty = self.mod.resolve(ty)
        if isinstance(v, Zero):
            if off == 0 and not o.cells:
                o.zero = True
                return
            self.zero_range(o, off, self.mod.size(ty))
            return
        if isinstance(v, bytes):
            o.pure8 = False
            for i, c in enumerate(v):
                o.cells[off + i] = (1, c if c < 128 else c - 256)
            return
        if isinstance(v, list):
            if ty.k == "struct":
                offs = self.mod.offsets(ty)
                for i, x in enumerate(v):
                    self.init_cells(st, o, off + offs[i], ty.a[i], x)
            else:
                es = self.mod.size(ty.a)
                for i, x in enumerate(v):
                    self.init_cells(st, o, off + i * es, ty.a, x)
            return
        n = self.mod.size(ty)
        if n != 8:
            o.pure8 = False
        if isinstance(v, GVal):
            v = self.gval(st, v)
        elif isinstance(v, tuple):
            v = self.cexpr(st, v)
        if v is UNDEF:
            return
        o.cells[off] = (n, v)

    def cexpr(self, st, v):
        _, op, a, b = v
        a = self.gval(st, a) if isinstance(a, GVal) else a
        b = self.gval(st, b) if isinstance(b, GVal) else b
        if isinstance(a, tuple):
            a = self.cexpr(st, a)
        if isinstance(b, tuple):
            b = self.cexpr(st, b)
        return self.isub(st, a, b, 64) if op == "sub" else self.iadd(st, a, b, 64)

    # ------------------------------------------------------------ failures
    def violated(self, st, label, kind, detail, model=None, backend="z3", env=None):
        if len([f for f in self.failures if f.label == label]) >= 3:
            return
        inp = self.input_values(st, model, env)
        self.failures.append(Failure(label, kind, detail, inp, backend))

    def input_values(self, st, model, env=None):
        out = []
        for nm, t in st.inputs:
            if type(t) is bool:
                out.append((nm, int(t)))
            elif isnum(t):
                out.append((nm, t))
            elif env is not None:
                from .evalf import evalf
                try:
                    out.append((nm, evalf(t, env) if type(t) is Poly else int(bool(evalf(t, env)))))
                except Exception:
                    out.append((nm, 0))
            elif model is not None:
                try:
                    z = self.solver.zr(t) if not t.is_int() else self.solver.zi(t)
                    v = model_value(model, z)
                except Exception:
                    v = 0
                out.append((nm, 0 if v is None else v))
            else:
                out.append((nm, 0))
        return out

    def implicit_fail(self, st, kind, detail):
        """a memory-safety or arithmetic condition of the code itself is broken on a feasible path"""
        if self.quiet:
            raise Unsupported(kind)
        self.obl += 1
        where = self.where(st)
        r, m = self.solver.check(st.pc, (), 4000, model=True)
        if r == "unsat":
            self.disch += 1
            raise PathEnd("infeasible")
        label = "%s in %s" % (kind, where)
        if r == "unknown":
            self.unknowns.append(label + ": " + detail)
        else:
            self.violated(st, label, "implicit", detail, m)
        raise PathEnd(kind)

    def where(self, st):
        for f in reversed(st.frames):
            if not f.f.name.startswith(("_ZSt", "_ZNSt", "_ZNKSt", "_ZN9__gnu_cxx")):
                return f.f.name
        return st.frames[-1].f.name if st.frames else "?"

    # ------------------------------------------------------------ memory access
    def conc_off(self, st, f):
        if type(f) is int:
            return f
        if type(f) is Poly:
            k = st.known.get(f)
            if k is not None:
                return k
            raise Concretise(f)
        raise Unsupported("offset %r" % (f,))

    def conc(self, st, v):
        if type(v) is int or type(v) is bool:
            return int(v)
        if type(v) is Poly:
            k = st.known.get(v)
            if k is not None:
                return k
            raise Concretise(v)
        raise Unsupported("cannot concretise %r" % (v,))

    def access(self, st, p, n, write):
        if type(p) is not Ptr:
            if p is UNDEF:
                self.implicit_fail(st, "uninitialised pointer", "access through an uninitialised pointer")
            if type(p) is int:
                self.implicit_fail(st, "null dereference", "access to address %d" % p)
            raise Unsupported("pointer value %r" % (p,))
        if p.o == 0:
            self.implicit_fail(st, "null dereference", "access to address %s" % (p.f,))
        o = self.getobj(st, p.o)
        if not o.alive:
            self.implicit_fail(st, "use after free", o.name)
        f = p.f
        if o.arr is not None and (type(f) is not int or o.arr.active(f)):
            return o, f
        if type(f) is not int:
            f = self.conc_off(st, f)
        if type(o.size) is int:
            if f < 0 or f + n > o.size:
                self.implicit_fail(st, "out of bounds", "offset %d size %d of object %s of size %s" % (f, n, o.name, o.size))
        else:
            if f < 0 or not self.entails(st, le0(sub(f + n, o.size))):
                self.implicit_fail(st, "out of bounds", "offset %d size %d of object %s of size %s" % (f, n, o.name, o.size))
        return o, f

    def load(self, st, p, ty):
        k = ty.k
        if k == "named":
            ty = self.mod.resolve(ty)
            k = ty.k
        if k in ("struct", "arr", "vec"):
            if k == "struct":
                offs = self.mod.offsets(ty)
                return [self.load(st, self.padd(p, offs[i]), x) for i, x in enumerate(ty.a)]
            es = self.mod.size(ty.a)
            return [self.load(st, self.padd(p, i * es), ty.a) for i in range(ty.n)]
        n = 8 if k == "double" or k == "ptr" else self.mod.size(ty)
        if self.quiet and type(p) is Ptr and type(p.f) is not int and p.f not in st.known:
            return self.loopsum.arr_load(st, p.o, None, p.f, n, ty)
        o, f = self.access(st, p, n, False)
        if o.arr is not None and (type(f) is not int or o.arr.active(f)):
            return self.arr_load(st, p.o, o, f, n, ty)
        c = o.cells.get(f)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = self.load_slow(o, f, n)
        if k == "ptr":
            if type(v) is int:
                return NULL if v == 0 else Ptr(0, v)
            return v
        if k == "i":
            if ty.n == 1 and type(v) is int:
                return bool(v & 1)
            if type(v) is Ptr and v.o == 0:
                return v.f
        return v

    def load_slow(self, o, f, n):
        if o.pure8 and f % 8 == 0 and n == 8:
            return 0 if o.zero else UNDEF
        # a covering cell?
        for d in range(1, 16):
            c = o.cells.get(f - d)
            if c is not None:
                if c[0] > d:
                    if c[0] >= d + n:
                        v = c[1]
                        if type(v) is int:
                            return wrap(v >> (8 * d), 8 * n)
                        if v is UNDEF:
                            return UNDEF
                        if type(v) is PBits:
                            return pbits(v.v >> (8 * d), v.u >> (8 * d), 8 * n)
                        raise Unsupported("partial load of %r" % (v,))
                break
        c = o.cells.get(f)
        if c is not None and c[0] > n:
            v = c[1]
            if v is PARTIAL:
                raise Unsupported("load of a partly copied cell")
            if type(v) is int:
                return wrap(v, 8 * n)
            if type(v) is bool:
                return int(v)
            if v is UNDEF:
                return UNDEF
            if type(v) is PBits:
                return pbits(v.v, v.u, 8 * n)
            if type(v) is Poly and v.is_int():
                return v
            raise Unsupported("partial load of %r" % (v,))
        if c is not None and c[0] < n and type(c[1]) is Poly and all(o.cells.get(f + i) is None for i in range(c[0], n)):
            raise Unsupported("wide load of %r" % (c[1],))
        if n == 8:
            a, b = o.cells.get(f), o.cells.get(f + 4)
            if a is not None and a[0] == 4 and (b is None and o.zero or b is not None and b[0] == 4):
                x, y = a[1], 0 if b is None else b[1]
                if type(x) is Poly or type(y) is Poly:
                    return Pack(x, y)
            elif a is None and o.zero and b is not None and b[0] == 4 and type(b[1]) is Poly:
                return Pack(0, b[1])
        # compose bytes
        r = 0
        i = 0
        miss = 0
        while i < n:
            c = o.cells.get(f + i)
            if c is None:
                # covered from before?
                for d in range(1, 8):
                    b = o.cells.get(f + i - d)
                    if b is not None:
                        if b[0] > d and i == 0:
                            if type(b[1]) is not int:
                                raise Unsupported("compose %r" % (b[1],))
                            k = min(b[0] - d, n)
                            r |= ((b[1] >> (8 * d)) & ((1 << (8 * k)) - 1))
                            i += k
                            c = b
                        break
                if c is not None:
                    continue
                if not o.zero:
                    miss += 1
                i += 1
                continue
            if type(c[1]) is not int:
                if c[1] is UNDEF:
                    miss += 1
                    i += c[0]
                    continue
                raise Unsupported("compose %r" % (c[1],))
            k = min(c[0], n - i)
            r |= (c[1] & ((1 << (8 * k)) - 1)) << (8 * i)
            i += k
        if miss:
            return UNDEF
        return wrap(r, 8 * n)

    def clear_range(self, o, f, n):
        cells = o.cells
        for d in range(1, 16):
            c = cells.get(f - d)
            if c is not None:
                if c[0] > d:
                    # split the earlier cell
                    v = c[1]
                    del cells[f - d]
                    if type(v) is int:
                        for i in range(c[0]):
                            cells[f - d + i] = (1, wrap(v >> (8 * i), 8))
                    else:
                        o_zero = o.zero
                        if o_zero:
                            raise Unsupported("partial overwrite")
                break
        if n > len(cells):
            ks = [k for k in cells if f <= k < f + n]
        else:
            ks = [k for k in range(f, f + n) if k in cells]
        for k in ks:
            c = cells.pop(k)
            if k + c[0] > f + n:
                v = c[1]
                if type(v) is int:
                    for i in range(f + n - k, c[0]):
                        cells[k + i] = (1, wrap(v >> (8 * i), 8))
                elif v is not UNDEF and o.zero:
                    raise Unsupported("partial overwrite")

    def zero_range(self, o, f, n):
        self.clear_range(o, f, n)
        if o.zero:
            return
        e = f + n
        while f < e:
            if f % 8 == 0 and f + 8 <= e:
                o.cells[f] = (8, 0)
                f += 8
            else:
                o.pure8 = False
                o.cells[f] = (1, 0)
                f += 1

    def store(self, st, p, ty, v):
        k = ty.k
        if k == "named":
            ty = self.mod.resolve(ty)
            k = ty.k
        if k in ("struct", "arr", "vec"):
            if isinstance(v, Zero):
                v = expand_zero(self.mod, v)
            if v is UNDEF:
                return
            if isinstance(v, bytes):
                v = list(v)
            if k == "struct":
                offs = self.mod.offsets(ty)
                for i, x in enumerate(v):
                    self.store(st, self.padd(p, offs[i]), ty.a[i], x)
            else:
                es = self.mod.size(ty.a)
                for i, x in enumerate(v):
                    self.store(st, self.padd(p, i * es), ty.a, x)
            return
        if type(v) is GVal:
            v = self.gval(st, v)
        elif type(v) is bool:
            v = int(v)
        elif type(v) is tuple:      # symbolic i1
            v = ite(v, 1, 0)
        elif type(v) is Pack:
            i32 = I32
            self.store(st, p, i32, v.lo)
            self.store(st, self.padd(p, 4), i32, v.hi)
            return
        n = 8 if k == "double" or k == "ptr" else self.mod.size(ty)
        o, f = self.access(st, p, n, True)
        if o.owner != st.owner:
            o = o.copy(st.owner)
            st.objs[p.o] = o
        if o.kind == "c":
            self.implicit_fail(st, "write to constant", o.name)
        if o.arr is not None and (type(f) is not int or o.arr.active(f)):
            self.arr_store(st, p.o, o, f, n, v)
            return
        if self.wlog is not None:
            self.wlog.append((p.o, f, n, k))
        cells = o.cells
        c = cells.get(f)
        if c is not None and c[0] == n:
            cells[f] = (n, v)
            return
        if o.pure8:
            if n == 8 and f % 8 == 0:
                cells[f] = (n, v)
                return
            o.pure8 = False
        self.clear_range(o, f, n)
        cells[f] = (n, v)

    def padd(self, p, d):
        if type(p) is Ptr:
            if type(d) is int and d == 0:
                return p
            f = p.f
            if type(f) is int and type(d) is int:
                return Ptr(p.o, f + d)
            return Ptr(p.o, add(f, d))
        if p is UNDEF:
            return UNDEF
        if type(p) is int:
            return Ptr(0, add(p, d))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def copy_mem(self, st, d, s, n):
        if type(n) is not int:
            if self.pmode and self.loopsum is not None:
                return self.loopsum.sym_copy(st, d, s, n)
            n = self.conc(st, n)
        if n == 0:
            return
        so, sf = self.access(st, s, n, False)
        do, df = self.access(st, d, n, True)
        if (so.arr is not None or do.arr is not None) and self.loopsum is not None:
            if so.arr is not None or do.arr is not None:
                if so.arr is not None and so.arr.active(sf) or do.arr is not None and do.arr.active(df):
                    return self.loopsum.sym_copy(st, d, s, n)
        if do.owner != st.owner:
            do = do.copy(st.owner)
            st.objs[d.o] = do
            if d.o == s.o:
                so = do
        if do.kind == "c":
            self.implicit_fail(st, "write to constant", do.name)
        # gather
        e = sf + n
        items = []
        if n < 4 * len(so.cells) + 16:
            for k in range(sf, e):
                c = so.cells.get(k)
                if c is not None:
                    items.append((k, c))
        else:
            items = sorted((k, c) for k, c in so.cells.items() if sf <= k < e)
        # a cell straddling the start
        for b in range(1, 16):
            c = so.cells.get(sf - b)
            if c is not None:
                if c[0] > b:
                    if type(c[1]) is not int:
                        raise Unsupported("copy from the middle of a cell")
                    for i in range(b, c[0]):
                        if sf - b + i < e:
                            items.insert(0, (sf - b + i, (1, wrap(c[1] >> (8 * i), 8))))
                break
        if items and items[-1][0] + items[-1][1][0] > e:
            k, c = items.pop()
            if type(c[1]) is int:
                for i in range(e - k):
                    items.append((k + i, (1, wrap(c[1] >> (8 * i), 8))))
            elif c[1] is not UNDEF:
                items.append((k, (e - k, PARTIAL)))
        if so.zero and not do.zero:
            cov = sum(c[0] for _, c in items)
            if cov < n:
                self.zero_range(do, df, n)
            else:
                self.clear_range(do, df, n)
        else:
            if do.zero and not so.zero:
                cov = sum(c[0] for _, c in items)
                self.clear_range(do, df, n)
                if cov < n and n <= 64:
                    pass        # uninitialised bytes (padding) read back as zero
            else:
                self.clear_range(do, df, n)
        for k, c in items:
            o2 = df + k - sf
            if c[0] != 8 or o2 % 8:
                do.pure8 = False
            do.cells[o2] = c
            if self.wlog is not None:
                self.wlog.append((d.o, o2, c[0], None))

    def set_mem(self, st, d, val, n):
        n = self.conc(st, n) if type(n) is not int else n
        if n == 0:
            return
        val = self.conc(st, val)
        o, f = self.access(st, d, n, True)
        if o.arr is not None and o.arr.active(f):
            raise Unsupported("memset on a symbolic array")
        o = self.wobj(st, d.o)
        if self.wlog is not None:
            for i in range(0, n, 8):
                self.wlog.append((d.o, f + i, min(8, n - i), None))
        if val & 255 == 0:
            self.zero_range(o, f, n)
            return
        self.clear_range(o, f, n)
        b = wrap(val, 8)
        w = 0
        for i in range(8):
            w |= (val & 255) << (8 * i)
        w = wrap(w, 64)
        e = f + n
        while f < e:
            if f % 8 == 0 and f + 8 <= e:
                o.cells[f] = (8, w)
                f += 8
            else:
                o.pure8 = False
                o.cells[f] = (1, b)
                f += 1

    # ------------------------------------------------------------ deciding conditions
    def decide(self, st, c):
        """True / False / None when the path condition decides c"""
        if c is True or c is False:
            return c
        if c in st.pcs:
            return True
        nc = bnot(c)
        if nc in st.pcs:
            return False
        r = bdecide(c, {})
        if r is not None:
            return r
        if self.solver.check(st.pc, (c,), self.feas_timeout) == "unsat":
            return False
        if self.solver.check(st.pc, (nc,), self.feas_timeout) == "unsat":
            return True
        return None

    def entails(self, st, c):
        if c is True or c is False:
            return c
        if c in st.pcs:
            return True
        if bdecide(c, {}) is True:
            return True
        return self.solver.check(st.pc, (bnot(c),), self.feas_timeout) == "unsat"

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd("infeasible")
        if c[0] == "and":
            for x in c[1]:
                self.assume(st, x)
            return
        if c not in st.pcs:
            st.pc.append(c)
            st.pcs.add(c)

    def truth(self, st, c):
        """a decided Python bool for c, forking if need be"""
        r = self.decide(st, c)
        if r is None:
            raise ForkBool(c)
        return r

    # ------------------------------------------------------------ integers
    def num(self, v):
        if v is UNDEF or type(v) is PBits:
            self.nundef += 1
            return T.var("undef!%d" % self.nundef, "I")
        if type(v) is bool:
            return int(v)
        if type(v) is tuple:
            return ite(v, 1, 0)
        return v

    def iadd(self, st, a, b, n):
        if type(a) is int and type(b) is int:
            return wrap(a + b, n)
        a, b = self.num(a), self.num(b)
        if type(a) is Ptr:
            if type(b) is Ptr:
                raise Unsupported("sum of pointers")
            return self.padd(a, b)
        if type(b) is Ptr:
            return self.padd(b, a)
        return self.wrapc(add(a, b), n)

    def wrapc(self, v, n):
        if type(v) is int:
            return wrap(v, n)
        # constant wrap-around terms such as x + 2^n - 1 reduce to x - 1
        c = v.t.get(())
        if c is not None and type(c) is int and not -(1 << (n - 1)) <= c < (1 << (n - 1)):
            return add(sub(v, c), wrap(c, n))
        return v

    def addr(self, st, p):
        if type(p) is Ptr:
            if p.o == 0:
                return p.f
            return add(p.o << 32, p.f)
        return p

    def isub(self, st, a, b, n):
        if type(a) is int and type(b) is int:
            return wrap(a - b, n)
        a, b = self.num(a), self.num(b)
        if type(a) is Ptr:
            if type(b) is Ptr:
                if a.o == b.o:
                    return sub(a.f, b.f)
                return self.isub(st, self.addr(st, a), self.addr(st, b), n)
            return self.padd(a, neg(b))
        if type(b) is Ptr:
            if type(a) is int and a == 0:
                return neg(self.addr(st, b))
            raise Unsupported("int - pointer")
        return self.wrapc(sub(a, b), n)

    def imul(self, st, a, b, n):
        if type(a) is int and type(b) is int:
            return wrap(a * b, n)
        a, b = self.num(a), self.num(b)
        if type(a) is Ptr or type(b) is Ptr:
            raise Unsupported("product with a pointer")
        return self.wrapc(mul(a, b), n)

    def nonneg(self, st, a):
        if type(a) is int:
            return a >= 0
        lo, _ = interval(a, {})
        if lo is not None and lo >= 0:
            return True
        return self.entails(st, le0(neg(a)))

    def idiv_exact(self, a, k):
        if type(a) is Poly and all(type(c) is int and c % k == 0 for c in a.t.values()):
            return mkpoly({m: c // k for m, c in a.t.items()})
        return None

    def divmod_(self, st, a, b, n, signed):
        """floor division for non-negative operands"""
        if type(a) is Ptr:
            a = self.addr(st, a)
        a, b = self.num(a), self.num(b)
        if type(b) is int and type(a) is int:
            if b == 0:
                self.implicit_fail(st, "integer division by zero", "")
            if signed:
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return wrap(q, n), wrap(a - q * b, n)
            m = (1 << n) - 1
            return wrap((a & m) // (b & m), n), wrap((a & m) % (b & m), n)
        if type(b) is not int:
            if self.decide(st, cmp0("eq", b)) is not False:
                if self.decide(st, cmp0("eq", b)) is None:
                    raise ForkBool(cmp0("eq", b))
                self.implicit_fail(st, "integer division by zero", "")
            if not self.pmode:
                b = self.conc(st, b)
        if type(b) is int and b == 0:
            self.implicit_fail(st, "integer division by zero", "")
        if type(b) is int:
            e = self.idiv_exact(a, abs(b)) if type(a) is Poly else None
            if e is not None and (signed or self.nonneg(st, a)):
                return (e if b > 0 else neg(e)), 0
        if type(b) is int and b < 0:
            q, r = self.divmod_(st, a, -b, n, signed)
            return neg(q), r
        if type(b) is not int and not self.entails(st, cmp0("lt", neg(b))):
            raise ForkBool(cmp0("lt", neg(b)))
        if not self.nonneg(st, a):
            if self.decide(st, cmp0("lt", a)) is True:
                if not signed:
                    raise Unsupported("unsigned division of a negative value %s by %s" % (a, b))
                q, r = self.divmod_(st, neg(a), b, n, signed)
                return neg(q), neg(r)
            raise ForkBool(cmp0("lt", a))
        if type(a) is int and type(b) is not int:
            if not self.pmode:
                raise Unsupported("division by a symbolic value")
        if type(b) is Poly and type(a) is Poly and len(b.t) == 1:
            from .loops import mono_div
            q, r = mono_div(a, b)
            if r == 0 or not (type(q) is int and q == 0) and self.entails(st, le0(neg(r))) and \
                    self.entails(st, cmp0("lt", sub(r, b))):
                return q, r
        q = of_atom(mk_atom("idiv", (a, b), "I"))
        r = of_atom(mk_atom("imod", (a, b), "I"))
        if type(b) is int:
            return self.split_divmod(a, b, q, r)
        return q, r

    def split_divmod(self, a, b, q, r):
        """(b*x + y) div b with the multiples of b taken out"""
        mt, rest = {}, {}
        for m, c in a.t.items():
            if c % b == 0:
                mt[m] = c // b
            else:
                rest[m] = c
        if not mt:
            return q, r
        w = mkpoly(rest)
        if isnum(w):
            qq, rr = divmod(w, b)
        else:
            lo, _ = interval(w, {})
            if lo is None or lo < 0:
                return q, r
            qq = of_atom(mk_atom("idiv", (w, b), "I"))
            rr = of_atom(mk_atom("imod", (w, b), "I"))
        return add(mkpoly(mt), qq), rr

    def ibit(self, st, op, a, b, n):
        if op == "and" and type(a) is Ptr or type(b) is Ptr:
            a, b = self.addr(st, a), self.addr(st, b)
            if type(a) is int and type(b) is int:
                return a & b
        if n == 1:
            if a is UNDEF or b is UNDEF:
                a = self.undef_bool() if a is UNDEF else a
                b = self.undef_bool() if b is UNDEF else b
            a = bool(a) if type(a) is int else a
            b = bool(b) if type(b) is int else b
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if a is True or a is False:
                return bnot(b) if a else b
            if b is True or b is False:
                return bnot(a) if b else a
            return bor(band(a, bnot(b)), band(bnot(a), b))
        if type(a) is int and type(b) is int:
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        ta, tb = type(a), type(b)
        if (a is UNDEF or ta is PBits or ta is int) and (b is UNDEF or tb is PBits or tb is int):
            full = (1 << n) - 1
            va, ua = (0, full) if a is UNDEF else (a.v, a.u) if ta is PBits else (a & full, 0)
            vb, ub = (0, full) if b is UNDEF else (b.v, b.u) if tb is PBits else (b & full, 0)
            if op == "and":
                return pbits(va & vb, (ua & (vb | ub)) | (ub & (va | ua)), n)
            if op == "or":
                return pbits(va | vb, (ua & ~vb) | (ub & ~va), n)
            return pbits(va ^ vb, ua | ub, n)
        if ta is Pack or tb is Pack:
            return self.packop(st, op, a, b)
        a, b = self.num(a), self.num(b)
        if type(a) is int:
            a, b = b, a
        if op == "or" and n == 64:
            h = self.high32(a) if type(a) is Poly else None
            if h is None and type(b) is Poly and (h := self.high32(b)) is not None:
                a, b = b, a
            if h is not None and (type(b) is Poly or 0 <= b < 1 << 32):
                return pack(self.sgn32(st, b), self.sgn32(st, h))
            if type(a) is Poly and type(b) is int and b & 0xffffffff == 0:
                return pack(self.sgn32(st, a), wrap(b >> 32, 32))
        if type(b) is int:
            if op == "and":
                if b == -1:
                    return a
                if b == 0:
                    return 0
                if b > 0 and b & (b + 1) == 0:
                    if self.nonneg(st, a) or True:
                        s = single_ite(a)
                        if s is not None:
                            c0, k, c, x, y = s
                            return ite(c, (c0 + k * x) & b, (c0 + k * y) & b)
                        return self.divmod_(st, a, b + 1, n, False)[1]
                if b < 0 and (-b) & (-b - 1) == 0:
                    return sub(a, self.divmod_(st, a, -b, n, False)[1])
            if op == "xor" and b == -1:
                return sub(-1, a)
            if op in ("or", "xor") and b == 0:
                return a
        sa, sb = single_ite(a), single_ite(b)
        f = (lambda x, y: x & y) if op == "and" else (lambda x, y: x | y) if op == "or" else (lambda x, y: x ^ y)
        if sa is not None:
            c0, k, c, x, y = sa
            if type(b) is int:
                return ite(c, f(c0 + k * x, b), f(c0 + k * y, b))
            if sb is not None:
                d0, l, d, u, v = sb
                return ite(c, ite(d, f(c0 + k * x, d0 + l * u), f(c0 + k * x, d0 + l * v)),
                           ite(d, f(c0 + k * y, d0 + l * u), f(c0 + k * y, d0 + l * v)))
        if self.pmode and not isnum(a):
            raise Unsupported("bit operation %s on %s, %s" % (op, a, b))
        a, b = self.conc(st, a), self.conc(st, b)
        return f(a, b)

    def high32(self, a):
        """a/2^32 if all coefficients are multiples of 2^32"""
        return self.idiv_exact(a, 1 << 32)

    def sgn32(self, st, a):
        """signed value of an unsigned 32-bit word"""
        if type(a) is int:
            return wrap(a, 32)
        if self.truth(st, cmp0("lt", sub(a, 1 << 31))):
            return a
        return sub(a, 1 << 32)

    def usg32(self, st, a):
        if type(a) is int:
            return a & 0xffffffff
        if type(a) is Poly and not self.nonneg(st, a) and self.truth(st, cmp0("lt", a)):
            return add(a, 1 << 32)
        return a

    def packop(self, st, op, a, b):
        if type(a) is not Pack:
            a, b = b, a
        if type(b) is int:
            lo, hi = wrap(b, 32), wrap(b >> 32, 32)
            b = Pack(lo, hi)
        if type(b) is Pack:
            def f(x, y):
                if type(x) is int and type(y) is int:
                    return x & y if op == "and" else x | y if op == "or" else x ^ y
                if type(x) is int:
                    x, y = y, x
                if y == 0 and type(y) is int:
                    return 0 if op == "and" else x
                if y == -1 and type(y) is int and op == "and":
                    return x
                raise Unsupported("%s of %r and %r" % (op, x, y))
            lo, hi = f(a.lo, b.lo), f(a.hi, b.hi)
            if op == "and" and type(hi) is int and hi == 0:
                return self.usg32(st, lo)
            return pack(lo, hi)
        raise Unsupported("%s of %r and %r" % (op, a, b))

    def undef_bool(self):
        self.nundef += 1
        return cmp0("eq", T.var("undef!%d" % self.nundef, "I", 0, 1))

    def shift(self, st, op, a, b, n):
        if type(b) is not int:
            b = self.conc(st, b)
        if type(a) is Ptr:
            a = self.addr(st, a)
        if type(a) is Pack:
            if b == 32:
                return self.usg32(st, a.hi) if op == "lshr" else a.hi if op == "ashr" else pack(0, a.lo)
            raise Unsupported("shift of %r" % (a,))
        if type(a) is PBits and op != "ashr":
            return pbits(a.v << b, a.u << b, n) if op == "shl" else pbits(a.v >> b, a.u >> b, n)
        if type(a) is int:
            if op == "shl":
                return wrap(a << b, n)
            if op == "lshr":
                return wrap((a & ((1 << n) - 1)) >> b, n)
            return a >> b
        a = self.num(a)
        if op == "shl":
            return scale(a, 1 << b)
        if b == n - 1:
            c = cmp0("lt", a)
            return ite(c, 1 if op == "lshr" else -1, 0)
        e = self.idiv_exact(a, 1 << b)
        if e is not None and (op == "ashr" or self.nonneg(st, a)):
            return e
        return self.divmod_(st, a, 1 << b, n, False)[0]

    def icmp(self, st, pred, a, b, ty):
        ta, tb = type(a), type(b)
        if ta is PBits or tb is PBits:
            return self.undef_bool()
        if ta is int and tb is int:
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            if pred[0] == "u":
                m = (1 << (64 if ty.k == "ptr" else ty.n)) - 1
                a &= m
                b &= m
            k = pred[1:]
            return a < b if k == "lt" else a > b if k == "gt" else a <= b if k == "le" else a >= b
        if ta is Ptr or tb is Ptr:
            if a is UNDEF or b is UNDEF:
                return self.undef_bool()
            if ta is Ptr and tb is Ptr:
                if a.o == b.o:
                    d = sub(a.f, b.f)
                else:
                    if pred == "eq":
                        return False
                    if pred == "ne":
                        return True
                    d = -1 if a.o < b.o else 1
            else:
                if tb is not Ptr and type(b) is int and ta is Ptr:
                    if a.o == 0:
                        d = sub(a.f, b)
                    elif pred in ("eq", "ne"):
                        if b == 0 or True:
                            return pred == "ne"
                    else:
                        d = sub(self.addr(st, a), b)
                elif type(a) is int:
                    if b.o == 0:
                        d = sub(a, b.f)
                    elif pred in ("eq", "ne"):
                        return pred == "ne"
                    else:
                        d = sub(a, self.addr(st, b))
                else:
                    raise Unsupported("comparison of pointer and %r" % ((a, b),))
            k = pred if pred in ("eq", "ne") else pred[1:]
        else:
            if ta is bool or tb is bool or ta is tuple or tb is tuple:
                if ty.k == "i" and ty.n == 1:
                    if pred in ("eq", "ne"):
                        a = self.tobool(a)
                        b = self.tobool(b)
                        x = bor(band(a, bnot(b)), band(bnot(a), b))
                        return x if pred == "ne" else bnot(x)
            a, b = self.num(a), self.num(b)
            if pred[0] == "u":
                k = pred[1:]
                na, nb = self.nonneg(st, a), self.nonneg(st, b)
                if not (na and nb):
                    # unsigned order of signed-canonical values
                    if k in ("gt", "le"):
                        r = self.ult(b, a)
                        return r if k == "gt" else bnot(r)
                    r = self.ult(a, b)
                    return r if k == "lt" else bnot(r)
            else:
                k = pred if pred in ("eq", "ne") else pred[1:]
            d = sub(a, b)
        if k == "eq":
            return cmp0("eq", d)
        if k == "ne":
            return bnot(cmp0("eq", d))
        if k == "lt":
            return cmp0("lt", d)
        if k == "ge":
            return bnot(cmp0("lt", d))
        if k == "le":
            return cmp0("le", d)
        return bnot(cmp0("le", d))

    def tobool(self, v):
        if type(v) is int:
            return bool(v & 1)
        if v is UNDEF:
            return self.undef_bool()
        return v

    def ult(self, a, b):
        an, bn = cmp0("lt", a), cmp0("lt", b)
        lt = cmp0("lt", sub(a, b))
        return bite(an, bite(bn, lt, False), bite(bn, True, lt))

    # ------------------------------------------------------------ reals
    def fnum(self, v):
        if v is UNDEF:
            self.nundef += 1
            return T.var("fundef!%d" % self.nundef, "R")
        if type(v) is tuple:
            return ite(v, 1, 0)
        if type(v) is Ptr:
            raise Unsupported("pointer as a number")
        return v

    def fop(self, st, op, a, b):
        a, b = self.fnum(a), self.fnum(b)
        if type(a) is float or type(b) is float:
            if isnum(a) or type(a) is float:
                if isnum(b) or type(b) is float:
                    try:
                        x, y = float(a), float(b)
                        r = x + y if op == "fadd" else x - y if op == "fsub" else x * y if op == "fmul" else x / y
                    except (ZeroDivisionError, OverflowError):
                        r = float("nan")
                    return r if r != r or r in FLOATINF else norm(Fraction(r))
            if op in ("fadd", "fsub"):
                inf = a if type(a) is float else (b if op == "fadd" else -b)
                return inf
            if op == "fdiv" and type(b) is float and b in FLOATINF:
                return 0
            raise Unsupported("infinite operand")
        if op == "fadd":
            return add(a, b)
        if op == "fmul":
            return mul(a, b)
        if op == "fsub":
            return sub(a, b)
        if op == "fdiv":
            return self.fdiv(st, a, b)
        if op == "frem":
            if isnum(a) and isnum(b):
                if b == 0:
                    return float("nan")
                import math
                q = abs(Fraction(a)) // abs(Fraction(b))
                r = abs(Fraction(a)) - q * abs(Fraction(b))
                return norm(r if a >= 0 else -r)
            return self.B.fmod_(self, st, a, b)
        raise Unsupported(op)

    def fdiv(self, st, a, b):
        if isnum(b):
            if b == 0:
                if isnum(a):
                    return float("nan") if a == 0 else float("inf") if a > 0 else float("-inf")
                self.implicit_fail(st, "division by zero", "%s / 0" % (a,))
            return div(a, b)
        z = self.decide(st, cmp0("eq", b))
        if z is None:
            if self.quiet:
                # discovery only
                self.assume(st, bnot(cmp0("eq", b)))
                return div(a, b)
            raise ForkBool(cmp0("eq", b))
        if z:
            self.implicit_fail(st, "division by zero", "%s / (%s)" % (a, b))
        return div(a, b)

    def fcmp(self, st, pred, a, b):
        a, b = self.fnum(a), self.fnum(b)
        if type(a) is float or type(b) is float:
            if (type(a) is float and a != a) or (type(b) is float and b != b):
                return pred[0] == "u" or pred == "true"
            def cls(v):
                return (v == float("inf")) - (v == float("-inf")) if type(v) is float else 0
            d = cls(a) - cls(b)
            if pred == "ord":
                return True
            if pred == "uno":
                return False
            k = pred[1:]
        else:
            if pred == "ord" or pred == "true":
                return True
            if pred == "uno" or pred == "false":
                return False
            k = pred[1:]
            if isnum(a) and isnum(b):
                d = a - b
            else:
                d = sub(a, b)
        if k == "eq":
            return cmp0("eq", d)
        if k == "ne":
            return bnot(cmp0("eq", d))
        if k == "lt":
            return cmp0("lt", d)
        if k == "ge":
            return bnot(cmp0("lt", d))
        if k == "le":
            return cmp0("le", d)
        return bnot(cmp0("le", d))

    # ------------------------------------------------------------ running
    def start(self, name, args=()):
        st = self.new_state()
        self.run_ctors(st)
        f = self.mod.func(name)
        if f is None:
            raise Unsupported("no function " + name)
        fr = Frame(f)
        for p, a in zip(f.params, args):
            fr.regs[p] = a
        st.frames.append(fr)
        return st

    def run_ctors(self, st):
        g = self.mod.gtext.get("llvm.global_ctors")
        if not g:
            return
        ty, ini, _ = self.mod.global_init("llvm.global_ctors")
        if not isinstance(ini, list):
            return
        ini = sorted(ini, key=lambda e: e[0])
        for e in ini:
            f = self.mod.func(e[1].name)
            try:
                base = len(st.frames)
                fr = Frame(f)
                st.frames.append(fr)
                self.run_path(st, base)
            except (Unsupported, PathEnd, Concretise, ForkBool) as x:
                # static initialisers of no concern to the function under contract may fail; what they would have
                # initialised stays as the linker left it, and reading it is then visible as an unsupported access
                self.unsup.append("static initialiser %s: %s" % (e[1].name, x))
                del st.frames[:]

    def explore(self, st):
        """run all paths from st"""
        work = [st]
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")
            if self.paths + self.killed > self.max_paths:
                raise Budget("paths")
            if len(self.failures) >= self.fail_limit:
                return
            s = work.pop()
            try:
                self.run_path(s, 0)
                self.paths += 1
                self.covers |= s.covers
                if len(self.samples) < 5:
                    self.samples.append({"path_condition": [bstr(b)[:160] for b in s.pc[:8]], "inputs": [n for n, _ in s.inputs[:8]]})
            except PathEnd as e:
                self.killed += 1
                if e.why == "done":
                    self.paths += 1
                    self.covers |= s.covers
            except ForkBool as e:
                if self.loopsum is not None and self.loopsum.has_lazy(e.cond):
                    raise Unsupported("branch on an element that cannot be located")
                for b in (bnot(e.cond), e.cond):
                    t = s.fork(self)
                    if self.solver.check(s.pc, (b,), self.feas_timeout) == "unsat":
                        continue
                    try:
                        self.assume(t, b)
                    except PathEnd:
                        continue
                    work.append(t)
            except Concretise as e:
                pick = getattr(e, "lo", None) is not None
                vals = range(e.lo, e.hi + 1) if pick else self.enum_values(s, e.term)
                for v in reversed(vals):
                    t = s.fork(self)
                    if not pick:
                        self.assume(t, cmp0("eq", sub(e.term, v)))
                    t.known[e.term] = v
                    work.append(t)

    def enum_values(self, st, term, limit=64):
        vals = []
        extra = []
        if not term.is_int():
            raise Unsupported("case split on a real term")
        while True:
            r, m = self.solver.check(st.pc, extra, 4000, model=True)
            if r == "unsat":
                return sorted(vals)
            if r != "sat":
                raise Unsupported("cannot enumerate %s" % (term,))
            v = model_value(m, self.solver.zi(term))
            if len(vals) >= limit:
                raise Unsupported("too many values for %s" % (term,))
            vals.append(v)
            extra.append(bnot(cmp0("eq", sub(term, v))))

    def run_path(self, st, base):
        """execute until the frame stack is down to base"""
        H = HANDLERS
        n = 0
        while len(st.frames) > base:
            fr = st.frames[-1]
            ins = fr.blk.ins[fr.ip]
            h = H.get(ins.op)
            if h is None:
                raise Unsupported("instruction " + (ins.txt or ins.op))
            try:
                h(self, st, fr, ins)
            except Unsupported as e:
                e.locate(st)
                raise
            n += 1
            if n & 4095 == 0:
                self.steps += 4096
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time")
        self.steps += n & 4095

    def op(self, st, fr, a):
        t = type(a)
        if t is Reg:
            return fr.regs[a]
        if t is GVal:
            return self.gval(st, a)
        if t is tuple and a and a[0] == "cexpr":
            return self.cexpr(st, a)
        if t is Zero:
            return [self.op(st, fr, x) for x in expand_zero(self.mod, a)]
        if t is list:
            return [self.op(st, fr, x) for x in a]
        return a

    def jump(self, st, fr, target):
        if self.loopsum is not None and self.loopsum.enter(st, fr, target):
            return
        b = fr.f.blocks[target]
        cur = fr.blk.name
        if b.phis:
            vals = [(p.dst, self.op(st, fr, p.a[cur])) for p in b.phis]
            for d, v in vals:
                fr.regs[d] = v
        fr.prev = cur
        fr.blk = b
        fr.ip = 0

    def ret(self, st, v):
        fr = st.frames.pop()
        for i in fr.loc:
            st.objs.pop(i, None)
        if fr.lst is not None:
            fr.lst(self, st, v)
        if not st.frames:
            return
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = v
        if fr.nxt is not None:
            self.jump(st, up, fr.nxt)
        else:
            up.ip += 1

    def finish_call(self, st, fr, ins, v):
        """a call answered without entering a body"""
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.op == "invoke":
            self.jump(st, fr, ins.x[0])
        else:
            fr.ip += 1

    def call(self, st, fr, ins):
        cal = ins.a
        if type(cal) is Reg:
            p = fr.regs[cal]
            if type(p) is not Ptr or p.o == 0:
                self.implicit_fail(st, "call through null", "")
            name = self.idfn.get(p.o)
            if name is None:
                self.implicit_fail(st, "call through a data pointer", "")
        elif type(cal) is GVal:
            name = cal.name
            while name in self.mod.alias:
                name = self.mod.alias[name]
        else:
            raise Unsupported("callee %r" % (cal,))
        self.callname(st, fr, ins, name, [None if a is None else self.op(st, fr, a) for a in ins.b])

    def callname(self, st, fr, ins, name, args):
        bi = self.intr_cache.get(name, 0)
        if bi == 0:
            bi = self.B.lookup(self, name)
            self.intr_cache[name] = bi
        if bi is not None:
            v = bi(self, st, args, name, fr, ins)
            if v is PUSHED:
                return
            self.finish_call(st, fr, ins, v)
            return
        f = self.mod.func(name)
        if f is None:
            raise Unsupported("call to external function " + name)
        self.push(st, f, args, ins.dst, ins.x[0] if ins.op == "invoke" else None)

    def push(self, st, f, args, dst, nxt):
        if len(st.frames) > 400:
            raise Unsupported("recursion too deep")
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        g = Frame(f)
        g.dst = dst
        g.nxt = nxt
        for p, a in zip(f.params, args):
            bv = f.byval.get(p)
            if bv is not None:
                n = self.mod.size(bv)
                i = self.alloc(st, n, "s", "byval " + p)
                g.loc.append(i)
                self.copy_mem(st, Ptr(i, 0), a, n)
                a = Ptr(i, 0)
            g.regs[p] = a
        st.frames.append(g)
        return g

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, detail=""):
        """prove goal under the path condition; on refutation record the failing input"""
        if self.quiet:
            return True
        if self.loopsum is not None:
            goal = self.loopsum.settle(st, goal)
        self.obl += 1
        lb = self.labels.setdefault(label, [0, 0, {}])
        lb[0] += 1
        status, who, m, env = self.prove(st, goal)
        if status != "proved" and self.loopsum is not None and type(goal) is tuple:
            g = self.loopsum.pin(st, goal)
            if g is not goal:
                r = self.prove(st, g)
                if r[0] == "proved":
                    status, who, m, env = r
        if status == "proved":
            self.disch += 1
            lb[1] += 1
            lb[2][who] = lb[2].get(who, 0) + 1
            self.byback[who] = self.byback.get(who, 0) + 1
            return True
        if status == "refuted":
            self.violated(st, label, "postcondition", detail or bstr(goal)[:400], m, who, env)
        else:
            self.unknowns.append(label)
        return False

    def prove(self, st, goal):
        S = self.solver
        if goal is True:
            return "proved", "evaluation", None, None
        if goal is not False:
            if goal in st.pcs:
                return "proved", "path condition", None, None
            if goal[0] == "eq" and is_zero_identically(goal[1]):
                return "proved", "normal form", None, None
            if bdecide(goal, {}) is True:
                return "proved", "interval", None, None
            from .evalf import random_cex
            env = random_cex(st.pc, goal, self.rng, 24, [t for _, t in st.inputs])
            if env is not None:
                return "refuted", "evaluation at a random point", None, env
        if goal is False:
            from .evalf import random_cex
            env = random_cex(st.pc, False, self.rng, 24, [t for _, t in st.inputs])
            if env is not None:
                return "refuted", "evaluation at a random point", None, env
        t, w, m = S.prove(st.pc, goal, 6000)
        if t == "refuted" and goal is not False and goal[0] == "eq":
            # prefer a model in which the two sides differ clearly
            p = goal[1]
            nice = [bor(lt0(sub(Fraction(1, 100), p)), lt0(add(p, Fraction(1, 100))))]
            for nm, x in st.inputs:
                if type(x) is Poly and not x.is_int():
                    nice.append(le0(sub(x, 10)))
                    nice.append(le0(sub(-10, x)))
            for k in (nice, nice[:1]):
                r, m2 = S.check(st.pc, k, 3000, model=True)
                if r == "sat":
                    m = m2
                    break
        return t, w, m, None


PUSHED = object()


# ---------------------------------------------------------------- instruction handlers
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def vec2(fr, ins, a, b, f):
    if type(a) is list:
        fr.regs[ins.dst] = [f(x, y) for x, y in zip(a, b)]
    else:
        fr.regs[ins.dst] = f(a, b)
    fr.ip += 1


@handler("nop")
def h_nop(E, st, fr, ins):
    fr.ip += 1


@handler("add", "sub", "mul")
def h_addsub(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        f = E.iadd if ins.op == "add" else E.isub if ins.op == "sub" else E.imul
        fr.regs[ins.dst] = [f(st, x, y, ins.ty.a.n) for x, y in zip(a, b)]
    elif ins.op == "add":
        fr.regs[ins.dst] = E.iadd(st, a, b, ins.ty.n)
    elif ins.op == "sub":
        fr.regs[ins.dst] = E.isub(st, a, b, ins.ty.n)
    else:
        fr.regs[ins.dst] = E.imul(st, a, b, ins.ty.n)
    fr.ip += 1


@handler("udiv", "sdiv")
def h_div(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    fr.regs[ins.dst] = E.divmod_(st, a, b, ins.ty.n, ins.op == "sdiv")[0]
    fr.ip += 1


@handler("urem", "srem")
def h_rem(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    fr.regs[ins.dst] = E.divmod_(st, a, b, ins.ty.n, ins.op == "srem")[1]
    fr.ip += 1


@handler("shl", "lshr", "ashr")
def h_shift(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        fr.regs[ins.dst] = [E.shift(st, ins.op, x, y, ins.ty.a.n) for x, y in zip(a, b)]
    else:
        fr.regs[ins.dst] = E.shift(st, ins.op, a, b, ins.ty.n)
    fr.ip += 1


@handler("and", "or", "xor")
def h_bits(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        fr.regs[ins.dst] = [E.ibit(st, ins.op, x, y, ins.ty.a.n) for x, y in zip(a, b)]
    elif ins.op == "or" and "disjoint" in ins.txt and not (type(a) is int and type(b) is int) and ins.ty.n > 1:
        fr.regs[ins.dst] = E.iadd(st, a, b, ins.ty.n)
    else:
        fr.regs[ins.dst] = E.ibit(st, ins.op, a, b, ins.ty.n)
    fr.ip += 1


@handler("fadd", "fsub", "fmul", "fdiv", "frem")
def h_fop(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        fr.regs[ins.dst] = [E.fop(st, ins.op, x, y) for x, y in zip(a, b)]
    else:
        fr.regs[ins.dst] = E.fop(st, ins.op, a, b)
    fr.ip += 1


@handler("fneg")
def h_fneg(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    f = lambda x: -x if type(x) is float else neg(E.fnum(x))
    fr.regs[ins.dst] = [f(x) for x in a] if type(a) is list else f(a)
    fr.ip += 1


@handler("icmp")
def h_icmp(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        fr.regs[ins.dst] = [E.icmp(st, ins.c, x, y, ins.ty.a) for x, y in zip(a, b)]
    else:
        fr.regs[ins.dst] = E.icmp(st, ins.c, a, b, ins.ty)
    fr.ip += 1


@handler("fcmp")
def h_fcmp(E, st, fr, ins):
    a, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    if type(a) is list:
        fr.regs[ins.dst] = [E.fcmp(st, ins.c, x, y) for x, y in zip(a, b)]
    else:
        fr.regs[ins.dst] = E.fcmp(st, ins.c, a, b)
    fr.ip += 1


@handler("select")
def h_select(E, st, fr, ins):
    c = E.op(st, fr, ins.a)
    a, b = E.op(st, fr, ins.b), E.op(st, fr, ins.c)
    if type(c) is list:
        fr.regs[ins.dst] = [E.select(st, x, y, z) for x, y, z in zip(c, a, b)]
    else:
        fr.regs[ins.dst] = E.select(st, c, a, b)
    fr.ip += 1


def select(E, st, c, a, b):
    if c is UNDEF:
        c = E.undef_bool()
    if type(c) is int:
        c = bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is type(b) and type(a) is not list and a == b:
        return a
    ba, bb = type(a) is bool or type(a) is tuple, type(b) is bool or type(b) is tuple
    if ba and bb:
        return bite(c, a, b)
    if (isnum(a) or type(a) is Poly) and (isnum(b) or type(b) is Poly):
        r = E.decide(st, c)
        if r is not None:
            return a if r else b
        return ite(c, a, b)
    return a if E.truth(st, c) else b


Engine.select = select


@handler("trunc")
def h_trunc(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    n = ins.ty.n

    def f(a):
        if type(a) is int:
            return bool(a & 1) if n == 1 else wrap(a, n)
        if type(a) is Pack:
            if n == 32:
                return a.lo
            raise Unsupported("truncated %r" % (a,))
        if type(a) is PBits:
            return bool(a.v & 1) if n == 1 and not a.u & 1 else pbits(a.v, a.u, n)
        if a is UNDEF or type(a) is Ptr:
            if a is UNDEF:
                return a
            raise Unsupported("truncated pointer")
        a = E.num(a)
        if n == 1:
            s = single_ite(a)
            if s is not None:
                c0, k, c, x, y = s
                return bite(c, bool((c0 + k * x) & 1), bool((c0 + k * y) & 1))
            r = E.divmod_(st, a, 2, 64, False)[1]
            return cmp0("eq", sub(r, 1))
        return a
    fr.regs[ins.dst] = [f(x) for x in a] if type(a) is list else f(a)
    fr.ip += 1


@handler("zext", "sext")
def h_ext(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    src = ins.b
    zx = ins.op == "zext"

    def f(a, n):
        if type(a) is bool:
            return (1 if zx else -1) if a else 0
        if type(a) is int:
            return a + (1 << n) if zx and a < 0 else a
        if type(a) is tuple:
            return ite(a, 1 if zx else -1, 0)
        if a is UNDEF:
            return a
        if zx and not E.nonneg(st, a):
            c = cmp0("lt", a)
            if E.truth(st, c):
                return add(a, 1 << n)
        return a
    fr.regs[ins.dst] = [f(x, src.a.n) for x in a] if type(a) is list else f(a, src.n)
    fr.ip += 1


@handler("fptrunc", "fpext", "bitcast", "addrspacecast", "freeze")
def h_same(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    if ins.op == "bitcast" and ins.b.k != ins.ty.k and ins.b.k != "ptr":
        raise Unsupported("bitcast " + ins.txt)
    fr.regs[ins.dst] = a
    fr.ip += 1


@handler("ptrtoint", "inttoptr")
def h_ptrint(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    if ins.op == "inttoptr" and type(a) is int:
        a = NULL if a == 0 else Ptr(0, a)
    elif ins.op == "ptrtoint" and type(a) is Ptr and a.o == 0:
        a = a.f
    fr.regs[ins.dst] = a
    fr.ip += 1


@handler("sitofp", "uitofp")
def h_itof(E, st, fr, ins):
    a = E.op(st, fr, ins.a)

    def f(a, n):
        if type(a) is bool:
            return int(a) if ins.op == "uitofp" else -int(a)
        if type(a) is int:
            return a + (1 << n) if ins.op == "uitofp" and a < 0 else a
        a = E.num(a)
        if ins.op == "uitofp" and not E.nonneg(st, a):
            if E.truth(st, cmp0("lt", a)):
                return add(a, 1 << n)
        return a
    fr.regs[ins.dst] = [f(x, ins.b.a.n) for x in a] if type(a) is list else f(a, ins.b.n)
    fr.ip += 1


@handler("fptosi", "fptoui")
def h_ftoi(E, st, fr, ins):
    a = E.fnum(E.op(st, fr, ins.a))
    if type(a) is float:
        raise Unsupported("conversion of inf/nan")
    if isnum(a):
        v = int(a)      # toward zero
        fr.regs[ins.dst] = wrap(v, ins.ty.n)
    elif a.is_int():
        fr.regs[ins.dst] = a
    else:
        fr.regs[ins.dst] = E.B.ftoi(E, st, a)
    fr.ip += 1


@handler("load")
def h_load(E, st, fr, ins):
    p = E.op(st, fr, ins.a)
    fr.regs[ins.dst] = E.load(st, p, ins.ty)
    fr.ip += 1


@handler("store")
def h_store(E, st, fr, ins):
    v = E.op(st, fr, ins.a)
    p = E.op(st, fr, ins.b)
    E.store(st, p, ins.ty, v)
    fr.ip += 1


@handler("getelementptr")
def h_gep(E, st, fr, ins):
    p = E.op(st, fr, ins.a)
    if type(p) is list:
        raise Unsupported("vector gep")
    off = ins.b
    for sc, r in ins.c:
        i = fr.regs[r]
        if type(i) is int:
            if type(off) is int:
                off += sc * i
            else:
                off = add(off, sc * i)
        elif type(i) is Ptr:
            raise Unsupported("gep by pointer")
        else:
            off = add(off, scale(E.num(i), sc))
    fr.regs[ins.dst] = E.padd(p, off)
    fr.ip += 1


@handler("alloca")
def h_alloca(E, st, fr, ins):
    n = E.op(st, fr, ins.a)
    n = E.conc(st, n)
    i = E.alloc(st, n * E.mod.size(ins.ty), "s", "local %s of %s" % (ins.dst, fr.f.name))
    fr.loc.append(i)
    fr.regs[ins.dst] = Ptr(i, 0)
    fr.ip += 1


@handler("br")
def h_br(E, st, fr, ins):
    if ins.a is None:
        E.jump(st, fr, ins.b)
        return
    c = E.op(st, fr, ins.a)
    if type(c) is int:
        c = bool(c)
    if c is UNDEF:
        c = E.undef_bool()
    if c is True or c is False:
        t = ins.b if c else ins.c
    else:
        t = ins.b if E.truth(st, c) else ins.c
    E.jump(st, fr, t)


@handler("switch")
def h_switch(E, st, fr, ins):
    v = E.op(st, fr, ins.a)
    if type(v) is bool:
        v = int(v)
    if type(v) is not int:
        v = E.num(v)
        for k, t in ins.c:
            if E.truth(st, cmp0("eq", sub(v, int(k)))):
                E.jump(st, fr, t)
                return
        E.jump(st, fr, ins.b)
        return
    for k, t in ins.c:
        if int(k) == v:
            E.jump(st, fr, t)
            return
    E.jump(st, fr, ins.b)


@handler("ret")
def h_ret(E, st, fr, ins):
    v = None if ins.ty is None else E.op(st, fr, ins.a)
    E.ret(st, v)


@handler("call", "invoke")
def h_call(E, st, fr, ins):
    E.call(st, fr, ins)


@handler("unreachable")
def h_unreach(E, st, fr, ins):
    E.implicit_fail(st, "unreachable code reached", "")


@handler("resume", "landingpad")
def h_resume(E, st, fr, ins):
    raise PathEnd("exception")


@handler("fence")
def h_fence(E, st, fr, ins):
    fr.ip += 1


@handler("extractvalue")
def h_ev(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    for i in ins.b:
        a = a if a is UNDEF else a[i]
    if type(a) is GVal:
        a = E.gval(st, a)
    fr.regs[ins.dst] = a
    fr.ip += 1


@handler("insertvalue")
def h_iv(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    b = E.op(st, fr, ins.b)
    idx = ins.c

    def put(a, ty, k):
        if k == len(idx):
            return b
        t = E.mod.resolve(ty)
        if a is UNDEF:
            a = [UNDEF] * (len(t.a) if t.k == "struct" else t.n)
        a = list(a)
        a[idx[k]] = put(a[idx[k]], t.a[idx[k]] if t.k == "struct" else t.a, k + 1)
        return a
    fr.regs[ins.dst] = put(a, ins.ty, 0)
    fr.ip += 1


@handler("extractelement")
def h_ee(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    i = E.conc(st, E.op(st, fr, ins.b))
    fr.regs[ins.dst] = a[i] if a is not UNDEF else UNDEF
    fr.ip += 1


@handler("insertelement")
def h_ie(E, st, fr, ins):
    a = E.op(st, fr, ins.a)
    b = E.op(st, fr, ins.b)
    i = E.conc(st, E.op(st, fr, ins.c))
    a = [UNDEF] * ins.ty.n if a is UNDEF else list(a)
    a[i] = b
    fr.regs[ins.dst] = a
    fr.ip += 1


@handler("shufflevector")
def h_sv(E, st, fr, ins):
    a, b, m = E.op(st, fr, ins.a), E.op(st, fr, ins.b), ins.c
    n = ins.ty.n
    a = [UNDEF] * n if a is UNDEF else a
    b = [UNDEF] * n if b is UNDEF else b
    w = list(a) + list(b)
    fr.regs[ins.dst] = [UNDEF if i is UNDEF else w[i] for i in m]
    fr.ip += 1


@handler("atomicrmw")
def h_arm(E, st, fr, ins):
    p, b = E.op(st, fr, ins.a), E.op(st, fr, ins.b)
    old = E.load(st, p, ins.ty)
    new = b if ins.c == "xchg" else E.iadd(st, old, b, ins.ty.n) if ins.c == "add" else E.isub(st, old, b, ins.ty.n) \
        if ins.c == "sub" else None
    if new is None:
        raise Unsupported(ins.txt)
    E.store(st, p, ins.ty, new)
    fr.regs[ins.dst] = old
    fr.ip += 1
