"""Functions answered by the verifier itself: the contract vocabulary of vc.h, compiler intrinsics, the C library and
the parts of the C++ runtime that have no source here.  Everything in this file belongs to the trusted base."""
import re, math
from fractions import Fraction
from .terms import *
from . import terms as T
from .ir import *
from .engine import *
from .engine import cmp0, wrap, Ptr, NULL, PUSHED, select

TABLE = {}
SILENT = re.compile(r'^(_ZNSo|_ZNSolsE|_ZStls|_ZSt4endl|_ZSt5flush|_ZSt16__ostream_insert|_ZN3utl9LogStream|_ZNSt8ios_base'
                    r'|_ZNSt9basic_ios|_ZSt4setw|_ZSt12setprecision|_ZSt7setfill|_ZNSt7__cxx1119basic_ostringstreamI'
                    r'|_ZSt8showbase|_ZSt10scientific|_ZSt5fixed'
                    r'|_ZNSt7__cxx1118basic_stringstreamI|_ZNSt14basic_ofstreamI|_ZN3utl8profiler|_ZN8Profiler|_ZN3utl4ProfC|_ZN3utl4ProfD)')


# stream parts executed from the real library code instantiated in support/streams.cpp
MODELLED = re.compile(r'^(_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt7__cxx1118basic_stringstreamI|_ZNSt7__cxx1119basic_istringstreamI'
                      r'|_ZNSt7__cxx1119basic_ostringstreamI)')
STREAM_STR = re.compile(r'^_ZNKR?O?St7__cxx111[89]basic_o?stringstreamI.*(3str|4view)')


MODELLED_OUT = re.compile(r'^(_ZNSolsE|_ZStls|_ZNSo5writeE|_ZNSo3putE|_ZSt16__ostream_insert|_ZNSo9_M_insertI)')


def builtin(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def lookup(E, name):
    f = TABLE.get(name)
    if f is not None:
        return f
    if name.startswith("llvm."):
        p = name.split(".")
        for k in range(len(p), 1, -1):
            f = TABLE.get(".".join(p[:k]))
            if f is not None:
                return f
        return unsupported
    if name.startswith("vc_") and name != "vc_file":
        return None if E.mod.has(name) else unsupported
    if STREAM_STR.match(name) and E.mod.has(name):
        return stream_str
    if SILENT.match(name) and not (MODELLED.match(name) and E.mod.has(name)):
        E.trusted.add("stream output (no effect on the state)")
        return silent
    if name.startswith("_ZSt") and "__throw_" in name or name in ("__cxa_throw", "__cxa_rethrow"):
        return throw_
    return None


def unsupported(E, st, a, name, fr, ins):
    raise Unsupported("call to " + name)


def silent(E, st, a, name, fr, ins):
    if "3strEv" in name or "4viewEv" in name:
        raise Unsupported("contents of a string stream")
    if MODELLED_OUT.match(name):
        r = string_out(E, st, a, name, ins)
        if r:
            return r
        if a and type(a[0]) is Ptr:
            st.ghost["written"] = st.ghost.get("written", frozenset()) | {a[0].o}
    return a[0] if a and ins.ty.k == "ptr" else (UNDEF if ins.ty.k != "void" else None)


OUT_STR = ("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",
           "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
OUT_CHAR = ("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZNSo3putEc")
OUT_INT = {"_ZNSolsEi": True, "_ZNSolsEl": True, "_ZNSo9_M_insertIlEERSoT_": True,
           "_ZNSolsEj": False, "_ZNSolsEm": False, "_ZNSo9_M_insertImEERSoT_": False, "_ZNSo9_M_insertIbEERSoT_": False}


def of_choices(p):
    """an integer that is made of choices between two numbers"""
    for m in p.t:
        for k, _ in m:
            x = T.ATOMS[k]
            if x.kind != "ite" or not isnum(x.args[1]) or not isnum(x.args[2]):
                return False
    return True


def string_out(E, st, a, name, ins):
    """texts and integers written to a string stream are carried out (support/streams.cpp); base 10 only"""
    if len(a) < 2 or type(a[0]) is not Ptr or a[0].o in st.ghost.get("written", ()):
        return None
    o = st.objs.get(a[0].o)
    if o is None or o.kind not in ("s", "h") or not E.mod.has("vcs_out_int"):
        return None
    vp = E.load(st, a[0], PTR)
    g = E.gname.get(vp.o, "") if type(vp) is Ptr else ""
    if "basic_stringstreamI" not in g and "basic_ostringstreamI" not in g:
        return None
    if name.startswith("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string") and type(a[1]) is Ptr:
        n = E.load(st, E.padd(a[1], 8), I64)
        if type(n) is not int:
            return None
        f, args = "vcs_out_text", [a[0], E.load(st, a[1], PTR), n]
    elif name in OUT_STR and type(a[1]) is Ptr and (len(a) < 3 or type(a[2]) is int):
        f, args = "vcs_out_text", [a[0], a[1], a[2] if len(a) > 2 else -1]
    elif name in OUT_CHAR and type(a[1]) is int:
        f, args = "vcs_out_char", [a[0], a[1]]
    elif name in OUT_INT and (type(a[1]) is int or type(a[1]) is Poly and (a[1] in st.known or of_choices(a[1]))):
        v = E.conc(st, a[1])  # one of a few numbers: a case for each
        if not OUT_INT[name] and v < 0:
            v += 1 << (32 if name.endswith("j") else 64)
            if v >= 1 << 63:
                return None
        f, args = "vcs_out_int", [a[0], v]
    else:
        return None
    E.push(st, E.mod.func(f), args, ins.dst, ins.x[0] if ins.op == "invoke" else None)
    return PUSHED


def stream_str(E, st, a, name, fr, ins):
    # formatted output is not modelled: the contents of a stream with formatted output are unknown
    w = st.ghost.get("written", ())
    if any(type(p) is Ptr and p.o in w for p in a):
        raise Unsupported("contents of a string stream")
    E.push(st, E.mod.func(name), a, ins.dst, ins.x[0] if ins.op == "invoke" else None)
    return PUSHED


def throw_(E, st, a, name, fr, ins):
    if st.ghost.get("may_throw"):
        raise PathEnd("done")
    E.implicit_fail(st, "exception thrown", name)


def cstring(E, st, p, limit=4096):
    out = bytearray()
    while True:
        c = E.load(st, E.padd(p, len(out)), I8)
        if type(c) is not int:
            raise Unsupported("symbolic string")
        if c == 0:
            return out.decode("latin1")
        out.append(c & 255)
        if len(out) > limit:
            raise Unsupported("long string")


# ------------------------------------------------------------------ the contract vocabulary
def fresh_name(st, nm, commit=True):
    k = st.names.get(nm, 0)
    if commit:
        st.names[nm] = k + 1
    return "%s#%d" % (nm, k)


def mkvar(nm, sort, lo=None, hi=None):
    v = nm
    key = ("var", (v,), sort)
    a = T._ATAB.get(key)
    if a is not None and (a.lo != lo or a.hi != hi):
        v = "%s[%s,%s]" % (nm, lo, hi)
    return T.var(v, sort, lo, hi)


def nb(v):
    return v if isnum(v) else None


@builtin("vc_real")
def vc_real(E, st, a, name, fr, ins):
    nm = fresh_name(st, cstring(E, st, a[0]))
    v = mkvar(nm, "R")
    st.inputs.append((nm, v))
    return v


@builtin("vc_real_range")
def vc_real_range(E, st, a, name, fr, ins):
    nm = fresh_name(st, cstring(E, st, a[0]))
    v = mkvar(nm, "R", a[1], a[2])
    st.inputs.append((nm, v))
    return v


@builtin("vc_int")
def vc_int(E, st, a, name, fr, ins):
    lo, hi = a[1], a[2]
    if not (isnum(lo) and isnum(hi)):
        nm = fresh_name(st, cstring(E, st, a[0]))
        v = mkvar(nm, "I")
        st.inputs.append((nm, v))
        E.assume(st, cmp0("le", sub(lo, v)))
        E.assume(st, cmp0("le", sub(v, hi)))
        return v
    if lo > hi:
        raise PathEnd("infeasible")
    nm = fresh_name(st, cstring(E, st, a[0]))
    if lo == hi:
        st.inputs.append((nm, lo))
        return lo
    v = mkvar(nm, "I", lo, hi)
    st.inputs.append((nm, v))
    return v


@builtin("vc_pick")
def vc_pick(E, st, a, name, fr, ins):
    lo, hi = E.conc(st, a[1]), E.conc(st, a[2])
    nm = fresh_name(st, cstring(E, st, a[0]), False)
    if lo > hi:
        raise PathEnd("infeasible")
    if lo == hi:
        v = lo
    else:
        t = mkvar(nm, "I", lo, hi)
        v = st.known.get(t)
        if v is None:
            raise PickFork(t, lo, hi)
    st.names[cstring(E, st, a[0])] = st.names.get(cstring(E, st, a[0]), 0) + 1
    st.inputs.append((nm, v))
    return v


@builtin("vc_size")
def vc_size(E, st, a, name, fr, ins):
    if not E.pmode:
        return vc_pick(E, st, a, name, fr, ins)
    lo = E.conc(st, a[1])
    nm = fresh_name(st, cstring(E, st, a[0]))
    v = mkvar(nm, "I", lo, 1 << 24)
    st.inputs.append((nm, v))
    return v


@builtin("vc_index")
def vc_index(E, st, a, name, fr, ins):
    """an arbitrary index 0 <= i < n"""
    n = a[1]
    if type(n) is int and not E.pmode:
        return vc_pick(E, st, [a[0], 0, n - 1], name, fr, ins)
    nm = fresh_name(st, cstring(E, st, a[0]))
    v = mkvar(nm, "I", 0, n - 1 if type(n) is int else None)
    st.inputs.append((nm, v))
    if type(n) is not int:
        E.assume(st, cmp0("lt", sub(v, n)))
    elif n <= 0:
        raise PathEnd("infeasible")
    return v


@builtin("vc_bool")
def vc_bool(E, st, a, name, fr, ins):
    nm = fresh_name(st, cstring(E, st, a[0]))
    v = mkvar(nm, "I", 0, 1)
    st.inputs.append((nm, v))
    return v


@builtin("vc_fill")
def vc_fill(E, st, a, name, fr, ins):
    p, n = a[0], a[1]
    nm = cstring(E, st, a[2])
    if type(n) is not int:
        if E.pmode and E.loopsum is not None:
            return E.loopsum.sym_fill(st, p, n, fresh_name(st, nm), "R", 8, None, None)
        n = E.conc(st, n)
    base = fresh_name(st, nm)
    for i in range(n):
        v = mkvar("%s.%d" % (base, i), "R")
        st.inputs.append(("%s.%d" % (base, i), v))
        E.store(st, E.padd(p, 8 * i), DBL, v)
    return None


@builtin("vc_fill_range")
def vc_fill_range(E, st, a, name, fr, ins):
    p, n = a[0], a[1]
    nm = cstring(E, st, a[2])
    if type(n) is not int:
        if E.pmode and E.loopsum is not None:
            return E.loopsum.sym_fill(st, p, n, fresh_name(st, nm), "R", 8, a[3], a[4])
        n = E.conc(st, n)
    base = fresh_name(st, nm)
    for i in range(n):
        v = mkvar("%s.%d" % (base, i), "R", a[3], a[4])
        st.inputs.append(("%s.%d" % (base, i), v))
        E.store(st, E.padd(p, 8 * i), DBL, v)
    return None


@builtin("vc_filli")
def vc_filli(E, st, a, name, fr, ins):
    p, n = a[0], a[1]
    nm = cstring(E, st, a[2])
    lo, hi = a[3], a[4]
    if type(n) is not int:
        if E.pmode and E.loopsum is not None:
            return E.loopsum.sym_fill(st, p, n, fresh_name(st, nm), "I", 4, lo, hi)
        n = E.conc(st, n)
    base = fresh_name(st, nm)
    for i in range(n):
        v = mkvar("%s.%d" % (base, i), "I", nb(lo), nb(hi))
        st.inputs.append(("%s.%d" % (base, i), v))
        E.store(st, E.padd(p, 4 * i), I32, v)
    return None


def cond(E, v):
    if type(v) is int:
        return v != 0
    if type(v) is bool or type(v) is tuple:
        return v
    if v is UNDEF:
        return E.undef_bool()
    return bnot(cmp0("eq", v))


@builtin("vc_assume")
def vc_assume(E, st, a, name, fr, ins):
    c = cond(E, a[0])
    if c is True:
        return None
    if E.decide(st, c) is False:
        raise PathEnd("assumption excluded")
    E.assume(st, c)
    return None


@builtin("vc_true")
def vc_true(E, st, a, name, fr, ins):
    c = cond(E, a[0])
    E.oblige(st, c, cstring(E, st, a[1]))
    if c is not True and c is not False:
        E.assume(st, c)
    return None


def fl(E, v):
    v = E.fnum(v)
    return v


@builtin("vc_eq")
def vc_eq(E, st, a, name, fr, ins):
    x, y = fl(E, a[0]), fl(E, a[1])
    lab = cstring(E, st, a[2])
    if type(x) is float or type(y) is float:
        E.oblige(st, type(x) is float and type(y) is float and x == y, lab, "%s == %s" % (x, y))
        return None
    E.oblige(st, cmp0("eq", sub(x, y)), lab, ("%s  ==  %s" % (x, y))[:600])
    return None


@builtin("vc_eqi")
def vc_eqi(E, st, a, name, fr, ins):
    x, y = E.num(a[0]), E.num(a[1])
    E.oblige(st, cmp0("eq", sub(x, y)), cstring(E, st, a[2]), ("%s  ==  %s" % (x, y))[:600])
    return None


@builtin("vc_le")
def vc_le(E, st, a, name, fr, ins):
    x, y = fl(E, a[0]), fl(E, a[1])
    if type(x) is float or type(y) is float:
        E.oblige(st, float(x) <= float(y) if not isinstance(x, Poly) and not isinstance(y, Poly) else
                 (y == float("inf") or x == float("-inf")), cstring(E, st, a[2]), "%s <= %s" % (x, y))
        return None
    E.oblige(st, cmp0("le", sub(x, y)), cstring(E, st, a[2]), ("%s  <=  %s" % (x, y))[:600])
    return None


@builtin("vc_near")
def vc_near(E, st, a, name, fr, ins):
    x, y, t = fl(E, a[0]), fl(E, a[1]), a[2]
    if type(x) is float or type(y) is float:
        E.oblige(st, False, cstring(E, st, a[3]), "%s ~ %s" % (x, y))
        return None
    d = sub(x, y)
    E.oblige(st, band(cmp0("le", sub(d, t)), cmp0("le", sub(neg(d), t))), cstring(E, st, a[3]), ("%s  ~  %s" % (x, y))[:600])
    return None


@builtin("vc_cover")
def vc_cover(E, st, a, name, fr, ins):
    st.covers = st.covers | {cstring(E, st, a[0])}
    return None


@builtin("vc_may_throw")
def vc_may_throw(E, st, a, name, fr, ins):
    st.ghost["may_throw"] = bool(a[0])
    return None


@builtin("vc_stop")
def vc_stop(E, st, a, name, fr, ins):
    raise PathEnd("done")


@builtin("vc_symbolic")
def vc_symbolic(E, st, a, name, fr, ins):
    return 1


@builtin("vc_unbounded")
def vc_unbounded(E, st, a, name, fr, ins):
    return 1 if E.pmode else 0


@builtin("vc_thorough")
def vc_thorough(E, st, a, name, fr, ins):
    return 1 if getattr(E, "thorough", False) else 0


@builtin("vc_set_threads")
def vc_set_threads(E, st, a, name, fr, ins):
    st.ghost["threads"] = E.conc(st, a[0])
    return None


@builtin("vc_uf")
def vc_uf(E, st, a, name, fr, ins):
    nm = cstring(E, st, a[0])
    n = E.conc(st, a[2])
    args = [fl(E, E.load(st, E.padd(a[1], 8 * i), DBL)) for i in range(n)]
    return T.uf("uf:" + nm, *args)


@builtin("omp_get_max_threads")
def omp_max(E, st, a, name, fr, ins):
    return st.ghost.get("threads", 1)


@builtin("omp_get_num_threads")
def omp_num(E, st, a, name, fr, ins):
    return 1


@builtin("omp_get_thread_num", "omp_in_parallel")
def omp_tid(E, st, a, name, fr, ins):
    return 0


@builtin("omp_set_num_threads")
def omp_set(E, st, a, name, fr, ins):
    return None


class PickFork(Concretise):
    def __init__(self, term, lo, hi):
        self.term, self.lo, self.hi = term, lo, hi


# ------------------------------------------------------------------ memory
def new_obj(E, st, n, kind):
    E.heapn = getattr(E, "heapn", 0) + 1
    if type(n) is not int:
        if not E.pmode:
            n = E.conc(st, n)
        else:
            n = E.num(n)
    if type(n) is int and n < 0:
        E.implicit_fail(st, "allocation of a negative size", str(n))
    i = E.alloc(st, n, kind, "heap#%d" % E.heapn)
    if type(n) is not int and E.loopsum is not None:
        st.objs[i].arr = E.loopsum.new_arr()
    return Ptr(i, 0)


@builtin("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def new_(E, st, a, name, fr, ins):
    return new_obj(E, st, a[0], "h")


@builtin("calloc")
def calloc_(E, st, a, name, fr, ins):
    p = new_obj(E, st, E.imul(st, a[0], a[1], 64), "h")
    st.objs[p.o].zero = True
    return p


@builtin("realloc")
def realloc_(E, st, a, name, fr, ins):
    p = new_obj(E, st, a[1], "h")
    if a[0].o:
        o = E.getobj(st, a[0].o)
        E.copy_mem(st, p, a[0], min(o.size, E.conc(st, a[1])))
        free_(E, st, a, name, fr, ins)
    return p


@builtin("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "free", "_ZdaPvSt11align_val_t")
def free_(E, st, a, name, fr, ins):
    p = a[0]
    if p is UNDEF:
        E.implicit_fail(st, "free of an uninitialised pointer", "")
    if p.o == 0:
        return None
    o = E.getobj(st, p.o)
    if not o.alive:
        E.implicit_fail(st, "double free", o.name)
    if o.kind != "h" or p.f != 0:
        E.implicit_fail(st, "invalid free", o.name)
    o = E.wobj(st, p.o)
    o.alive = False
    o.cells = {}
    o.arr = None
    return None


@builtin("llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline")
def memcpy_(E, st, a, name, fr, ins):
    n = a[2]
    if type(n) is int and n < 0:
        E.implicit_fail(st, "negative copy length", str(n))
    if not (type(n) is int and n == 0):
        E.copy_mem(st, a[0], a[1], n)
    return a[0]


@builtin("llvm.memset", "memset")
def memset_(E, st, a, name, fr, ins):
    if E.pmode and type(a[2]) is not int and E.loopsum is not None:
        E.loopsum.sym_set(st, a[0], a[1], a[2])
        return a[0]
    E.set_mem(st, a[0], a[1], a[2])
    return a[0]


@builtin("strlen")
def strlen_(E, st, a, name, fr, ins):
    return len(cstring(E, st, a[0], 100000))


@builtin("strcmp")
def strcmp_(E, st, a, name, fr, ins):
    x, y = cstring(E, st, a[0]), cstring(E, st, a[1])
    return (x > y) - (x < y)


@builtin("strncmp")
def strncmp_(E, st, a, name, fr, ins):
    n = E.conc(st, a[2])
    x, y = cstring(E, st, a[0])[:n], cstring(E, st, a[1])[:n]
    return (x > y) - (x < y)


@builtin("strcasecmp")
def strcasecmp_(E, st, a, name, fr, ins):
    x, y = cstring(E, st, a[0]).lower(), cstring(E, st, a[1]).lower()
    return (x > y) - (x < y)


@builtin("strncasecmp")
def strncasecmp_(E, st, a, name, fr, ins):
    n = E.conc(st, a[2])
    x, y = cstring(E, st, a[0])[:n].lower(), cstring(E, st, a[1])[:n].lower()
    return (x > y) - (x < y)


@builtin("memcmp", "bcmp")
def memcmp_(E, st, a, name, fr, ins):
    n = E.conc(st, a[2])
    for i in range(n):
        x, y = E.load(st, E.padd(a[0], i), I8), E.load(st, E.padd(a[1], i), I8)
        x, y = E.conc(st, x) & 255, E.conc(st, y) & 255
        if x != y:
            return x - y
    return 0


@builtin("memchr")
def memchr_(E, st, a, name, fr, ins):
    n = E.conc(st, a[2])
    c = E.conc(st, a[1]) & 255
    for i in range(n):
        if E.conc(st, E.load(st, E.padd(a[0], i), I8)) & 255 == c:
            return E.padd(a[0], i)
    return NULL


@builtin("toupper", "tolower")
def toupper_(E, st, a, name, fr, ins):
    c = E.conc(st, a[0])
    if 0 <= c < 128:
        return ord(chr(c).upper() if name == "toupper" else chr(c).lower())
    return c


@builtin("isspace", "isdigit", "isalpha", "isalnum")
def isx(E, st, a, name, fr, ins):
    c = chr(E.conc(st, a[0]) & 255)
    return int({"isspace": c in " \t\n\v\f\r", "isdigit": c.isdigit(), "isalpha": c.isalpha(), "isalnum": c.isalnum()}[name])


@builtin("atoi", "atol")
def atoi_(E, st, a, name, fr, ins):
    m = re.match(r'\s*([-+]?\d+)', cstring(E, st, a[0]))
    return int(m.group(1)) if m else 0


@builtin("atof")
def atof_(E, st, a, name, fr, ins):
    m = re.match(r'\s*([-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?)', cstring(E, st, a[0]))
    return T.norm(Fraction(m.group(1))) if m else 0


@builtin("strtod")
def strtod_(E, st, a, name, fr, ins):
    s = cstring(E, st, a[0])
    m = re.match(r'\s*([-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?)', s)
    if type(a[1]) is Ptr and a[1].o:
        E.store(st, a[1], PTR, E.padd(a[0], m.end() if m else 0))
    return T.norm(Fraction(m.group(1))) if m else 0


@builtin("strtol", "strtoul", "__isoc23_strtol", "__isoc23_strtoul")
def strtol_(E, st, a, name, fr, ins):
    s = cstring(E, st, a[0])
    m = re.match(r'\s*([-+]?\d+)', s)
    if type(a[1]) is Ptr and a[1].o:
        E.store(st, a[1], PTR, E.padd(a[0], m.end() if m else 0))
    return int(m.group(1)) if m else 0


@builtin("getenv")
def getenv_(E, st, a, name, fr, ins):
    return NULL


@builtin("__errno_location")
def errno_(E, st, a, name, fr, ins):
    i = st.ghost.get("errno")
    if i is None:
        i = E.alloc(st, 4, "g", "errno")
        st.objs[i].zero = True
        st.ghost["errno"] = i
    return Ptr(i, 0)


@builtin("printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "fwrite", "perror")
def printf_(E, st, a, name, fr, ins):
    return 0


@builtin("__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "atexit")
def atexit_(E, st, a, name, fr, ins):
    return 0 if ins.ty.k != "void" else None


@builtin("__cxa_guard_acquire")
def guard_acq(E, st, a, name, fr, ins):
    v = E.load(st, a[0], I8)
    return 0 if type(v) is int and v & 1 else 1


@builtin("__cxa_guard_release")
def guard_rel(E, st, a, name, fr, ins):
    E.store(st, a[0], I8, 1)
    return None


@builtin("__cxa_guard_abort", "__cxa_free_exception", "__cxa_end_catch")
def nop_(E, st, a, name, fr, ins):
    return None


@builtin("__cxa_allocate_exception")
def alloc_exc(E, st, a, name, fr, ins):
    return new_obj(E, st, a[0], "h")


@builtin("__cxa_pure_virtual")
def pure_virtual(E, st, a, name, fr, ins):
    E.implicit_fail(st, "pure virtual call", "")


@builtin("abort", "exit", "_ZSt9terminatev", "__assert_fail", "__clang_call_terminate")
def abort_(E, st, a, name, fr, ins):
    E.implicit_fail(st, "program abort", name)


# ------------------------------------------------------------------ run-time type information
def ti_bases(E, st, name):
    """[(base typeinfo name, offset)] of a class, from its typeinfo object"""
    if name not in E.mod.gtext:
        return []
    ty, ini, _ = E.mod.global_init(name)
    if not isinstance(ini, list):
        return []
    v = ini[0].name if isinstance(ini[0], GVal) else ""
    if "__si_class_type_info" in v:
        return [(ini[2].name, 0, True)]
    if "__vmi_class_type_info" in v:
        n = ini[3]
        out = []
        for i in range(n):
            b, fl_ = ini[4 + 2 * i], ini[5 + 2 * i]
            virt, pub = fl_ & 1, (fl_ >> 1) & 1
            out.append((b.name, fl_ >> 8, not virt))
        return out
    return []


@builtin("__dynamic_cast")
def dyncast(E, st, a, name, fr, ins):
    p, src, dst, hint = a
    if p.o == 0:
        return NULL
    vp = E.load(st, p, PTR)
    top = E.load(st, E.padd(vp, -16), I64)
    ti = E.load(st, E.padd(vp, -8), PTR)
    tname = E.gname.get(ti.o)
    want = E.gname.get(dst.o)
    full = E.padd(p, top)
    if dst.o == 0 or want is None:
        return full

    def find(t, off):
        if t == want:
            return [off]
        r = []
        for b, o, plain in ti_bases(E, st, t):
            if plain:
                r += find(b, off + o)
            else:       # virtual base: offset read from the vtable of the subobject
                sp = E.padd(full, off)
                vt = E.load(st, sp, PTR)
                r += find(b, off + E.load(st, E.padd(vt, o), I64))
        return r
    r = sorted(set(find(tname, 0)))
    if not r:
        return NULL
    return E.padd(full, r[0])


@builtin("_ZNKSt9type_info4nameEv", "_ZNKSt9type_infoeqERKS_")
def ti_name(E, st, a, name, fr, ins):
    if name.endswith("nameEv"):
        return E.load(st, E.padd(a[0], 8), PTR)
    return int(a[0] == a[1])


# ------------------------------------------------------------------ intrinsics
@builtin("llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.dbg", "llvm.stackrestore", "llvm.invariant",
         "llvm.prefetch", "llvm.donothing", "llvm.var.annotation", "llvm.va_start", "llvm.va_end")
def intr_nop(E, st, a, name, fr, ins):
    return None


@builtin("llvm.stacksave")
def intr_ss(E, st, a, name, fr, ins):
    return NULL


@builtin("llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ssa.copy", "llvm.arithmetic.fence")
def intr_id(E, st, a, name, fr, ins):
    return a[0]


@builtin("_ZNSt12__basic_fileIcEC1EP15pthread_mutex_t", "_ZNSt12__basic_fileIcED1Ev", "_ZNSt12__basic_fileIcEC2EP15pthread_mutex_t")
def basicfile_(E, st, a, name, fr, ins):
    return None


@builtin("_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeD1Ev", "_ZNSt6localeaSERKS_", "_ZNSt6localeC2Ev", "_ZNSt6localeD2Ev")
def locale_(E, st, a, name, fr, ins):
    return a[0] if ins.ty.k == "ptr" else None


@builtin("llvm.is.constant")
def intr_isc(E, st, a, name, fr, ins):
    return False


@builtin("llvm.objectsize")
def intr_osz(E, st, a, name, fr, ins):
    return -1


@builtin("llvm.trap", "llvm.ubsantrap")
def intr_trap(E, st, a, name, fr, ins):
    E.implicit_fail(st, "trap", "")


@builtin("llvm.fmuladd", "llvm.fma", "fma")
def intr_fma(E, st, a, name, fr, ins):
    return E.fop(st, "fadd", E.fop(st, "fmul", a[0], a[1]), a[2])


def vmap(f):
    def g(E, st, a, name, fr, ins):
        if type(a[0]) is list:
            return [f(E, st, [x[i] if type(x) is list else x for x in a], name, fr, ins) for i in range(len(a[0]))]
        return f(E, st, a, name, fr, ins)
    return g


@builtin("llvm.fabs", "fabs", "fabsf")
@vmap
def fabs_(E, st, a, name, fr, ins):
    x = a[0]
    if type(x) is float:
        return abs(x)
    x = E.fnum(x)
    if isnum(x):
        return abs(x)
    lo, hi = interval(x, {})
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return neg(x)
    c = cmp0("lt", x)
    if c in st.pcs:
        return neg(x)
    if bnot(c) in st.pcs:
        return x
    r = E.decide(st, c) if E.decide_abs else None
    if r is not None:
        return neg(x) if r else x
    if content(x) < 0:
        x = neg(x)
    if len(x.t) == 1:
        (m, k), = x.t.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind in ("sqrt", "abs", "exp"):
            return scale(Poly({m: 1}), abs(k))
        return scale(of_atom(mk_atom("abs", (Poly({m: 1}),), "R")), abs(k))
    return of_atom(mk_atom("abs", (x,), "I" if x.is_int() else "R"))


Engine.decide_abs = True


@builtin("llvm.abs", "abs", "labs")
@vmap
def iabs_(E, st, a, name, fr, ins):
    x = a[0]
    if type(x) is int:
        return abs(x)
    x = E.num(x)
    return E.select(st, cmp0("lt", x), neg(x), x)


@builtin("llvm.maxnum", "llvm.maximum", "fmax", "llvm.minnum", "llvm.minimum", "fmin", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")
@vmap
def minmax_(E, st, a, name, fr, ins):
    x, y = a[0], a[1]
    mx = "max" in name
    if name.startswith("llvm.u"):
        c = E.icmp(st, "ult", x, y, ins.ty if ins.ty.k == "i" else ins.ty.a)
    elif name.startswith("llvm.s"):
        c = E.icmp(st, "slt", x, y, ins.ty if ins.ty.k == "i" else ins.ty.a)
    else:
        c = E.fcmp(st, "olt", x, y)
    return E.select(st, c, y, x) if mx else E.select(st, c, x, y)


@builtin("llvm.sqrt", "sqrt")
@vmap
def sqrt__(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if type(x) is float:
        return x if x > 0 else float("nan")
    if isnum(x) and x < 0:
        return float("nan")
    if not isnum(x):
        lo, _ = interval(x, {})
        if lo is None or lo < 0:
            c = cmp0("lt", x)
            if E.decide(st, c) is True:
                E.implicit_fail(st, "square root of a negative value", "sqrt(%s)" % (x,))
        # sqrt of a perfect square of an atom
        if len(x.t) == 1:
            (m, k), = x.t.items()
            r = T.sqrt_(k)
            if m and all(e % 2 == 0 for _, e in m) and isnum(r):
                return fabs_(E, st, [scale(Poly({tuple((q, e // 2) for q, e in m): 1}), r)], name, fr, ins)
        # common rational square factor
        k = abs(content(x))
        r = T.sqrt_(k)
        if isnum(r) and r != 1 and r != 0:
            return scale(T.sqrt_(scale(x, norm(Fraction(1) / k))), r)
    return bounded(T.sqrt_(x), lambda: math.sqrt(x) if isnum(x) else None)


def bounded(t, f):
    """attach a numerical enclosure to an atom with numeric arguments"""
    if type(t) is Poly and len(t.t) == 1:
        (m, k), = t.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.lo is None and at.hi is None:
                v = f()
                if v is not None:
                    v = Fraction(v)
                    e = abs(v) * Fraction(1, 10 ** 14) + Fraction(1, 10 ** 18)
                    at.lo, at.hi = v - e, v + e
    return t


def mathf(name, *args):
    if all(isnum(x) for x in args):
        def f():
            try:
                return getattr(math, name)(*[float(x) for x in args])
            except Exception:
                return None
        return bounded(T.uf(name, *args), f)
    return T.uf(name, *args)


def odd(x):
    """(sign, canonical argument) with a leading positive coefficient"""
    if isnum(x):
        return (-1, -x) if x < 0 else (1, x)
    return (-1, neg(x)) if content(x) < 0 else (1, x)


@builtin("llvm.sin", "sin")
def sin_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if isnum(x) and x == 0:
        return 0
    s, x = odd(x)
    return scale(mathf("sin", x), s)


@builtin("llvm.cos", "cos")
def cos_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if isnum(x) and x == 0:
        return 1
    s, x = odd(x)
    return mathf("cos", x)


@builtin("tan", "llvm.tan")
def tan_(E, st, a, name, fr, ins):
    return E.fdiv(st, sin_(E, st, a, name, fr, ins), cos_(E, st, a, name, fr, ins))


@builtin("llvm.exp", "exp")
def exp_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if isnum(x) and x == 0:
        return 1
    return mathf("exp", x)


@builtin("llvm.log", "log")
def log_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if isnum(x) and x == 1:
        return 0
    return mathf("log", x)


@builtin("atan", "asin", "acos", "tanh", "sinh", "cosh", "atan2", "log10")
def othermath(E, st, a, name, fr, ins):
    args = [E.fnum(x) for x in a]
    if isnum(args[0]) and args[0] == 0 and name in ("atan", "asin", "tanh", "sinh"):
        return 0
    return mathf(name, *args)


@builtin("hypot")
def hypot_(E, st, a, name, fr, ins):
    x, y = E.fnum(a[0]), E.fnum(a[1])
    return sqrt__(E, st, [add(mul(x, x), mul(y, y))], name, fr, ins)


@builtin("llvm.pow", "pow", "llvm.powi")
def pow_(E, st, a, name, fr, ins):
    x, y = E.fnum(a[0]), E.num(a[1]) if name.startswith("llvm.powi") else E.fnum(a[1])
    if isnum(y):
        if y == int(y) and abs(y) <= 64:
            y = int(y)
            if y >= 0:
                return ipow(x, y)
            return E.fdiv(st, 1, ipow(x, -y))
        if y == Fraction(1, 2):
            return sqrt__(E, st, [x], name, fr, ins)
        if isnum(x):
            if x == 0 and y > 0:
                return 0
            if x == 1:
                return 1
            try:
                v = math.pow(float(x), float(y))
                f = Fraction(v).limit_denominator(1000)
                if Fraction(y).denominator <= 12 and f ** Fraction(y).denominator == Fraction(x) ** Fraction(y).numerator:
                    return norm(f)
            except Exception:
                pass
    elif type(y) is Poly and y.is_int():
        return pow_(E, st, [x, E.conc(st, y)], name, fr, ins)
    return mathf("pow", x, y)


def floor_term(E, x):
    if isnum(x):
        return math.floor(x)
    if x.is_int():
        return x
    return of_atom(mk_atom("floor", (x,), "I"))


@builtin("llvm.floor", "floor")
@vmap
def floor_(E, st, a, name, fr, ins):
    return floor_term(E, E.fnum(a[0]))


@builtin("llvm.ceil", "ceil")
@vmap
def ceil_(E, st, a, name, fr, ins):
    return neg(floor_term(E, neg(E.fnum(a[0]))))


@builtin("llvm.trunc", "trunc")
@vmap
def trunc_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    return int(x) if isnum(x) else ftoi(E, st, x)


@builtin("llvm.round", "round", "lround", "llvm.lround")
@vmap
def round_(E, st, a, name, fr, ins):
    x = E.fnum(a[0])
    if isnum(x):
        return int(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
    if E.truth(st, cmp0("lt", x)):
        return neg(floor_term(E, add(neg(x), Fraction(1, 2))))
    return floor_term(E, add(x, Fraction(1, 2)))


def ftoi(E, st, x):
    if x.is_int():
        return x
    if E.truth(st, cmp0("lt", x)):
        return neg(floor_term(E, neg(x)))
    return floor_term(E, x)


@builtin("fmod")
def fmod_b(E, st, a, name, fr, ins):
    return E.fop(st, "frem", a[0], a[1])


def fmod_(E, st, a, b):
    q = E.fdiv(st, a, b)
    q = int(q) if isnum(q) else ftoi(E, st, q)
    return sub(a, mul(b, q))


@builtin("llvm.ctlz")
def ctlz(E, st, a, name, fr, ins):
    n = ins.ty.n
    v = E.conc(st, a[0]) & ((1 << n) - 1)
    return n - v.bit_length()


@builtin("llvm.cttz")
def cttz(E, st, a, name, fr, ins):
    n = ins.ty.n
    v = E.conc(st, a[0]) & ((1 << n) - 1)
    return n if v == 0 else (v & -v).bit_length() - 1


@builtin("llvm.ctpop")
def ctpop(E, st, a, name, fr, ins):
    return bin(E.conc(st, a[0]) & ((1 << ins.ty.n) - 1)).count("1")


@builtin("llvm.umul.with.overflow", "llvm.smul.with.overflow", "llvm.uadd.with.overflow", "llvm.sadd.with.overflow",
         "llvm.usub.with.overflow", "llvm.ssub.with.overflow")
def ovf(E, st, a, name, fr, ins):
    n = E.mod.resolve(ins.ty).a[0].n
    x, y = E.num(a[0]), E.num(a[1])
    op = name[6:9]
    r = mul(x, y) if op == "mul" else add(x, y) if op == "add" else sub(x, y)
    if type(r) is int:
        u = name[5] == "u"
        if u:
            m = 1 << n
            x, y = x % m, y % m
            r = x * y if op == "mul" else x + y if op == "add" else x - y
            return [wrap(r, n), not 0 <= r < m]
        return [wrap(r, n), not -(1 << (n - 1)) <= r < (1 << (n - 1))]
    return [r, False]


@builtin("llvm.usub.sat")
def usubsat(E, st, a, name, fr, ins):
    x, y = E.num(a[0]), E.num(a[1])
    return E.select(st, E.icmp(st, "ult", x, y, ins.ty), 0, sub(x, y))


@builtin("llvm.vector.reduce.fadd")
def vrf(E, st, a, name, fr, ins):
    r = a[0]
    for x in a[1]:
        r = E.fop(st, "fadd", r, x)
    return r


@builtin("llvm.copysign", "copysign")
def copysign_(E, st, a, name, fr, ins):
    x = fabs_(E, st, [a[0]], name, fr, ins)
    y = E.fnum(a[1])
    return neg(x) if E.truth(st, cmp0("lt", y)) else x


@builtin("llvm.is.fpclass", "__isnan", "isnan", "__isinf", "isinf")
def fpclass(E, st, a, name, fr, ins):
    x = a[0]
    r = False
    if type(x) is float:
        if name == "llvm.is.fpclass":
            m = a[1]
            r = bool((x != x and m & 3) or (x == float("inf") and m & 512) or (x == float("-inf") and m & 4))
        else:
            r = (x != x) if "nan" in name else x in (float("inf"), float("-inf"))
    elif name == "llvm.is.fpclass" and not a[1] & 519:
        raise Unsupported("fpclass")
    return r if ins.ty.n == 1 else int(r)


@builtin("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "time", "clock")
def now_(E, st, a, name, fr, ins):
    return 0
