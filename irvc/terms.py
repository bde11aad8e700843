"""Symbolic terms: numbers, (Laurent) polynomials over hash-consed atoms, and boolean formulas.

Real and integer arithmetic is exact.  A number is a Python int or Fraction; a Poly is a dict from
monomial to coefficient, where a monomial is a sorted tuple of (atom id, exponent)."""
from fractions import Fraction

ATOMS = []          # id -> Atom
_ATAB = {}


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "lo", "hi", "extra")

    def __init__(self, kind, args, sort):
        self.kind, self.args, self.sort = kind, args, sort
        self.lo = self.hi = None
        self.extra = None

    def __repr__(self):
        return atom_str(self)


def mk_atom(kind, args, sort):
    key = (kind, args, sort)
    a = _ATAB.get(key)
    if a is None:
        a = Atom(kind, args, sort)
        a.id = len(ATOMS)
        ATOMS.append(a)
        _ATAB[key] = a
        if kind == "sel" and args[0] in SELB:
            a.lo, a.hi = SELB[args[0]]
    return a


SELB = {}  # bounds of the elements of arrays


def isnum(x):
    t = type(x)
    return t is int or t is Fraction


def norm(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


class Poly:
    __slots__ = ("t", "_h", "_int", "_z", "_s")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._int = None
        self._z = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (type(o) is Poly and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return poly_str(self)

    def is_int(self):
        if self._int is None:
            r = True
            for m, c in self.t.items():
                if type(c) is not int:
                    r = False
                    break
                for a, e in m:
                    if e < 0 or ATOMS[a].sort != "I":
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int


def atom_str(a):
    if a.kind == "var":
        return a.args[0]
    if a.kind == "ite":
        return "ite(%s,%s,%s)" % (bstr(a.args[0]), a.args[1], a.args[2])
    if a.kind == "den":
        return "(%s)" % (a.args[0],)
    return "%s(%s)" % (a.kind, ",".join(str(x) for x in a.args))


def poly_str(p):
    if isnum(p):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: mc[0]):
        f = "*".join(atom_str(ATOMS[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        else:
            out.append("%s*%s" % (c, f))
    s = " + ".join(out)
    return s if len(s) < 2000 else s[:2000] + "..."


def mkpoly(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def of_atom(a, e=1):
    return Poly({((a.id, e),): 1})


def var(name, sort, lo=None, hi=None):
    a = mk_atom("var", (name,), sort)
    if lo is not None:
        a.lo = lo
    if hi is not None:
        a.hi = hi
    return of_atom(a)


def add(a, b):
    if isnum(a):
        if isnum(b):
            return norm(a + b)
        if a == 0:
            return b
        t = dict(b.t)
        c = t.get((), 0) + a
        if c == 0:
            t.pop((), None)
        else:
            t[()] = norm(c)
        return mkpoly(t)
    if isnum(b):
        return add(b, a)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        x = t.get(m)
        if x is None:
            t[m] = c
        else:
            x = norm(x + c)
            if x == 0:
                del t[m]
            else:
                t[m] = x
    return mkpoly(t)


def scale(a, k):
    if isnum(a):
        return norm(a * k)
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: norm(c * k) for m, c in a.t.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    """multiply monomials -> (monomial, needs_reduction)"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    i = j = 0
    out = []
    red = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a < b:
            out.append(m1[i])
            i += 1
        elif b < a:
            out.append(m2[j])
            j += 1
        else:
            s = e + f
            if s:
                out.append((a, s))
                if (s >= 2 or s <= -2) and ATOMS[a].kind in ("sqrt", "cos", "abs"):
                    red = True
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), red


def mono_poly(m):
    return Poly({m: 1})


def _reduce_mono(m):
    """rewrite sqrt(p)^2 -> p, cos^2 -> 1-sin^2, |p|^2 -> p^2"""
    r = 1
    keep = []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "sqrt" and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            rem = e - 2 * q
            r = mul(r, ipow(at.args[0], q))
            if rem:
                keep.append((a, rem))
        elif at.kind == "abs" and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            rem = e - 2 * q
            r = mul(r, ipow(at.args[0], 2 * q))
            if rem:
                keep.append((a, rem))
        elif at.kind == "cos" and e >= 2:
            q, rem = divmod(e, 2)
            s = of_atom(mk_atom("sin", at.args, "R"))
            r = mul(r, ipow(sub(1, mul(s, s)), q))
            if rem:
                keep.append((a, rem))
        else:
            keep.append((a, e))
    if not keep:
        return r
    return mul(r, Poly({tuple(keep): 1}))


def mul(a, b):
    if isnum(a):
        if isnum(b):
            return norm(a * b)
        return scale(b, a)
    if isnum(b):
        return scale(a, b)
    t = {}
    extra = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, red = _mmul(m1, m2)
            c = c1 * c2
            if red:
                extra.append(scale(_reduce_mono(m), c))
                continue
            x = t.get(m)
            if x is None:
                t[m] = norm(c)
            else:
                x = x + c
                if x == 0:
                    del t[m]
                else:
                    t[m] = norm(x)
    r = mkpoly(t)
    for e in extra:
        r = add(r, e)
    return r


def ipow(a, n):
    if n == 0:
        return 1
    if n < 0:
        return inv(ipow(a, -n))
    r = 1
    while n:
        if n & 1:
            r = mul(r, a)
        a = mul(a, a) if n > 1 else a
        n >>= 1
    return r


def content(p):
    """a constant c such that p/c is canonical (leading coefficient 1)"""
    m = min(p.t)
    return p.t[m]


def inv(a):
    if isnum(a):
        return norm(Fraction(1) / a)
    if len(a.t) == 1:
        (m, c), = a.t.items()
        nm = tuple((x, -e) for x, e in m)
        if any(ATOMS[x].kind in ("sqrt", "abs") and abs(e) >= 2 for x, e in nm):
            return scale(_reduce_mono(nm), norm(Fraction(1) / c))
        # a negative power of a den atom turns back into its polynomial
        r = None
        for x, e in nm:
            if ATOMS[x].kind == "den" and e > 0:
                r = True
        if r:
            p = norm(Fraction(1) / c)
            for x, e in nm:
                if ATOMS[x].kind == "den" and e > 0:
                    p = mul(p, ipow(ATOMS[x].args[0], e))
                else:
                    p = mul(p, Poly({((x, e),): 1}))
            return p
        return Poly({nm: norm(Fraction(1) / c)})
    # common monomial factor with negative exponents: multiply out
    neg_m = {}
    for m in a.t:
        for x, e in m:
            if e < 0:
                neg_m[x] = min(neg_m.get(x, 0), e)
    if neg_m:
        f = 1
        for x, e in neg_m.items():
            f = mul(f, ipow(den_poly(x), -e))
        return mul(inv(mul_out(a, neg_m)), f)
    c = content(a)
    b = scale(a, norm(Fraction(1) / c)) if c != 1 else a
    d = mk_atom("den", (b,), "R")
    return Poly({((d.id, -1),): norm(Fraction(1) / c)})


def den_poly(x):
    at = ATOMS[x]
    return at.args[0] if at.kind == "den" else of_atom(at)


def mul_out(a, neg_m):
    """a * prod x^(-e) for all x with negative exponent e in neg_m, with den atoms expanded"""
    r = 0
    for m, c in a.t.items():
        term = c
        md = dict(m)
        keep = []
        for x, e in neg_m.items():
            k = md.pop(x, 0) - e        # >= 0
            if k:
                term = mul(term, ipow(den_poly(x), k))
        keep = tuple(sorted(md.items()))
        r = add(r, mul(term, Poly({keep: 1}) if keep else 1))
    return r


def clear_den(p):
    """numerator of p after clearing all negative powers; None stands for no change"""
    for _ in range(12):
        if isnum(p):
            return p
        neg_m = {}
        for m in p.t:
            for x, e in m:
                if e < 0:
                    neg_m[x] = min(neg_m.get(x, 0), e)
        if not neg_m:
            return p
        p = mul_out(p, neg_m)
    return p


def div(a, b):
    if isnum(b):
        if b == 0:
            raise ZeroDivisionError
        return scale(a, norm(Fraction(1) / b)) if not isnum(a) else norm(Fraction(a) / b)
    if a == 0:
        return 0
    if not isnum(a) and len(a.t) == len(b.t) and len(a.t) > 1:
        ka = next(iter(a.t))
        if ka in b.t:
            k = Fraction(a.t[ka]) / b.t[ka]
            if scale(b, norm(k)) == a:
                return norm(k)
    return mul(a, inv(b))


def is_zero_identically(p):
    """True if p is zero as a rational function (given nonzero denominators)"""
    if isnum(p):
        return p == 0
    q = clear_den(p)
    return isnum(q) and q == 0


def sqrt_(p):
    if isnum(p):
        if p < 0:
            return None
        f = Fraction(p)
        from math import isqrt
        n, d = isqrt(f.numerator), isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return norm(Fraction(n, d))
        return of_atom(mk_atom("sqrt", (norm(f),), "R"))
    return of_atom(mk_atom("sqrt", (p,), "R"))


def uf(name, *args):
    return of_atom(mk_atom(name, tuple(args), "R"))


def is_int(p):
    return type(p) is int or (type(p) is Poly and p.is_int())


# ---------------------------------------------------------------- booleans
def le0(p):
    if isnum(p):
        return p <= 0
    return ("le", p)


def lt0(p):
    if isnum(p):
        return p < 0
    if p.is_int():
        return ("le", add(p, 1))
    return ("lt", p)


def eq0(p):
    if isnum(p):
        return p == 0
    c = content(p)
    if c < 0:
        p = neg(p)
    return ("eq", p)


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    k = b[0]
    if k == "not":
        return b[1]
    if k == "le":
        return lt0(neg(b[1]))
    if k == "lt":
        return le0(neg(b[1]))
    if k == "and":
        return bor(*[bnot(x) for x in b[1]])
    if k == "or":
        return band(*[bnot(x) for x in b[1]])
    return ("not", b)


def band(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        if b[0] == "and":
            for x in b[1]:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        if b[0] == "or":
            for x in b[1]:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is type(b) and a == b:
        return a
    if isnum(a) and isnum(b) and a == b:
        return a
    sort = "I" if is_int(a) and is_int(b) else "R"
    return of_atom(mk_atom("ite", (c, a, b), sort))


def bstr(b):
    if b is True or b is False:
        return str(b)
    k = b[0]
    if k == "le":
        return "%s <= 0" % (b[1],)
    if k == "lt":
        return "%s < 0" % (b[1],)
    if k == "eq":
        return "%s == 0" % (b[1],)
    if k == "not":
        return "!(%s)" % bstr(b[1])
    return "(" + (" && " if k == "and" else " || ").join(bstr(x) for x in b[1]) + ")"


# ---------------------------------------------------------------- substitution
def atoms_of(x, acc=None):
    """all atoms (transitively) in a term or formula"""
    if acc is None:
        acc = set()
    if x is True or x is False or isnum(x) or isinstance(x, (str, float)) or x is None:
        return acc
    if type(x) is Poly:
        for m in x.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    for y in ATOMS[a].args:
                        atoms_of(y, acc)
        return acc
    if isinstance(x, tuple):
        if x and x[0] in ("le", "lt", "eq", "not"):
            atoms_of(x[1], acc)
        else:
            for y in x:
                atoms_of(y, acc)
    return acc


def subst(x, mp, cache=None):
    """replace atoms (by id) with terms"""
    if cache is None:
        cache = {}
    if x is True or x is False or isnum(x) or x is None or isinstance(x, (str, float)):
        return x
    if type(x) is Poly:
        k = id(x)
        hit = cache.get(k)
        if hit is not None and hit[0] is x:
            return hit[1]
        r = 0
        changed = False
        for m, c in x.t.items():
            for a, _ in m:
                if _atom_affected(a, mp, cache):
                    changed = True
                    break
            if changed:
                break
        if not changed:
            cache[k] = (x, x)
            return x
        for m, c in x.t.items():
            term = c
            for a, e in m:
                term = mul(term, ipow(subst_atom(a, mp, cache), e))
            r = add(r, term)
        cache[k] = (x, r)
        return r
    k = x[0]
    if k == "le":
        return le0(subst(x[1], mp, cache))
    if k == "lt":
        return lt0(subst(x[1], mp, cache))
    if k == "eq":
        return eq0(subst(x[1], mp, cache))
    if k == "not":
        return bnot(subst(x[1], mp, cache))
    if k == "and":
        return band(*[subst(y, mp, cache) for y in x[1]])
    if k == "or":
        return bor(*[subst(y, mp, cache) for y in x[1]])
    raise ValueError(k)


def _atom_affected(a, mp, cache):
    k = ("aff", a)
    if k in cache:
        return cache[k]
    if a in mp:
        r = True
    else:
        acc = set()
        for y in ATOMS[a].args:
            atoms_of(y, acc)
        r = any(i in mp for i in acc)
    cache[k] = r
    return r


def subst_atom(a, mp, cache):
    if a in mp:
        return mp[a]
    if not _atom_affected(a, mp, cache):
        return of_atom(ATOMS[a])
    k = ("at", a)
    if k in cache:
        return cache[k]
    at = ATOMS[a]
    args = tuple(subst(y, mp, cache) if type(y) in (Poly, tuple) else y for y in at.args)
    r = rebuild(at, args)
    cache[k] = r
    return r


def rebuild(at, args):
    if at.kind == "ite":
        return ite(*args)
    if at.kind == "den":
        # only used with negative exponents; hand back the polynomial itself
        return args[0]
    if at.kind == "sqrt":
        return sqrt_(args[0])
    if at.kind in REBUILD:
        return REBUILD[at.kind](at, args)
    return of_atom(mk_atom(at.kind, args, at.sort))


REBUILD = {}


# ---------------------------------------------------------------- intervals
INF = float("inf")


def interval(p, bnd):
    """(lo, hi) of p given a dict atom id -> (lo, hi); None stands for unbounded"""
    if isnum(p):
        return p, p
    lo, hi = 0, 0
    for m, c in p.t.items():
        l, h = 1, 1
        for a, e in m:
            al, ah = atom_interval(a, bnd)
            if e < 0:
                if (al is not None and al > 0) or (ah is not None and ah < 0):
                    if al is not None and ah is not None:
                        nl, nh = Fraction(1) / ah, Fraction(1) / al
                    elif al is not None:
                        nl, nh = 0, Fraction(1) / al
                    else:
                        nl, nh = Fraction(1) / ah, 0
                    al, ah = nl, nh
                    e = -e
                else:
                    return None, None
            if e % 2 == 0 and e > 0:
                if al is not None and al >= 0:
                    pl, ph = al ** e, (ah ** e if ah is not None else None)
                elif ah is not None and ah <= 0:
                    pl, ph = ah ** e, (al ** e if al is not None else None)
                else:
                    pl = 0
                    ph = max(al ** e, ah ** e) if al is not None and ah is not None else None
            else:
                pl = al ** e if al is not None else None
                ph = ah ** e if ah is not None else None
            l, h = _imul(l, h, pl, ph)
            if l is None and h is None:
                break
        l, h = _imul(l, h, c, c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _imul(a, b, c, d):
    if (a == 0 and b == 0) or (c == 0 and d == 0):
        return 0, 0
    a = -INF if a is None else a
    b = INF if b is None else b
    c = -INF if c is None else c
    d = INF if d is None else d

    def pr(x, y):
        if x == 0 or y == 0:
            return 0
        if x in (INF, -INF) or y in (INF, -INF):
            return INF if (x > 0) == (y > 0) else -INF
        return x * y
    v = [pr(a, c), pr(a, d), pr(b, c), pr(b, d)]
    l, h = min(v), max(v)
    return (None if l == -INF else l), (None if h == INF else h)


def atom_interval(a, bnd):
    at = ATOMS[a]
    b = bnd.get(a)
    lo, hi = at.lo, at.hi
    if b is not None:
        if b[0] is not None and (lo is None or b[0] > lo):
            lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi):
            hi = b[1]
    if at.kind in ("sqrt", "abs", "exp"):
        if lo is None or lo < 0:
            lo = 0
        if at.kind == "abs":
            l1, h1 = interval(at.args[0], bnd)
            if l1 is not None and l1 > lo:
                lo = l1
            if h1 is not None and -h1 > lo:
                lo = -h1
            if l1 is not None and h1 is not None and hi is None:
                hi = max(-l1, h1)
    elif at.kind in ("sin", "cos"):
        lo, hi = (lo if lo is not None else -1), (hi if hi is not None else 1)
    elif at.kind == "ite" and lo is None and hi is None:
        l1, h1 = interval(at.args[1], bnd)
        l2, h2 = interval(at.args[2], bnd)
        lo = min(l1, l2) if l1 is not None and l2 is not None else None
        hi = max(h1, h2) if h1 is not None and h2 is not None else None
    elif at.kind == "den" and lo is None and hi is None:
        lo, hi = interval(at.args[0], bnd)
    elif at.kind == "imod":
        n = at.args[1]
        if isnum(n):
            lo, hi = 0 if lo is None else lo, n - 1 if hi is None else hi
    elif at.kind == "idiv" and lo is None:
        l1, h1 = interval(at.args[0], bnd)
        n = at.args[1]
        if isnum(n) and n > 0:
            lo = l1 // n if l1 is not None else None
            hi = h1 // n if h1 is not None else None
    return lo, hi


def bdecide(b, bnd):
    """decide a formula by interval reasoning: True, False or None"""
    if b is True or b is False:
        return b
    k = b[0]
    if k == "le":
        lo, hi = interval(b[1], bnd)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        return None
    if k == "lt":
        lo, hi = interval(b[1], bnd)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return None
    if k == "eq":
        lo, hi = interval(b[1], bnd)
        if lo is not None and hi is not None and lo == 0 and hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return None
    if k == "not":
        r = bdecide(b[1], bnd)
        return None if r is None else not r
    if k == "and":
        allt = True
        for x in b[1]:
            r = bdecide(x, bnd)
            if r is False:
                return False
            if r is None:
                allt = False
        return True if allt else None
    if k == "or":
        allf = True
        for x in b[1]:
            r = bdecide(x, bnd)
            if r is True:
                return True
            if r is None:
                allf = False
        return False if allf else None
    return None
