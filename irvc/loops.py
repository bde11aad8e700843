"""Unbounded contracts (P_): arrays of symbolic size and inductively verified loop summaries.

A loop whose trip count is symbolic is not unrolled.  One generic iteration j is executed symbolically; from it the closed
form of everything the loop changes is derived (induction variables, last values, sums, element-wise array updates), and
a second generic iteration, started from these closed forms at j under 0 <= j < N, must reproduce them at j+1.  Everything
else (writes that may overlap, loop-carried values of another form, data-dependent branches) is reported as unsupported."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .ir import *
from . import engine as EN
from .engine import Unsupported, Concretise, ForkBool, PathEnd, Ptr, UNDEF, cmp0


class IterEnd(Exception):
    pass


class LoopExit(Exception):
    pass


class Quit(Exception):
    """give up on summarising, run the loop as it is"""


# ------------------------------------------------------------------ sums
def has_atom(x, a):
    return a in atoms_of(x)


def sdepth(x):
    d = 0
    for a in atoms_of(x):
        at = ATOMS[a]
        if at.kind == "sum":
            d = max(d, 1 + at.extra)
    return d


def bound(d):
    return T.var("b!%d" % d, "I", 0, None)


def aid(p):
    (m, c), = p.t.items()
    return m[0][0]


def mk_sum(b, n, body):
    """sum of body over 0 <= b < n; b is an atom id"""
    if isnum(body):
        return mul(n, body)
    if isnum(n):
        if n <= 0:
            return 0
        if n <= 12:
            r = 0
            for k in range(n):
                r = add(r, T.subst(body, {b: k}))
            return r
    res = 0
    groups = {}
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if a == b or any(has_atom(y, b) for y in ATOMS[a].args if not isinstance(y, str)) else ind).append((a, e))
        groups.setdefault(tuple(dep), []).append((tuple(ind), c))
    for dep, rest in groups.items():
        co = 0
        for ind, c in rest:
            co = add(co, Poly({ind: c}) if ind else c)
        if not dep:
            s = n
        elif dep == ((b, 1),):
            s = scale(sub(mul(n, n), n), Fraction(1, 2))
        else:
            p = Poly({dep: 1})
            d = max(sdepth(p), sdepth(n))
            v = bound(d)
            at = mk_atom("sum", (v, n, T.subst(p, {b: v})), "I" if p.is_int() else "R")
            at.extra = d
            s = of_atom(at)
        res = add(res, mul(co, s))
    return res


def rebuild_sum(at, args):
    return mk_sum(aid(at.args[0]), args[1], args[2])


T.REBUILD["sum"] = rebuild_sum


def eval_sum(at, env, cache):
    from .evalf import evalf, NoValue
    b, n, body = at.args
    n = evalf(n, env, cache)
    if n > 60:
        raise NoValue
    r = 0
    e = dict(env)
    for k in range(int(n)):
        e[aid(b)] = k
        r = r + evalf(body, e, {})
    return r


def eval_sel(at, env, cache):
    from .evalf import evalf, NoValue
    import hashlib
    i = int(evalf(at.args[1], env, cache))
    key = ("sel", at.args[0], i)
    v = env.get(key)
    if v is None:
        h = int(hashlib.sha256(("%s,%d,%s" % (at.args[0], i, env.get("salt", 0))).encode()).hexdigest()[:8], 16)
        if at.sort == "I":
            lo = at.lo if at.lo is not None else -3
            hi = at.hi if at.hi is not None else lo + 7
            v = lo + h % (hi - lo + 1)
        elif at.lo is not None and at.hi is not None:
            v = at.lo + (at.hi - at.lo) * Fraction(h % 97, 96)
        else:
            v = Fraction(h % 97 - 48, 8)
        env[key] = v
    return v


from . import evalf as EV
EV.EVALK["sum"] = eval_sum
EV.EVALK["sel"] = eval_sel


def mk_sel(name, idx, sort, lo=None, hi=None):
    return of_atom(mk_atom("sel", (name, idx), sort))


# ------------------------------------------------------------------ arrays
class Layer:
    """for all values of the bound variables within their ranges: element idx has the value val"""
    __slots__ = ("bv", "idx", "val")

    def __init__(self, bv, idx, val):
        self.bv, self.idx, self.val = bv, idx, val

    def __repr__(self):
        return "[%s: %s -> %s]" % (", ".join("%s<%s" % (T.atom_str(ATOMS[b]), n) for b, n in self.bv), self.idx, str(self.val)[:200])


class Arr:
    __slots__ = ("es", "base", "layers", "sort")

    def __init__(self, es=None, base=("undef",), layers=(), sort=None):
        self.es, self.base, self.layers, self.sort = es, base, layers, sort

    def copy(self):
        return Arr(self.es, self.base, self.layers, self.sort)

    def active(self, f):
        return True


def mono_div(d, s):
    """(q, r) with d = q*s + r, monomial by monomial; s a number or a single monomial"""
    if isnum(s):
        if isnum(d):
            return d // s, d % s
        q, r = {}, {}
        for m, c in d.t.items():
            if m and c % s == 0:
                q[m] = c // s
            elif not m:
                if c // s:
                    q[m] = c // s
                if c % s:
                    r[m] = c % s
            else:
                r[m] = c
        return mkpoly(q), mkpoly(r)
    if isnum(d):
        return 0, d
    if len(s.t) > 1:
        lead = max(s.t, key=lambda m: (sum(e for _, e in m), m))
        q, r = 0, d
        for _ in range(4):
            if isnum(r):
                break
            q1, _r = mono_div(r, mkpoly({lead: s.t[lead]}))
            if isnum(q1) and q1 == 0:
                break
            q, r = add(q, q1), sub(r, mul(q1, s))
        return q, r
    (sm, sc), = s.t.items()
    q, r = {}, {}
    for m, c in d.t.items():
        e = dict(m)
        ok = c % sc == 0
        for a, k in sm:
            if e.get(a, 0) < k:
                ok = False
            else:
                e[a] -= k
        if ok:
            k2 = tuple(sorted((a, k) for a, k in e.items() if k))
            q[k2] = c // sc
        else:
            r[m] = c
    return mkpoly(q), mkpoly(r)


def lin_coeff(p, a):
    """(coefficient, rest) of p as a polynomial of degree one in atom a, or None"""
    if isnum(p):
        return 0, p
    co, rest = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(a, 0)
        if e == 0:
            if any(has_atom(y, a) for x, _ in m for y in ATOMS[x].args if not isinstance(y, str)):
                return None
            rest[m] = c
        elif e == 1:
            co[tuple(sorted(d.items()))] = c
        else:
            return None
    return mkpoly(co), mkpoly(rest)


class LoopSum:
    def __init__(self, E):
        self.E = E
        E.quiet = 0
        E.wlog = None
        self.ctx = []
        self.nvar = 0
        self.info = {}
        self.log = {}
        self.snaps, self.snapkey = {}, {}
        E.arr_load = self.arr_load
        E.arr_store = self.arr_store

    def new_arr(self):
        return Arr()

    def report(self):
        return ["%s: %s" % (k, v) for k, v in self.log.items()]

    def fresh(self, nm, sort, lo=None, hi=None):
        self.nvar += 1
        return T.var("%s!%d" % (nm, self.nvar), sort, lo, hi)

    # -------------------------------------------------------------- deciding with products of facts
    def hints(self, st, query):
        """products of pairs of non-negative linear facts about the atoms of the query"""
        ids = set()
        for q in query:
            atoms_of(q, ids)
        facts = []
        for b in EN_flat(st.pc):
            if b[0] == "le" and b[1].is_int() and len(b[1].t) <= 6:
                facts.append(neg(b[1]))
                atoms_of(b[1], ids)
        for a in ids:
            at = ATOMS[a]
            if at.sort == "I" and at.lo is not None and at.kind == "var":
                facts.append(sub(of_atom(at), at.lo))
        facts = [f for f in facts if all(sum(e for _, e in m) <= 1 for m in f.t)][-14:]
        out = []
        for i, f in enumerate(facts):
            for g in facts[i:]:
                c = le0(neg(mul(f, g)))
                if c is not True and c is not False:
                    out.append(c)
        return out

    def entails(self, st, c):
        E = self.E
        if c is True or c is False:
            return c
        if c in st.pcs or T.bdecide(c, {}) is True:
            return True
        nc = bnot(c)
        r = E.solver.check(st.pc, (nc,), E.feas_timeout)
        if r != "unknown":
            return r == "unsat"
        return E.solver.check(st.pc, [nc] + self.hints(st, [c]), 3000) == "unsat"

    def decide(self, st, c):
        if c is True or c is False:
            return c
        if self.entails(st, c):
            return True
        if self.entails(st, bnot(c)):
            return False
        return None

    def require(self, st, c, what):
        if self.E.quiet:
            return
        if not self.entails(st, c):
            raise Unsupported("loop summary: %s: %s" % (what, bstr(c)[:200]))

    # -------------------------------------------------------------- array access
    def warr(self, st, oid):
        E = self.E
        o = E.wobj(st, oid)
        if E.wlog is not None:
            E.wlog.append((oid, None, 0, None))
        return o

    def elem(self, st, o, f, n):
        arr = o.arr
        es = arr.es or n
        if es != n:
            if isnum(f) or True:
                raise Unsupported("access of %d bytes in an array of %d-byte elements" % (n, es))
        if type(f) is int:
            if f % es:
                raise Unsupported("misaligned array access")
            return es, f // es
        i = self.E.idiv_exact(f, es)
        if i is None:
            raise Unsupported("array offset %s" % (f,))
        return es, i

    def inbounds(self, st, o, f, n):
        E = self.E
        if E.quiet:
            return
        for c in (le0(neg(f)), le0(sub(add(f, n), o.size))):
            if not self.entails(st, c):
                r = E.solver.check(st.pc, [bnot(c)] + self.hints(st, [c]), 3000)
                if r == "sat" and not self.ctx:
                    E.implicit_fail(st, "out of bounds", "offset %s size %d of object %s of size %s" % (f, n, o.name, o.size))
                raise Unsupported("array access at %s not shown to be within %s" % (f, o.size))

    def arr_load(self, st, oid, o, f, n, ty):
        if self.E.quiet:
            if ty.k == "ptr":
                return Ptr(0, self.fresh("q", "I"))
            return self.fresh("q", "R" if ty.k == "double" else "I", *(self.span((o or self.E.getobj(st, oid)).arr) if T.SELB else ()))
        es, i = self.elem(st, o, f, n)
        self.inbounds(st, o, f, n)
        return self.read(st, o.arr, i)

    def span(self, arr):
        """bounds of the elements of an array"""
        r = []
        full = []           # lengths of the ranges that later layers cover from the start
        for L in reversed(arr.layers):
            w = None
            if len(L.bv) == 1 and type(L.idx) is Poly and L.idx == of_atom(ATOMS[L.bv[0][0]]):
                w = L.bv[0][1]
                if w in full:
                    continue
            elif not L.bv and isnum(L.idx) and any((T.interval(n, {})[0] or 0) > L.idx >= 0 for n in full):
                continue
            v = L.val
            r.append(T.interval(v, {}) if isnum(v) or type(v) is Poly else (None, None))
            if w is not None:
                full.append(w)
        b = arr.base
        if b[0] == "sel":
            r.append(T.SELB.get(b[1], (None, None)))
        elif b[0] == "const":
            r.append((b[1], b[1]) if isnum(b[1]) else (None, None))
        lo = [x for x, _ in r]
        hi = [x for _, x in r]
        return (min(lo) if lo and None not in lo else None, max(hi) if hi and None not in hi else None)

    def arr_store(self, st, oid, o, f, n, v):
        if self.E.quiet:
            self.warr(st, oid)
            return
        es, i = self.elem(st, o, f, n)
        self.inbounds(st, o, f, n)
        o = self.warr(st, oid)
        if o.arr.es is None:
            o.arr.es = es
        self.push(st, o.arr, Layer((), i, v))

    def push(self, st, arr, L):
        ls = arr.layers
        if not L.bv:
            while ls and not ls[-1].bv and ls[-1].idx == L.idx:
                ls = ls[:-1]
        arr.layers = ls + (L,)

    def match(self, st, L, idx):
        """[condition, substitution] under which element idx is one of the layer's"""
        if not L.bv:
            return cmp0("eq", sub(idx, L.idx)) if type(sub(idx, L.idx)) is Poly else sub(idx, L.idx) == 0, {}
        cs = []
        rest = L.idx
        ranges = dict(L.bv)
        for b, n in L.bv:
            r = lin_coeff(rest, b)
            if r is None:
                raise Unsupported("layer index %s" % (L.idx,))
            co, rest = r
            cs.append([b, co, n])
        d = sub(idx, rest)
        mp = {}
        cond = []
        for b, co, n in cs:
            if isnum(co) and co == 0 and any(has_j(n2, b) for _, n2 in L.bv):
                raise Unsupported("range depending on a loop that repeats a write")
        # bound variables with a zero coefficient: the last iteration wins
        live = []
        for b, co, n in cs:
            if isnum(co) and co == 0:
                mp[b] = sub(n, 1)
                cond.append(le0(sub(1, n)))
            else:
                live.append((b, co, n))

        def key(x):
            co = x[1]
            return (0, abs(co)) if isnum(co) else (sum(e for _, e in max(co.t, key=lambda m: sum(e for _, e in m))), 0)
        live.sort(key=key)
        while live:
            b, co, n = live.pop()
            if not live:
                if isnum(co) and abs(co) == 1:
                    q = scale(d, co)
                    mp[b] = q
                    cond += [le0(neg(q)), le0(sub(add(q, 1), n))]
                    d = 0
                    break
            if isnum(co) and co < 0 or type(co) is Poly and any(c < 0 for c in co.t.values()):
                raise Unsupported("stride %s" % (co,))
            # what the others can reach must stay below the stride
            span = 0
            for b2, c2, n2 in live:
                span = add(span, mul(c2, sub(n2, 1)))
            g = st
            if live and any(has_j(n2, b1) for b1, _ in L.bv for _, n2 in L.bv):
                g = st.fork(self.E)
                for b1, n1 in L.bv:
                    self.E.assume(g, le0(sub(add(of_atom(ATOMS[b1]), 1), n1)))
            # the value q1 is the only candidate if what remains for q1+1 is negative and what remains for q1-1
            # is beyond the reach of the inner ranges
            q, r = mono_div(d, co)
            found = False
            for k in (0, 1, -1):
                q1, r1 = add(q, k), sub(r, mul(co, k))
                if self.entails(g, le0(sub(add(r1, 1), co))) and self.entails(g, le0(sub(add(span, 1), add(r1, co)))):
                    found = True
                    break
            if not found:
                if live and self.entails(st, bor(*[le0(n2) for _, _, n2 in live])):
                    return False, {}
                raise Unsupported("cannot locate element %s in %s" % (idx, L))
            mp[b] = q1
            cond += [le0(neg(q1)), le0(sub(add(q1, 1), n))]
            d = r1
            if not live:
                cond.append(cmp0("eq", d) if type(d) is Poly else d == 0)
        if cs and not [c for c in cs if not (isnum(c[1]) and c[1] == 0)]:
            cond.append(cmp0("eq", d) if type(d) is Poly else d == 0)
        return band(*cond), mp

    def subst(self, v, mp):
        if not mp or v is UNDEF or isnum(v):
            return v
        if type(v) is Ptr:
            return Ptr(v.o, T.subst(v.f, mp))
        return T.subst(v, mp)

    # -------------------------------------------------------------- elements that are located later
    # The contents of an array are a function of the index.  Where no layer can be told to hold element idx (or not to)
    # for the time being, as for a running index over a matrix that was written by rows and columns, the value is the
    # term lz(contents, idx, ...), which is evaluated when idx is replaced by something known.
    def lazy(self, arr, idx, sort):
        bound = set(b for L in arr.layers for b, _ in L.bv)
        ids = set()
        for L in arr.layers:
            for t in (L.idx, L.val) + tuple(n for _, n in L.bv):
                if type(t) is Poly:
                    atoms_of(t, ids)
                elif not isnum(t):
                    raise Unsupported("element %s not located" % (idx,))
        par = []
        for a in sorted(ids):
            at = ATOMS[a]
            if at.kind == "sel" and at.args[0].startswith("cur!"):
                raise Unsupported("element %s not located" % (idx,))
            if at.kind == "var" and "!" in at.args[0] and a not in bound and not at.args[0].startswith("b!"):
                if at.args[0][:2] in ("h!", "q!"):
                    raise Unsupported("element %s not located" % (idx,))
                par.append(a)
        if arr.base[0] == "sel" and arr.base[1].startswith("cur!"):
            raise Unsupported("element %s not located" % (idx,))
        key = (arr.base, tuple((L.bv, L.idx, L.val) for L in arr.layers))
        nm = self.snapkey.get(key)
        if nm is None:
            nm = "A%d" % len(self.snaps)
            self.snapkey[key] = nm
            self.snaps[nm] = (arr.copy(), tuple(par))
        at = mk_atom("lz", (nm, idx) + tuple(of_atom(ATOMS[a]) for a in par), sort)
        return of_atom(at)

    def has_lazy(self, t):
        return any(ATOMS[a].kind == "lz" for a in atoms_of(t))

    def force(self, st, t):
        """evaluate what can be located by now"""
        if type(t) is Ptr or isnum(t) or t is UNDEF:
            return t
        if type(t) is tuple:
            if not self.has_lazy(t):
                return t
            k = t[0]
            if k in ("le", "lt", "eq"):
                return cmp0(k, self.force(st, t[1]))
            if k == "not":
                return bnot(self.force(st, t[1]))
            if k in ("and", "or"):
                return (band if k == "and" else bor)(*[self.force(st, x) for x in t[1]])
            return t
        if type(t) is not Poly or not self.has_lazy(t):
            return t
        mp = {}
        for m in t.t:
            for a, _ in m:
                if a in mp:
                    continue
                at = ATOMS[a]
                if not self.has_lazy(of_atom(at)):
                    continue
                if at.kind == "lz":
                    arr, par = self.snaps[at.args[0]]
                    idx = self.force(st, at.args[1])
                    sb = {p: x for p, x in zip(par, at.args[2:]) if x != of_atom(ATOMS[p])}
                    if sb:
                        arr = Arr(arr.es, arr.base, tuple(Layer(tuple((b, self.subst(n, sb)) for b, n in L.bv), self.subst(L.idx, sb),
                                                                self.subst(L.val, sb)) for L in arr.layers), arr.sort)
                    v = self.read(st, arr, idx)
                    if type(v) is not Poly and not isnum(v):
                        raise Unsupported("element %s is not set" % (idx,))
                    mp[a] = v
                elif at.kind == "sum":
                    b, n, body = at.args
                    k = self.fresh("k", "I", 0)
                    g = st.fork(self.E)
                    self.E.assume(g, le0(sub(add(k, 1), n)))
                    mp[a] = mk_sum(aid(k), n, self.force(g, T.subst(body, {aid(b): k})))
                elif at.kind == "ite":
                    c, x, y = at.args
                    c = self.force(st, c)
                    r = self.decide(st, c) if type(c) is tuple else c
                    if r is True or r is False:
                        mp[a] = self.force(st, x if r else y)
                    else:
                        out = []
                        for cc, v in ((c, x), (bnot(c), y)):
                            g = st.fork(self.E)
                            try:
                                self.E.assume(g, cc)
                            except PathEnd:
                                pass
                            out.append(self.force(g, v))
                        mp[a] = ite(c, out[0], out[1])
                else:
                    mp[a] = T.rebuild(at, tuple(self.force(st, y) if type(y) in (Poly, tuple) else y for y in at.args))
        return T.subst(t, mp) if mp else t

    def unify(self, st, goal):
        """the goal with integer variables eliminated by the equations of the path condition"""
        done = {}
        for b in EN_flat(st.pc):
            if b[0] != "eq" or not b[1].is_int():
                continue
            p = T.subst(b[1], done) if done else b[1]
            if type(p) is not Poly:
                continue
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    a = m[0][0]
                    if ATOMS[a].kind == "var" and all(a != x for mm in p.t if mm != m for x, _ in mm):
                        v = mul(sub(p, of_atom(ATOMS[a]) if c == 1 else neg(of_atom(ATOMS[a]))), -c)
                        if not any(has_atom(x, a) for x in (v,) if type(x) is Poly):
                            done = {k: T.subst(x, {a: v}) if type(x) is Poly else x for k, x in done.items()}
                            done[a] = v
                            break
        return T.subst(goal, done) if done else goal

    def pin(self, st, goal):
        """the goal with the integer variables replaced which the path condition fixes to a bound"""
        goal = self.unify(st, goal)
        if type(goal) is not tuple:
            return goal
        ids = set()
        atoms_of(goal, ids)
        mp = {}
        for a in sorted(ids):
            at = ATOMS[a]
            if at.kind == "var" and at.sort == "I" and at.lo is not None and self.entails(st, T.eq0(sub(of_atom(at), at.lo))):
                mp[a] = at.lo
        return T.subst(goal, mp) if mp else goal

    def settle(self, st, goal):
        """a goal without elements still to be located"""
        if type(goal) is not tuple or not self.has_lazy(goal):
            return goal
        goal = self.unify(st, goal)
        if type(goal) is not tuple:
            return goal
        if goal[0] == "eq" and is_zero_identically(goal[1]):
            return True
        g = self.force(st, goal)
        if type(g) is tuple and self.has_lazy(g):
            if g[0] == "eq" and is_zero_identically(g[1]):
                return True
            raise Unsupported("element not located in %s" % bstr(g)[:300])
        return g

    def read(self, st, arr, idx):
        E = self.E
        pend = []
        res = None
        for L in reversed(arr.layers):
            try:
                c, mp = self.match(st, L, idx)
            except Unsupported:
                if E.quiet:
                    return self.fresh("q", "I" if arr.es == 4 else "R")
                if pend:
                    raise
                return self.lazy(arr, idx, "I" if arr.es == 4 else "R")
            # ranges may depend on the substituted variables
            c = T.subst(c, mp) if type(c) is tuple else c
            if type(c) is tuple:
                r = self.decide(st, c)
                c = c if r is None else r
            if c is False:
                continue
            v = self.subst(L.val, mp)
            if c is True:
                res = self.force(st, v)
                break
            if type(v) is Poly and self.has_lazy(v):
                g = st.fork(E)
                try:
                    E.assume(g, c)
                except PathEnd:
                    pass
                v = self.force(g, v)
            pend.append((c, v))
        if res is None:
            b = arr.base
            if b[0] == "sel":
                res = mk_sel(b[1], idx, b[2], b[3], b[4])
            elif b[0] == "const":
                res = b[1]
            else:
                res = UNDEF
        for c, v in reversed(pend):
            if res is UNDEF:
                if self.entails(st, bor(*[x for x, _ in pend])):
                    res = v
                    continue
                return UNDEF
            res = v if v == res else ite(c, v, res)
        return res

    # -------------------------------------------------------------- block operations
    def toarr(self, st, oid):
        o = self.E.getobj(st, oid)
        return o.arr is not None

    def sym_fill(self, st, p, n, name, sort, size, lo, hi):
        E = self.E
        if self.decide(st, le0(n)) is True:
            return
        o = E.getobj(st, p.o)
        if o.arr is None:
            raise Unsupported("filling a plain object with a symbolic number of values")
        o = self.warr(st, p.o)
        es, i = self.elem(st, o, p.f, size)
        b = aid(self.fresh("k", "I", 0))
        lo = lo if isnum(lo) else None
        hi = hi if isnum(hi) else None
        st.inputs.append((name + ".size", n))
        if lo is not None or hi is not None:
            name = "%s[%s;%s]" % (name, lo, hi)
            T.SELB[name] = (lo, hi)
        if i == 0 and not self.ctx and self.entails(st, cmp0("eq", sub(mul(n, size), o.size))):
            o.arr = Arr(size, ("sel", name, sort, lo, hi), (), sort)
        else:
            self.inbounds(st, o, p.f, mul(n, size))
            o.arr.es = size
            self.push(st, o.arr, Layer(((b, n),), add(i, of_atom(ATOMS[b])), mk_sel(name, of_atom(ATOMS[b]), sort, lo, hi)))

    def inbounds_range(self, st, o, f, n):
        self.inbounds(st, o, f, n)

    def sym_set(self, st, p, val, n):
        E = self.E
        val = E.conc(st, val)
        if val != 0:
            raise Unsupported("memset with a non-zero value")
        o, f = E.access(st, p, 0, True)
        if o.arr is not None and E.quiet:
            self.warr(st, p.o)
            return
        if o.arr is None:
            E.set_mem(st, p, val, E.conc(st, n))
            return
        o = self.warr(st, p.o)
        es = o.arr.es or 8
        o.arr.es = es
        self.inbounds(st, o, p.f, n)
        _, i = self.elem(st, o, p.f, es)
        cnt = E.idiv_exact(n, es) if type(n) is Poly else n // es
        if cnt is None:
            raise Unsupported("memset of %s bytes" % (n,))
        b = aid(self.fresh("k", "I", 0))
        self.push(st, o.arr, Layer(((b, cnt),), add(i, of_atom(ATOMS[b])), 0))

    def sym_copy(self, st, d, s, n):
        E = self.E
        if type(n) is not int and self.decide(st, cmp0("eq", n)) is True:
            return
        so, sf = E.access(st, s, 0, False)
        do, df = E.access(st, d, 0, True)
        if E.quiet and do.arr is not None:
            self.warr(st, d.o)
            return
        if so.arr is None or do.arr is None:
            # at least one side is a plain object: the length has to be a number
            n = E.conc(st, n)
            es = (so.arr or do.arr).es or 8
            for k in range(0, n, es):
                ty = EN.DBL if es == 8 else EN.I32
                E.store(st, E.padd(d, k), ty, E.load(st, E.padd(s, k), ty))
            return
        es = so.arr.es or do.arr.es or 8
        do = self.warr(st, d.o)
        if do.arr.es is None:
            do.arr.es = es
        if do.arr.es != es:
            raise Unsupported("copy between arrays of different element sizes")
        if so.arr.es is None:
            so = E.wobj(st, s.o)
            so.arr.es = es
        self.inbounds(st, so, sf, n)
        self.inbounds(st, do, df, n)
        _, si = self.elem(st, so, sf, es)
        _, di = self.elem(st, do, df, es)
        cnt = E.idiv_exact(n, es) if type(n) is Poly else n // es
        if cnt is None:
            raise Unsupported("copy of %s bytes" % (n,))
        bp = self.fresh("k", "I", 0)
        g = st.fork(E)
        E.assume(g, le0(sub(add(bp, 1), cnt)))
        v = self.read(g, so.arr, add(si, bp))
        do = E.wobj(st, d.o)
        self.push(st, do.arr, Layer(((aid(bp), cnt),), add(di, bp), v))

    # -------------------------------------------------------------- control flow
    def loops_of(self, f):
        r = self.info.get(f)
        if r is not None:
            return r
        succ = {}
        for nm, b in f.blocks.items():
            succ[nm] = list(b.succ)
        pred = {}
        for a, ss in succ.items():
            for b in ss:
                pred.setdefault(b, []).append(a)
        order, seen = [], set()

        def dfs(x):
            stack = [(x, iter(succ.get(x, ())))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z not in seen and z in f.blocks:
                        seen.add(z)
                        stack.append((z, iter(succ.get(z, ()))))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(f.entry)
        order.reverse()
        dom = {x: None for x in order}
        dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for x in order:
                if x == f.entry:
                    continue
                ps = [dom[p] for p in pred.get(x, ()) if p in dom and dom[p] is not None]
                if not ps:
                    continue
                n = set.intersection(*ps) | {x}
                if n != dom[x]:
                    dom[x] = n
                    ch = True
        loops = {}
        for x in order:
            for y in succ.get(x, ()):
                if y in (dom[x] or ()):
                    body = loops.setdefault(y, {y})
                    work = [x]
                    while work:
                        z = work.pop()
                        if z not in body:
                            body.add(z)
                            work += pred.get(z, [])
        self.info[f] = loops
        return loops

    def enter(self, st, fr, target):
        """called on every branch of frame fr to block target"""
        if self.ctx:
            c = self.ctx[-1]
            if len(st.frames) == c["depth"]:
                if target == c["header"]:
                    c["from"] = fr.blk.name
                    raise IterEnd()
                if target not in c["blocks"]:
                    raise LoopExit()
        L = self.loops_of(fr.f).get(target)
        if L is None or fr.blk.name in L:
            return False
        try:
            return self.summarise(st, fr, target, L)
        except Quit:
            return False

    def jump0(self, st, fr, target):
        E = self.E
        b = fr.f.blocks[target]
        cur = fr.blk.name
        vals = [(p.dst, E.op(st, fr, p.a[cur])) for p in b.phis]
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = cur
        fr.blk = b
        fr.ip = 0

    # -------------------------------------------------------------- one generic iteration
    def run_iter(self, g, depth, header, blocks, exits, strict=False, probe=False, own=None):
        """run g from the loop header to the back edge; exits collects the conditions under which it stays in the loop"""
        E = self.E
        H = EN.HANDLERS
        self.ctx.append({"depth": depth, "header": header, "blocks": blocks, "from": None})
        try:
            steps = 0
            while True:
                if len(g.frames) < depth:
                    raise Unsupported("return from within a loop")
                fr = g.frames[-1]
                ins = fr.blk.ins[fr.ip]
                h = H.get(ins.op)
                if h is None:
                    raise Unsupported("instruction " + (ins.txt or ins.op))
                steps += 1
                if E.quiet and len(g.frames) > depth + 60:
                    raise Unsupported("deep recursion in a loop")
                if steps > 20000:
                    raise Unsupported("long loop body")
                if probe and len(g.frames) == depth and ins.op == "br" and ins.a is not None and (ins.b in blocks) != (ins.c in blocks):
                    v = E.op(g, fr, ins.a)
                    v = bool(v) if type(v) is int else v
                    self.literal = type(v) is bool
                    v = self.decide(g, v) if type(v) is tuple else v
                    return None if v is (ins.b not in blocks) else {}
                if E.quiet and len(g.frames) == depth and ins.op == "br" and ins.a is not None \
                        and (ins.b in blocks) != (ins.c in blocks):
                    v = E.op(g, fr, ins.a)
                    if exits:
                        pass
                    elif own is not None and (type(v) is not tuple or all(a in own for a in atoms_of(v))):
                        # the first test was a constant, and this one depends on nothing but running values: fixed trip count
                        raise Quit()
                    if type(v) is tuple:
                        stay = ins.b in blocks
                        cc = v if stay else bnot(v)
                        exits.append(cc)
                        E.assume(g, cc)
                        E.jump(g, fr, ins.b if stay else ins.c)
                        continue
                try:
                    h(E, g, fr, ins)
                except ForkBool as e:
                    c = e.cond
                    if len(g.frames) == depth and ins.op == "br" and ins.a is not None and \
                            (ins.b in blocks) != (ins.c in blocks):
                        v = E.op(g, fr, ins.a)
                        stay = ins.b in blocks
                        cc = v if stay else bnot(v)
                        if v != c and bnot(v) != c:
                            raise Unsupported("loop condition")
                        if strict and not E.quiet and not self.entails(g, cc):
                            raise Unsupported("loop condition %s not implied by the trip count" % bstr(cc)[:200])
                        exits.append(cc)
                        E.assume(g, cc)
                        continue
                    if E.quiet:
                        k = e.cond
                        # discovery only: any way through the body will do
                        E.assume(g, k)
                        continue
                    if not any(type(ATOMS[a].args[0]) is str and "!" in ATOMS[a].args[0] for a in atoms_of(c)):
                        # the same in every iteration: a case distinction before the loop
                        raise
                    raise Unsupported("branch on %s within a loop" % bstr(c)[:160])
                except Unsupported as e:
                    e.locate(g)
                    raise
                except Concretise as e:
                    if E.quiet == 1:
                        raise Quit()
                    raise Unsupported("case distinction on %s within a loop: %s in %s" % (e.term, ins.txt, fr.f.name))
        except IterEnd:
            fr = g.frames[-1]
            b = fr.f.blocks[header]
            return {p.dst: E.op(g, fr, p.a[self.ctx[-1]["from"]]) for p in b.phis}
        except LoopExit:
            return None
        except PathEnd as e:
            raise Unsupported("the loop body ends in %s" % e.why)
        finally:
            self.ctx.pop()

    def vkind(self, v, tyk):
        if tyk == "double" or tyk == "float":
            return "R"
        if tyk == "i":
            return "I"
        return "P"

    def summarise(self, st, fr, header, blocks):
        E = self.E
        depth = len(st.frames)
        where = "%s:%s" % (fr.f.name, header)
        g = st.fork(E)
        gf = g.frames[-1]
        self.jump0(g, gf, header)
        hb = fr.f.blocks[header]
        entry = {("r", p.dst): gf.regs[p.dst] for p in hb.phis}
        kind = {("r", p.dst): self.vkind(None, E.mod.resolve(p.ty).k) for p in hb.phis}
        width = {}
        known = set(st.objs)
        cells, arrays = {}, set()
        closed = {}         # variable -> function of j (a term in jv)
        jv = self.fresh("j", "I", 0)
        ja = aid(jv)
        unread = set()      # variables set in every iteration before they are used
        late = {}           # variables whose closed form takes the tracked iteration: sums and last values
        N = None
        osave, qsave = E.wlog, E.quiet
        literal = False

        def setup(sub_closed, jt, extra, quiet, bases):
            s = st.fork(E)
            sf = s.frames[-1]
            self.jump0(s, sf, header)
            hv = {}
            for x in list(entry):
                if x in sub_closed:
                    v = self.subst(sub_closed[x], {ja: jt}) if jt is not jv else sub_closed[x]
                else:
                    e = entry[x]
                    k = kind[x]
                    if k == "P":
                        if type(e) is not Ptr:
                            v = e
                        else:
                            hv[x] = self.fresh("h", "I")
                            v = Ptr(e.o, hv[x])
                    else:
                        hv[x] = self.fresh("h", k)
                        v = hv[x]
                if x[0] == "r":
                    sf.regs[x[1]] = v
                else:
                    o = E.wobj(s, x[1])
                    o.cells[x[2]] = (x[3], v)
            for a in bases:
                o = E.wobj(s, a)
                srt = "I" if o.arr.es == 4 else "R"
                nm = bases[a]
                o.arr = Arr(o.arr.es, ("sel", nm, srt, None, None), (), srt)
            for c in extra:
                E.assume(s, c)
            return s, hv

        def same(a, b, s):
            if type(a) is Ptr and type(b) is Ptr:
                return a.o == b.o and same(a.f, b.f, s)
            if a is UNDEF or b is UNDEF or type(a) is Ptr or type(b) is Ptr:
                return a is b
            if type(a) in (bool, tuple) or type(b) in (bool, tuple):
                return a == b
            d = sub(a, b)
            if isnum(d):
                return d == 0
            return is_zero_identically(d) or self.entails(s, cmp0("eq", d))

        try:
            E.quiet = qsave + 1
            # a loop that is not entered at all is run as it is
            E.wlog = None
            self.literal = False
            s, _ = setup(entry, jv, [], True, {})
            try:
                if self.run_iter(s, depth, header, blocks, [], False, True) is None:
                    raise Quit()
            finally:
                E.wlog = osave
            literal = self.literal
            progress = True
            rounds = 0
            while progress:
                progress = False
                rounds += 1
                if rounds > 12:
                    raise Quit()
                bases = {a: "cur!%d!%d" % (a, self.nvar) for a in arrays}
                E.wlog = []
                extra = [le0(sub(add(jv, 1), N))] if N is not None else []
                s, hv = setup(closed, jv, extra, True, bases)
                exits = []
                try:
                    nxt = self.run_iter(s, depth, header, blocks, exits, own={aid(v) for v in hv.values()} if literal and rounds == 1 else None)
                finally:
                    log, E.wlog = E.wlog, osave
                if nxt is None:
                    # the first test already leaves the loop: nothing symbolic to summarise
                    raise Quit()
                # what the iteration wrote
                new = False
                for oid, off, n, tk in log:
                    if oid not in known:
                        continue
                    o = st.objs[oid]
                    if off is None or o.arr is not None:
                        if oid not in arrays:
                            arrays.add(oid)
                            new = True
                        continue
                    x = ("c", oid, off, n)
                    if x not in entry:
                        if any(y[0] == "c" and y[1] == oid and y[2] < off + n and off < y[2] + y[3] for y in entry):
                            raise Unsupported("overlapping cells in a loop")
                        c = o.cells.get(off)
                        v = c[1] if c is not None and c[0] == n else (E.load_slow(o, off, n))
                        entry[x] = v
                        kind[x] = "P" if tk == "ptr" or type(v) is Ptr else "R" if tk == "double" else "I" if tk == "i" else \
                            ("I" if n < 8 else "R")
                        if tk is None and type(v) is Poly:
                            kind[x] = "I" if v.is_int() else "R"
                        new = True
                if new:
                    closed = {}
                    late = {}
                    N = None
                    progress = True
                    continue
                # values at the end of the iteration
                end = {}
                for x in entry:
                    if x[0] == "r":
                        end[x] = nxt[x[1]]
                    else:
                        o = s.objs[x[1]]
                        c = o.cells.get(x[2])
                        end[x] = c[1] if c is not None and c[0] == x[3] else E.load_slow(o, x[2], x[3])
                hset = {aid(v): x for x, v in hv.items()}

                def open_atoms(t):
                    return [hset[a] for a in atoms_of(t) if a in hset]

                def vague(t):
                    """depends on values that the discovery run does not track"""
                    return has_q(t) or any(y in late for y in open_atoms(t))
                for x in list(entry):
                    if x in closed or x in late:
                        continue
                    e, v = entry[x], end[x]
                    if type(e) is Ptr or type(v) is Ptr:
                        if type(e) is Ptr and type(v) is Ptr and e.o == v.o:
                            e, v = e.f, v.f
                            wrapp = (lambda o: lambda t: Ptr(o, t))(end[x].o)
                        elif type(v) is Ptr and (e is UNDEF or type(e) is Ptr) and not open_atoms(v.f):
                            closed[x] = ("last", v, e)
                            progress = True
                            continue
                        else:
                            raise Unsupported("pointer carried by a loop")
                    else:
                        wrapp = lambda t: t
                    if v is UNDEF:
                        closed[x] = UNDEF
                        progress = True
                        continue
                    if type(v) in (bool, tuple) or type(e) in (bool, tuple):
                        if v == e:
                            closed[x] = v
                            progress = True
                            continue
                        raise Unsupported("boolean carried by a loop")
                    if type(v) in (EN.Pack, EN.PBits, list):
                        raise Unsupported("value carried by a loop")
                    hx = hv.get(x)
                    if hx is not None and not isnum(v) and kind[x] != "P" and all(y == x or y in late for y in open_atoms(v)) \
                            and (vague(v) or has_j(sub(v, hx), ja) and x in open_atoms(v)):
                        d = sub(v, hx)
                        if e is UNDEF or x not in open_atoms(v):
                            late[x] = "last"
                        elif isnum(d) or x not in open_atoms(d):
                            late[x] = "sum"
                        else:
                            continue
                        progress = True
                        continue
                    if hx is not None and not isnum(v) and e is not UNDEF:
                        d = sub(v, hx)
                        if not open_atoms(d) or isnum(d):
                            closed[x] = wrapp(add(e, mul(jv, d) if not has_j(d, ja) else mk_sum(ja, jv, d)))
                            progress = True
                            continue
                    if isnum(v) or not open_atoms(v):
                        w = wrapp(v)
                        if e is UNDEF:
                            closed[x] = ("last", w, UNDEF)
                        else:
                            prev = self.subst(v, {ja: sub(jv, 1)})
                            closed[x] = wrapp(prev if prev == e else ite(cmp0("eq", jv), e, prev))
                        progress = True
                        continue
                # entry-undefined last values: keep the value of iteration j-1 (never used before being set)
                for x, v in list(closed.items()):
                    if type(v) is tuple and v and v[0] == "last":
                        closed[x] = self.subst(v[1], {ja: sub(jv, 1)})
                        unread.add(x)
                if N is None and exits:
                    N = self.trips(st, exits[0], jv, ja, closed, hset)
                    for c in exits[1:] if N is not None and not isnum(N) else ():
                        # further tests: the first one to fail ends the loop
                        M = self.trips(st, c, jv, ja, closed, hset) if type(c) is tuple else None
                        if M is None or M == N:
                            continue
                        r = self.decide(st, le0(sub(N, M)))
                        if r is None and E.quiet <= 1:
                            raise ForkBool(le0(sub(N, M)))
                        if r is False:
                            N = M
                    if N is not None:
                        progress = True
                        if isnum(N):
                            raise Quit()
            if N is None and literal:
                raise Quit()
            if N is None:
                raise Unsupported("loop %s: no trip count from %s" % (where, [bstr(c)[:200] for c in exits]))
            op = [x for x in entry if x not in closed and x not in late]
            if op and literal:
                raise Quit()
            if op:
                raise Unsupported("loop %s: no closed form for %s: %s -> %s" % (where, op[:2], [str(entry[x]) for x in op[:2]],
                                  [str(end[x])[:300] for x in op[:2]]))
        except Unsupported:
            # the first test is a constant: most likely a loop with a fixed trip count
            if literal:
                raise Quit()
            raise
        finally:
            E.wlog, E.quiet = osave, qsave
        if isnum(N) and N <= 0:
            raise Quit()
        # ------------------------------------------------ the inductive step
        bases = {a: "cur!%d!%d" % (a, self.nvar) for a in arrays}
        E.wlog = []
        # variables that must not be read before they are set have no value in the inductive step
        s, hv = setup({x: UNDEF if x in unread else v for x, v in closed.items()}, jv, [le0(sub(add(jv, 1), N))], False, bases)
        ninp = len(s.inputs)
        exits = []
        try:
            nxt = self.run_iter(s, depth, header, blocks, exits, True)
        finally:
            log, E.wlog = E.wlog, osave
        if nxt is None:
            raise Unsupported("loop %s left early" % where)
        if len(s.inputs) != ninp:
            raise Unsupported("input created within a loop")
        names = {v: a for a, v in bases.items()}
        for oid, off, n, tk in log:
            if oid in known and (off is None or st.objs[oid].arr is not None):
                if oid not in arrays:
                    raise Unsupported("loop %s writes another array" % where)
            elif oid in known and ("c", oid, off, n) not in entry:
                raise Unsupported("loop %s writes another cell" % where)
        for oid in known:
            if st.objs[oid].alive and (oid not in s.objs or not s.objs[oid].alive):
                raise Unsupported("loop releases memory")
        rename = {}

        def uncur(t, layers_all):
            """replace reads of the array being modified by reads of its contents at entry"""
            if t is UNDEF or isnum(t) or type(t) is Ptr:
                return t
            mp = {}
            for a in atoms_of(t):
                at = ATOMS[a]
                if at.kind == "sel" and at.args[0] in names:
                    oid = names[at.args[0]]
                    r = at.args[1]
                    for L in layers_all[oid]:
                        self.disjoint_before(s, L, r, ja, jv, N)
                    mp[a] = self.read(s, st.objs[oid].arr, r)
            return T.subst(t, mp) if mp else t

        layers = {a: list(s.objs[a].arr.layers) for a in arrays}
        lateids = {aid(hv[x]) for x in late}
        if lateids and any(b in lateids for a in arrays for L in layers[a] for t in (L.idx, L.val) if type(t) is Poly for b in atoms_of(t)):
            raise Unsupported("loop %s: array elements depend on a running value" % where)
        accum = {}
        out = {}
        for a in arrays:
            nm = bases[a]
            res = []
            for L in layers[a]:
                if has_j(L.idx, ja) or any(has_j(n, ja) for _, n in L.bv):
                    res.append((L, "map"))
                else:
                    # the same elements in every iteration: accumulation, or the last value
                    v = L.val
                    cur = mk_sel(nm, L.idx, "I" if s.objs[a].arr.es == 4 else "R")
                    if type(v) is Poly and nm in [ATOMS[x].args[0] for x in atoms_of(v) if ATOMS[x].kind == "sel"]:
                        d = sub(v, cur)
                        if any(ATOMS[x].kind == "sel" and ATOMS[x].args[0] == nm for x in atoms_of(d)):
                            raise Unsupported("loop %s: recurrence on array elements" % where)
                        if len(layers[a]) != 1:
                            raise Unsupported("loop %s: accumulation next to other writes" % where)
                        res.append((L, "acc", d))
                    elif not has_j(v, ja):
                        res.append((L, "const"))
                    else:
                        res.append((L, "last"))
            out[a] = res
        final = {}
        for a, res in out.items():
            fl = []
            modes = set(r[1] for r in res)
            if "acc" in modes:
                L, _, d = res[0]
                d = uncur(d, {**layers, a: []})
                gl = s.fork(E)
                for b, n in L.bv:
                    E.assume(gl, le0(sub(add(of_atom(ATOMS[b]), 1), n)))
                v0 = self.read(gl, st.objs[a].arr, L.idx)
                self.injective(s, [L], None, None, N)
                fl.append(Layer(L.bv, L.idx, add(v0, mul(N, d) if not has_j(d, ja) else mk_sum(ja, N, d))))
            else:
                ms = [r[0] for r in res]
                if "map" in modes:
                    self.injective(s, ms, ja, jv, N)
                elif len(ms) > 1 and "last" in modes:
                    pass
                for r in res:
                    L = r[0]
                    gl = s.fork(E)
                    for b, n in L.bv:
                        E.assume(gl, le0(sub(add(of_atom(ATOMS[b]), 1), n)))
                    sv, s2 = s, gl
                    v = self._uncur(gl, L.val, names, layers, st, ja, jv, N) if True else L.val
                    fl.append(Layer(((ja, N),) + tuple(L.bv), L.idx, v))
            final[a] = fl
        # scalar values: check the step, then take the value at N
        def endval(x):
            if x[0] == "r":
                return nxt[x[1]]
            o = s.objs[x[1]]
            c = o.cells.get(x[2])
            return c[1] if c is not None and c[0] == x[3] else E.load_slow(o, x[2], x[3])
        hmap = {}
        todo = dict(late)
        checked = set(late)
        while todo:
            n0 = len(todo)
            for x, how in list(todo.items()):
                v = endval(x)
                if type(v) is Ptr or v is UNDEF or type(v) in (bool, tuple):
                    raise Unsupported("loop %s: value %s" % (where, x))
                hx = hv[x]
                d = T.subst(sub(v, hx) if how == "sum" else v, hmap)
                if any(aid(hv[y]) in atoms_of(d) for y in todo):
                    continue
                d = self._uncur(s, d, names, layers, st, ja, jv, N)
                e = entry[x]
                if how == "sum":
                    closed[x] = add(e, mk_sum(ja, jv, d) if has_j(d, ja) else mul(jv, d))
                else:
                    p = self.subst(d, {ja: sub(jv, 1)})
                    closed[x] = p if e is UNDEF or p == e else ite(cmp0("eq", jv), e, p)
                hmap[aid(hx)] = closed[x]
                del todo[x]
            if len(todo) == n0:
                raise Unsupported("loop %s: no closed form for %s" % (where, list(todo)[:2]))
        for x in entry:
            if x in checked:
                continue
            v = T.subst(endval(x), hmap) if type(endval(x)) is Poly else endval(x)
            want = closed[x]
            if want is UNDEF:
                continue
            nxtv = self.step(want, jv, ja)
            if x in unread and type(v) is Ptr and v.o not in known:
                closed[x] = UNDEF       # points to an object of the iteration itself: no value that can be used later
                continue
            if not same(v, nxtv, s):
                raise Unsupported("loop %s: step not inductive for %s: %s vs %s" % (where, x, str(v)[:200], str(nxtv)[:200]))
            closed[x] = self._uncur_v(s, want, names, layers, st, ja, jv, N)
        # ------------------------------------------------ after the loop
        self.jump0(st, fr, header)
        for x in entry:
            v = closed[x]
            v = v if v is UNDEF else self.subst(v, {ja: N})
            if x[0] == "r":
                fr.regs[x[1]] = v
            else:
                o = E.wobj(st, x[1])
                o.cells[x[2]] = (x[3], v)
                if osave is not None:
                    osave.append((x[1], x[2], x[3], {"P": "ptr", "R": "double", "I": "i"}[kind[x]]))
        for a, fl in final.items():
            o = self.warr(st, a)
            if o.arr.es is None:
                o.arr.es = s.objs[a].arr.es
            for L in fl:
                # bound variables of a finished loop must not meet those of a later use of the same layer
                o.arr.layers = o.arr.layers + (L,)
        if not E.quiet:
            self.log[where] = "trip count %s, %d scalars, %d arrays" % (str(N)[:60], len(entry), len(arrays))
        return True

    def step(self, want, jv, ja):
        """the closed form at j+1, with sums unfolded once"""
        if type(want) is Ptr:
            return Ptr(want.o, self.step(want.f, jv, ja))
        if isnum(want) or type(want) in (bool, tuple):
            return want
        r = 0
        for m, c in want.t.items():
            t = c
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "sum" and at.args[1] == jv:
                    x = add(T.subst(of_atom(at), {ja: jv}), T.subst(at.args[2], {aid(at.args[0]): jv}))
                elif at.kind == "ite" and at.args[0] == cmp0("eq", jv):
                    x = T.subst(at.args[2], {ja: add(jv, 1)})
                else:
                    x = T.subst(of_atom(at), {ja: add(jv, 1)})
                t = mul(t, ipow(x, e))
            r = add(r, t)
        return r

    def trips(self, st, c, jv, ja, closed, hset):
        """number of iterations from the condition for staying in the loop"""
        N = self.trips1(st, c, ja, hset)
        if N is None and not self.E.quiet > 1:
            g = self.pin(st, c)
            if type(g) is tuple and g != c and ja in atoms_of(g):
                N = self.trips1(st, g, ja, hset)
        return N

    def trips1(self, st, c, ja, hset):
        E = self.E
        mp = {}
        for a in atoms_of(c):
            if a in hset:
                return None
        k = c[0]
        if k == "le":
            r = lin_coeff(c[1], ja)
            if r is None:
                return None
            co, rest = r
            if not isnum(co):
                return self.trips_wide(st, co, rest)
            if co <= 0:
                return None
            if co == 1:
                N = sub(1, rest)
            else:
                q = E.idiv_exact(rest, co) if type(rest) is Poly else None
                if q is not None:
                    N = sub(1, q)
                elif isnum(rest):
                    N = (-rest) // co + 1
                else:
                    # floor(-rest/co)+1
                    w = neg(rest)
                    if not self.entails(st, le0(neg(add(w, co)))):
                        return None
                    N = E.divmod_(st, add(w, co), co, 64, True)[0]
        elif k == "not" and c[1][0] == "eq":
            r = lin_coeff(c[1][1], ja)
            if r is None:
                return None
            co, rest = r
            if isnum(co):
                if co == 0:
                    return None
                if co < 0:
                    co, rest = -co, neg(rest)
                rest = neg(rest)
                N = rest if co == 1 else (E.idiv_exact(rest, co) if type(rest) is Poly else (rest // co if rest % co == 0 else None))
            else:
                if all(x < 0 for x in co.t.values()):
                    co, rest = neg(co), neg(rest)
                if any(x < 0 for x in co.t.values()):
                    return None
                N, rem = mono_div(neg(rest), co)
                if not (isnum(rem) and rem == 0):
                    return None
                if not E.quiet > 1 and not self.entails(st, le0(sub(1, co))):
                    return None
            if N is None:
                return None
        else:
            return None
        if isnum(N):
            return N
        if E.quiet > 1:
            return 1 if st.pc and self.entails(st, le0(sub(N, 1))) and self.entails(st, le0(sub(1, N))) else N
        r = self.decide(st, le0(neg(N)))
        if r is False:
            if k == "not":
                return None
            return 0
        if r is None:
            raise ForkBool(le0(neg(N)))
        if st.pc and self.entails(st, le0(sub(N, 1))):
            return 1
        return N

    # -------------------------------------------------------------- independence of iterations
    def trips_wide(self, st, co, rest):
        """number of iterations of a loop that goes on while co*j + rest <= 0, with a symbolic stride"""
        if any(c < 0 for c in co.t.values()) or not self.entails(st, le0(sub(1, co))):
            return None
        q, _ = mono_div(neg(rest), co)
        for k in (1, 0, 2):
            N = add(q, k)
            if (self.entails(st, le0(add(mul(co, sub(N, 1)), rest))) and self.entails(st, le0(sub(1, add(mul(co, N), rest))))
                    and self.entails(st, le0(neg(N)))):
                return N
        return None

    def disjoint_before(self, s, L, r, ja, jv, N):
        """element r (of iteration j) is none that iterations i < j have written"""
        E = self.E
        if E.quiet:
            return
        g = s.fork(E)
        i = self.fresh("i", "I", 0)
        E.assume(g, le0(sub(add(i, 1), jv)))
        mp = {ja: i}
        for b, n in L.bv:
            nb = self.fresh("b", "I", 0)
            E.assume(g, le0(sub(add(nb, 1), T.subst(n, {**mp}))))
            mp[b] = nb
        if not self.differ(g, T.subst(L.idx, mp) if type(L.idx) is Poly else L.idx, r, sub(jv, i)):
            raise Unsupported("element %s may have been written in an earlier iteration (%s)" % (r, L))

    def differ(self, g, x, y, dj):
        """x != y for iterations a distance dj >= 1 apart"""
        return self.nonzero(g, sub(x, y), 3)

    def nonzero(self, g, d, depth):
        if isnum(d):
            return d != 0
        lin = all(sum(e for _, e in m) <= 1 for m in d.t)
        # d = S*q + r with |r| < S is zero only if both q and r are
        if depth:
            seen = set()
            wide = set()
            for a in {a for m in d.t for a, _ in m}:
                # strides that are sums
                lc = lin_coeff(d, a)
                S = lc[0] if lc is not None else 0
                if isnum(S) or len(S.t) < 2 or S in wide:
                    continue
                if all(c < 0 for c in S.t.values()):
                    S = neg(S)
                if S in wide or not S.is_int() or any(c < 0 for c in S.t.values()):
                    continue
                wide.add(S)
                q, r = mono_div(d, S)
                if q != 0 and self.entails(g, le0(sub(add(r, 1), S))) and self.entails(g, le0(sub(sub(1, r), S))):
                    if self.nonzero(g, r, depth - 1) or self.nonzero(g, q, depth - 1):
                        return True
            for m, c in d.t.items():
                for a, e in m:
                    k = tuple((x, y - (x == a)) for x, y in m)
                    k = tuple(t for t in k if t[1])
                    if k in seen or not k and abs(c) == 1:
                        continue
                    seen.add(k)
                    S = Poly({k: abs(c)}) if k else abs(c)
                    if not isnum(S) and not S.is_int() or type(c) is not int:
                        continue
                    q, r = mono_div(d, S)
                    if q == 0:
                        continue
                    if self.entails(g, le0(sub(add(r, 1), S))) and self.entails(g, le0(sub(sub(1, r), S))):
                        if self.nonzero(g, r, depth - 1) or self.nonzero(g, q, depth - 1):
                            return True
        for c in (lt0(d), lt0(neg(d)), bnot(cmp0("eq", d))):
            if self.E.entails(g, c):
                return True
        return not lin and self.entails(g, bnot(cmp0("eq", d)))

    def injective(self, s, Ls, ja, jv, N):
        """different iterations (and different bound values) address different elements"""
        E = self.E
        if E.quiet:
            return
        for L in Ls:
            # within one iteration the mixed-radix reading of match() relies on distinct elements only for reading
            # back; a location hit twice by one layer would be ambiguous
            pass
        if ja is None:
            return
        for L1 in Ls:
            for L2 in Ls:
                g = s.fork(E)
                i = self.fresh("i", "I", 0)
                E.assume(g, le0(sub(add(i, 1), jv)))
                m1, m2 = {ja: i}, {}
                for b, n in L1.bv:
                    nb = self.fresh("b", "I", 0)
                    E.assume(g, le0(sub(add(nb, 1), T.subst(n, {ja: i}) if type(n) is Poly else n)))
                    m1[b] = nb
                for b, n in L2.bv:
                    nb = self.fresh("b", "I", 0)
                    E.assume(g, le0(sub(add(nb, 1), n)))
                    m2[b] = nb
                x = T.subst(L1.idx, m1) if type(L1.idx) is Poly else L1.idx
                y = T.subst(L2.idx, m2) if type(L2.idx) is Poly else L2.idx
                if not self.differ(g, x, y, None):
                    if L1 is L2 and L1.val is not UNDEF and not has_j(L1.val, ja) and not any(has_atom(L1.val, b) for b, _ in L1.bv) \
                            and isnum(L1.val):
                        continue        # the same constant everywhere
                    raise Unsupported("iterations may write the same element: %s and %s" % (L1, L2))

    def _uncur(self, g, t, names, layers, st, ja, jv, N):
        if t is UNDEF or isnum(t):
            return t
        if type(t) is Ptr:
            return Ptr(t.o, self._uncur(g, t.f, names, layers, st, ja, jv, N))
        mp = {}
        for a in atoms_of(t):
            at = ATOMS[a]
            if at.kind == "sel" and at.args[0] in names:
                oid = names[at.args[0]]
                for L in layers[oid]:
                    self.disjoint_before(g, L, at.args[1], ja, jv, N)
                mp[a] = self.read(g, st.objs[oid].arr, at.args[1])
        return T.subst(t, mp) if mp else t

    def _uncur_v(self, g, t, names, layers, st, ja, jv, N):
        if t is UNDEF or isnum(t) or type(t) in (bool, tuple, Ptr):
            return t
        if not any(ATOMS[a].kind == "sel" and ATOMS[a].args[0].startswith("cur!") for a in atoms_of(t)):
            return t
        raise Unsupported("sum over an array modified in the same loop")


def has_q(t):
    return any(ATOMS[a].kind == "var" and ATOMS[a].args[0].startswith("q!") for a in atoms_of(t))


def has_j(x, ja):
    if x is UNDEF or isnum(x) or x is None:
        return False
    if type(x) is Ptr:
        return has_j(x.f, ja)
    return ja in atoms_of(x)


def EN_flat(pc):
    from .solver import flat
    return flat(pc)
