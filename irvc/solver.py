"""Back ends: z3 for feasibility and entailment, polynomial normal forms and Groebner bases for identities, cvc5 as a
second opinion on what z3 leaves open."""
import subprocess, os, time, tempfile
from fractions import Fraction
import z3
from .terms import *
from . import terms as T

TRIG = ("sin", "cos")


class Stats:
    def __init__(self):
        self.by = {}
        self.time = {}
        self.queries = 0

    def hit(self, who, t=0.0):
        self.by[who] = self.by.get(who, 0) + 1
        self.time[who] = self.time.get(who, 0.0) + t


class Solver:
    def __init__(self, timeout_ms=4000):
        self.s = z3.Solver()
        self.timeout = timeout_ms
        self.levels = []        # (formula, set of atoms with side axioms on this level)
        self.stats = Stats()
        self.zc = {}
        self.zbc = {}
        self.aux_axioms = {}
        self.extra_axioms = []  # callables(solver, atom) -> list of z3 formulas
        self.memo = {}

    # ------------------------------------------------------------ translation
    def zatom(self, a):
        z = self.zc.get(a)
        if z is not None:
            return z
        at = ATOMS[a]
        k = at.kind
        if k == "var":
            z = z3.Int(at.args[0]) if at.sort == "I" else z3.Real(at.args[0])
        elif k == "ite":
            c = self.zb(at.args[0])
            if at.sort == "I":
                z = z3.If(c, self.zi(at.args[1]), self.zi(at.args[2]))
            else:
                z = z3.If(c, self.zr(at.args[1]), self.zr(at.args[2]))
        elif k == "den":
            z = self.zr(at.args[0])
        elif k in ("idiv", "imod"):
            x, y = self.zi(at.args[0]), self.zi(at.args[1])
            z = x / y if k == "idiv" else x % y
        elif k == "floor":
            z = z3.ToInt(self.zr(at.args[0]))
        elif k == "sel":
            f = z3.Function("A!" + at.args[0], z3.IntSort(), z3.IntSort() if at.sort == "I" else z3.RealSort())
            z = f(self.zi(at.args[1]))
        elif k in ("sqrt", "abs"):
            z = z3.Real("%s!%d" % (k, a))
        elif k in ("sum", "fold", "opaque"):
            z = z3.Int("%s!%d" % (k, a)) if at.sort == "I" else z3.Real("%s!%d" % (k, a))
        else:
            args = at.args
            if all(type(x) is Poly or isnum(x) for x in args):
                f = z3.Function("F!%s!%d" % (k, len(args)), *([z3.RealSort()] * (len(args) + 1)))
                z = f(*[self.zr(x) for x in args])
            else:
                z = z3.Real("%s!%d" % (k, a))
        self.zc[a] = z
        return z

    def zinv(self, a):
        k = ("inv", a)
        z = self.zc.get(k)
        if z is None:
            z = z3.Real("inv!%d" % a)
            self.zc[k] = z
        return z

    def zi(self, p):
        if isnum(p):
            assert type(p) is int, p
            return z3.IntVal(p)
        terms = []
        for m, c in p.t.items():
            f = [z3.IntVal(c)] if (c != 1 or not m) else []
            for a, e in m:
                z = self.zatom(a)
                f.extend([z] * e)
            terms.append(f[0] if len(f) == 1 else z3.Product(f) if len(f) > 2 else f[0] * f[1])
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zr(self, p):
        if isnum(p):
            return z3.RealVal(str(p))
        if p._z is not None and p._z[0] is self:
            return p._z[1]
        terms = []
        for m, c in p.t.items():
            f = [z3.RealVal(str(c))] if (c != 1 or not m) else []
            for a, e in m:
                if e < 0:
                    z = self.zinv(a)
                    e = -e
                else:
                    z = self.zatom(a)
                    if z.is_int():
                        z = z3.ToReal(z)
                f.extend([z] * e)
            r = f[0]
            for x in f[1:]:
                r = r * x
            terms.append(r)
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        p._z = (self, r)
        return r

    def zb(self, b):
        if b is True:
            return z3.BoolVal(True)
        if b is False:
            return z3.BoolVal(False)
        r = self.zbc.get(b)
        if r is None:
            if len(self.zbc) > 20000:
                self.zbc.clear()
            r = self.zbc[b] = self.zb_(b)
        return r

    def zb_(self, b):
        k = b[0]
        if k in ("le", "lt", "eq"):
            p = b[1]
            q = p
            if type(q) is Poly and any(type(c) is not int for c in q.t.values()):
                l = 1
                for c in q.t.values():
                    d = Fraction(c).denominator
                    from math import gcd
                    l = l * d // gcd(l, d)
                q = T.scale(q, l)
            if q.is_int():
                x, z = self.zi(q), z3.IntVal(0)
            else:
                x, z = self.zr(q), z3.RealVal(0)
            return x <= z if k == "le" else x < z if k == "lt" else x == z
        if k == "not":
            return z3.Not(self.zb(b[1]))
        if k == "and":
            return z3.And([self.zb(x) for x in b[1]])
        if k == "or":
            return z3.Or([self.zb(x) for x in b[1]])
        raise ValueError(b)

    def axioms(self, a):
        """side axioms for an atom"""
        r = self.aux_axioms.get(a)
        if r is not None:
            return r
        at = ATOMS[a]
        r = []
        z = self.zatom(a)
        if at.kind in ("var", "sel", "opaque", "sum", "fold"):
            if at.lo is not None:
                r.append(z >= (at.lo if at.sort == "I" else z3.RealVal(str(at.lo))))
            if at.hi is not None:
                r.append(z <= (at.hi if at.sort == "I" else z3.RealVal(str(at.hi))))
        elif at.kind == "sqrt":
            p = self.zr(at.args[0])
            r.append(z >= 0)
            r.append(z3.Implies(p >= 0, z * z == p))
        elif at.kind == "abs":
            p = self.zr(at.args[0])
            r.append(z >= 0)
            r.append(z3.If(p >= 0, z == p, z == -p))
        elif at.kind in TRIG:
            s = self.zatom(mk_atom("sin", at.args, "R").id)
            c = self.zatom(mk_atom("cos", at.args, "R").id)
            r.append(s * s + c * c == 1)
            r.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        elif at.kind == "exp":
            r.append(z > 0)
        for f in self.extra_axioms:
            r.extend(f(self, at))
        self.aux_axioms[a] = r
        return r

    def neg_atoms(self, b, acc):
        if b is True or b is False or isnum(b) or isinstance(b, (str, float)) or b is None:
            return
        if type(b) is Poly:
            for m in b.t:
                for a, e in m:
                    if e < 0:
                        acc.add(a)
                    for y in ATOMS[a].args:
                        self.neg_atoms(y, acc)
            return
        if isinstance(b, tuple):
            for y in b:
                self.neg_atoms(y, acc)

    # ------------------------------------------------------------ stack
    def _add(self, b, seen):
        self.s.add(self.zb(b))
        self._side(b, seen)

    def _side(self, b, seen):
        for a in atoms_of(b):
            if a in seen or any(a in l[1] for l in self.levels):
                continue
            seen.add(a)
            for f in self.axioms(a):
                self.s.add(f)
        na = set()
        self.neg_atoms(b, na)
        for a in na:
            k = ("i", a)
            if k in seen or any(k in l[1] for l in self.levels):
                continue
            seen.add(k)
            z = self.zatom(a)
            self.s.add(self.zinv(a) * (z3.ToReal(z) if z.is_int() else z) == 1)

    def sync(self, pc):
        n = 0
        L = self.levels
        while n < len(L) and n < len(pc) and (L[n][0] is pc[n] or L[n][0] == pc[n]):
            n += 1
        while len(L) > n:
            self.s.pop()
            L.pop()
        for b in pc[n:]:
            self.s.push()
            seen = set()
            self._add(b, seen)
            L.append((b, seen))

    def check(self, pc, extra=(), timeout=None, model=False):
        """'sat', 'unsat' or 'unknown' for pc and extra"""
        extra = [e for e in extra if e is not True]
        if any(e is False for e in extra) or any(b is False for b in pc):
            return ("unsat", None) if model else "unsat"
        t0 = time.time()
        key = None
        if not model:
            key = (tuple(id(b) for b in pc), tuple(extra))
            r = self.memo.get(key)
            if r is not None:
                return r[0]
        self.sync(pc)
        self.s.set("timeout", int(timeout or self.timeout))
        self.s.push()
        seen = set()
        self.levels.append((None, seen))
        for e in extra:
            self._add(e, seen)
        r = str(self.s.check())
        m = None
        if model and r == "sat":
            m = self.s.model()
        self.levels.pop()
        self.s.pop()
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.time["z3"] = self.stats.time.get("z3", 0) + dt
        if key is not None and r != "unknown":
            self.memo[key] = (r, list(pc), extra)
        return (r, m) if model else r

    def smt2(self, pc, extra):
        s = z3.Solver()
        sv, lv = self.s, self.levels
        self.s, self.levels = s, []
        seen = set()
        for b in list(pc) + list(extra):
            self._add(b, seen)
        self.s, self.levels = sv, lv
        return s.to_smt2()

    def cvc5(self, pc, extra, tlimit=8000):
        t0 = time.time()
        txt = "(set-logic ALL)\n" + self.smt2(pc, extra)
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % tlimit, f.name], capture_output=True, text=True,
                               timeout=tlimit / 1000 + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            out = "unknown"
        finally:
            os.unlink(f.name)
        self.stats.time["cvc5"] = self.stats.time.get("cvc5", 0) + time.time() - t0
        return out if out in ("sat", "unsat") else "unknown"

    # ------------------------------------------------------------ proving
    def prove(self, pc, goal, timeout=None, model=True):
        """returns (status, backend, model) with status proved / refuted / unknown"""
        t0 = time.time()
        if goal is True:
            self.stats.hit("evaluation")
            return "proved", "evaluation", None
        if goal is False:
            r, m = self.check(pc, (), timeout, model=True)
            if r == "unsat":
                return "proved", "z3", None
            if r == "sat":
                return "refuted", "z3", m
            return "unknown", "z3", None
        if goal[0] == "and":
            who = "normal form"
            for g in goal[1]:
                st, w, m = self.prove(pc, g, timeout, model)
                if st != "proved":
                    return st, w, m
                if w != "normal form":
                    who = w
            return "proved", who, None
        if goal[0] == "eq":
            if is_zero_identically(goal[1]):
                self.stats.hit("normal form", time.time() - t0)
                return "proved", "normal form", None
            r = self.prove_eq_cases(pc, goal[1], 0)
            if r:
                self.stats.hit("normal form", time.time() - t0)
                return "proved", "normal form with case split", None
        ng = bnot(goal)
        r, m = self.check(pc, (ng,), timeout, model=True)
        if r == "unsat":
            self.stats.hit("z3", time.time() - t0)
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", m
        if goal[0] == "eq" and self.groebner(pc, goal[1]):
            self.stats.hit("groebner", time.time() - t0)
            return "proved", "groebner", None
        r = self.cvc5(pc, (ng,))
        if r == "unsat":
            self.stats.hit("cvc5", time.time() - t0)
            return "proved", "cvc5", None
        return "unknown", "z3+cvc5", None

    def find_ite(self, p):
        if isnum(p):
            return None
        for m in p.t:
            for a, _ in m:
                at = ATOMS[a]
                if at.kind == "ite":
                    inner = self.find_ite_in_b(at.args[0])
                    return inner if inner is not None else at.args[0]
                for y in at.args:
                    if type(y) is Poly:
                        c = self.find_ite(y)
                        if c is not None:
                            return c
        return None

    def find_ite_in_b(self, b):
        if b is True or b is False:
            return None
        if b[0] in ("le", "lt", "eq"):
            return self.find_ite(b[1])
        if b[0] == "not":
            return self.find_ite_in_b(b[1])
        for x in b[1]:
            c = self.find_ite_in_b(x)
            if c is not None:
                return c
        return None

    def prove_eq_cases(self, pc, p, depth):
        if is_zero_identically(p):
            return True
        c = self.find_ite(p)
        if c is None or depth > 10:
            if depth == 0:
                return False
            return self.check(pc, (bnot(eq0(p)),), 1500) == "unsat"
        for b in (c, bnot(c)):
            if self.check(pc, (b,), 1500) == "unsat":
                continue
            q = assume_in(p, c, b == c)
            if not self.prove_eq_cases(list(pc) + [b], q, depth + 1):
                return False
        return True

    def groebner(self, pc, p, tlimit=10):
        """p == 0 from the polynomial equations in pc (clearing denominators)"""
        t0 = time.time()
        try:
            import sympy
            num = clear_den(p)
            eqs = []
            for b in flat(pc):
                if b[0] == "eq":
                    e = clear_den(b[1])
                    if not isnum(e):
                        eqs.append(e)
            at = set()
            for q in eqs + [num]:
                for m in q.t:
                    for a, _ in m:
                        at.add(a)
            for a in list(at):
                x = ATOMS[a]
                if x.kind == "sqrt":
                    e = sub(Poly({((a, 2),): 1}), x.args[0])
                    if not isnum(e):
                        eqs.append(e)
            if not eqs or len(at) > 24 or len(eqs) > 12:
                return False
            sy = {a: sympy.Symbol("x%d" % a) for a in at}

            def cv(q):
                return sum(sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) *
                           sympy.Mul(*[sy[a] ** e for a, e in m]) for m, c in q.t.items())
            import signal

            def onalarm(*_):
                raise TimeoutError
            old = signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(tlimit)
            try:
                gens = [sy[a] for a in sorted(at)]
                G = sympy.groebner([cv(e) for e in eqs], *gens, order="grevlex")
                r = G.contains(cv(num))
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            return bool(r)
        except Exception:
            return False
        finally:
            self.stats.time["groebner"] = self.stats.time.get("groebner", 0) + time.time() - t0


def flat(pc):
    for b in pc:
        if b is True or b is False:
            continue
        if b[0] == "and":
            yield from flat(b[1])
        else:
            yield b


def assume_in(p, c, val):
    """p with the ite atoms on condition c resolved"""
    mp = {}
    for a in atoms_of(p):
        at = ATOMS[a]
        if at.kind == "ite":
            if at.args[0] == c:
                mp[a] = at.args[1] if val else at.args[2]
            elif at.args[0] == bnot(c):
                mp[a] = at.args[2] if val else at.args[1]
    q = T.subst(p, mp)
    return q


def model_value(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
