"""Numerical evaluation of terms and directed search for counterexamples at random points."""
import math, hashlib
from fractions import Fraction
from .terms import *
from . import terms as T


class NoValue(Exception):
    pass


def ufval(name, args):
    """the function native replays use for an uninterpreted function (see vc.h: vc_uf)"""
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 1000003
    r = (h % 97) / 97.0 + 0.5
    for k, x in enumerate(args):
        c = ((h // (7 + k)) % 89) / 89.0 + 0.3
        r += c * x + (0.11 + 0.05 * k) * x * x
    return r


def evalf(x, env, cache=None):
    if cache is None:
        cache = {}
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is bool:
        return x
    if t is float:
        return x
    if t is Poly:
        r = 0
        for m, c in x.t.items():
            v = c
            for a, e in m:
                w = evala(a, env, cache)
                if e < 0:
                    if w == 0:
                        raise NoValue
                    v = v * (Fraction(1) / w if type(w) is not float else 1.0 / w) ** (-e)
                else:
                    v = v * w ** e
            r = r + v
        return r
    k = x[0]
    if k == "le":
        return evalf(x[1], env, cache) <= 0
    if k == "lt":
        return evalf(x[1], env, cache) < 0
    if k == "eq":
        v = evalf(x[1], env, cache)
        return abs(v) < 1e-9 if type(v) is float else v == 0
    if k == "not":
        return not evalf(x[1], env, cache)
    if k == "and":
        return all(evalf(y, env, cache) for y in x[1])
    if k == "or":
        return any(evalf(y, env, cache) for y in x[1])
    raise NoValue


def evala(a, env, cache):
    v = env.get(a)
    if v is not None:
        return v
    v = cache.get(a)
    if v is not None:
        return v
    at = ATOMS[a]
    k = at.kind
    if k == "var":
        raise NoValue
    if k == "ite":
        v = evalf(at.args[1] if evalf(at.args[0], env, cache) else at.args[2], env, cache)
    elif k == "den":
        v = evalf(at.args[0], env, cache)
    elif k == "sqrt":
        w = evalf(at.args[0], env, cache)
        if w < 0:
            raise NoValue
        v = math.sqrt(w)
    elif k == "abs":
        v = abs(evalf(at.args[0], env, cache))
    elif k == "floor":
        v = math.floor(evalf(at.args[0], env, cache))
    elif k in ("idiv", "imod"):
        x, y = evalf(at.args[0], env, cache), evalf(at.args[1], env, cache)
        if y == 0:
            raise NoValue
        v = x // y if k == "idiv" else x % y
    elif k in EVALK:
        v = EVALK[k](at, env, cache)
    elif k in ("opaque",):
        raise NoValue
    else:
        args = [float(evalf(y, env, cache)) for y in at.args]
        try:
            if k in ("sin", "cos", "exp", "log", "atan", "asin", "acos", "atan2", "tanh", "sinh", "cosh"):
                v = getattr(math, k)(*args)
            elif k == "pow":
                v = math.pow(*args)
            elif k.startswith("uf:"):
                v = ufval(k[3:], args)
            else:
                raise NoValue
        except (ValueError, OverflowError):
            raise NoValue
    cache[a] = v
    return v


EVALK = {}


def free_atoms(xs):
    acc = set()
    for x in xs:
        atoms_of(x, acc)
    return [a for a in acc if ATOMS[a].kind == "var"]


def eqs_subst(pc):
    """orient simple equalities x = t of the path condition, so that random points can satisfy them"""
    sub_ = []
    for b in pc:
        if b is True or b is False or b[0] != "eq":
            continue
        p = b[1]
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "var" and abs(c) == 1:
                a = m[0][0]
                rest = sub(p, Poly({m: c}))
                if a in atoms_of(rest):
                    continue
                sub_.append((a, T.scale(rest, Fraction(-1) / c) if c not in (1, -1) else (neg(rest) if c == 1 else rest)))
                break
    return sub_


def random_cex(pc, goal, rng, tries, extra=()):
    """an environment satisfying pc and violating goal (False: any point satisfying pc), or None"""
    gl = [] if goal is False or goal is True else [goal]
    vs = free_atoms(list(pc) + gl + [e for e in extra if type(e) is Poly or type(e) is tuple])
    if len(vs) > 3000:
        return None
    vs.sort()
    eqs = eqs_subst(pc)
    for k in range(tries):
        env = {}
        small = k % 3 != 2
        for a in vs:
            at = ATOMS[a]
            lo, hi = at.lo, at.hi
            if at.sort == "I":
                l = lo if lo is not None else (hi - 8 if hi is not None else -3)
                h = hi if hi is not None else l + 9
                h = min(h, l + 40)
                env[a] = rng.randint(l, h)
            else:
                if lo is not None and hi is not None:
                    env[a] = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(0, 64), 64)
                elif lo is not None:
                    env[a] = Fraction(lo) + Fraction(rng.randint(0, 80), 16)
                elif hi is not None:
                    env[a] = Fraction(hi) - Fraction(rng.randint(0, 80), 16)
                elif small:
                    env[a] = Fraction(rng.randint(-24, 24), 8)
                else:
                    env[a] = Fraction(rng.randint(1, 640), 128)
        try:
            for a, t in eqs:
                env[a] = evalf(t, env)
            cache = {}
            ok = True
            for b in pc:
                if not evalf(b, env, cache):
                    ok = False
                    break
            if not ok:
                continue
            if goal is False:
                return env
            if violates(goal, env, cache):
                return env
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
    return None


def violates(goal, env, cache):
    """goal clearly false at env (with a margin when floating point is involved)"""
    k = goal[0]
    if k in ("eq", "le", "lt"):
        p = goal[1]
        v = evalf(p, env, cache)
        s = 1.0
        if type(p) is Poly:
            for m, c in p.t.items():
                w = abs(c)
                for a, e in m:
                    x = abs(evala(a, env, cache))
                    w = w * (x ** e if e > 0 else 1.0 / x ** (-e) if x else 0)
                s += float(w)
        tol = 1e-7 * s
        if k == "eq":
            return abs(v) > (tol if type(v) is float else max(0, tol))
        return v > tol
    if k == "not":
        g = goal[1]
        if g[0] == "eq":
            v = evalf(g[1], env, cache)
            return v == 0 if type(v) is not float else False
        return False if any_float(goal, env, cache) else not evalf(goal, env, cache)
    if k == "and":
        return any(violates(g, env, cache) for g in goal[1])
    if k == "or":
        return all(violates(g, env, cache) for g in goal[1])
    return False


def any_float(b, env, cache):
    for a in atoms_of(b):
        try:
            if type(evala(a, env, cache)) is float:
                return True
        except NoValue:
            return True
    return False
