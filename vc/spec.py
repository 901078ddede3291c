"""Specification vocabulary: works on symbolic values (proof) and on plain
numbers (replay and cross-check on the real code).  No z3 import needed for
the concrete side."""
import builtins
import math
from fractions import Fraction

AMBIG = [False]


def sym(v):
    return hasattr(v, "z")


def _en():
    from . import engine
    return engine


def ex(v):
    """exact value of a number used by the specification"""
    if sym(v) or isinstance(v, (bool, Fraction)):
        return v
    if type(v).__module__ == "numpy" and hasattr(v, "item"):
        v = v.item()
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return v
        f = Fraction(v)
        g = f.limit_denominator(10 ** 7)
        if abs(g - f) <= abs(f) / 2 ** 50:
            return g
        return Fraction(repr(v))
    return v


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    acc = True
    for x in xs:
        if sym(x):
            acc = x if acc is True else (acc & x)
            if acc is False:
                return False
        elif not x:
            return False
    return acc


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    acc = False
    for x in xs:
        if sym(x):
            acc = x if acc is False else (acc | x)
            if acc is True:
                return True
        elif x:
            return True
    return acc


def Not(x):
    return ~x if sym(x) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if sym(a):
        return a == b
    if sym(b):
        return b == a
    return bool(a) == bool(b)


def If(c, a, b):
    if not sym(c):
        return a if c else b
    if a is b:
        return a
    from . import rt
    if rt._mergeable(rt.norm(num(a))) and rt._mergeable(rt.norm(num(b))):
        return rt.ite(c, num(a), num(b))
    if rt.is_bool(a) and rt.is_bool(b):
        return rt.ite(c, a, b)
    return a if builtins.bool(c) else b  # forks


def num(v):
    """Fractions -> something the symbolic side can hold"""
    if isinstance(v, Fraction):
        en = _en()
        import z3
        return en.SymNum(z3.Q(v.numerator, v.denominator))
    return v


def _S(a, b):
    return sym(a) or sym(b)


def Max(a, *r):
    for b in r:
        c = (b > a)
        a = If(c, b, a)
    return a


def Min(a, *r):
    for b in r:
        c = (b < a)
        a = If(c, b, a)
    return a


def floor(x, exact=False):
    if sym(x):
        return _en().sym_floor(x)
    x = ex(x)
    if isinstance(x, float):
        return x
    if not exact and not isinstance(x, int):
        near = abs(x - round(x))
        if near < Fraction(1, 10 ** 7) * max(1, abs(x) / 10 ** 4):
            AMBIG[0] = True
    return math.floor(x)


def ceil(x, exact=False):
    return -floor(-ex(x), exact)


def div(a, b):
    if sym(a) or sym(b):
        return a / b
    a, b = ex(a), ex(b)
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    return Fraction(a) / Fraction(b)


def eq(a, b, tol=1e-9):
    """truth value (maybe symbolic) of numeric/structural equality"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return And([eq(x, y, tol) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return And([eq(a[k], b[k], tol) for k in a])
    if sym(a) or sym(b):
        if a is None or b is None:
            return False
        if isinstance(a, Fraction):
            a = num(a)
        if isinstance(b, Fraction):
            b = num(b)
        return (a == b) if sym(a) else (b == a)
    if a is None or b is None:
        return a is b
    if type(a).__module__ == "numpy" and hasattr(a, "item"):
        a = a.item()
    if type(b).__module__ == "numpy" and hasattr(b, "item"):
        b = b.item()
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
            return isinstance(b, float) and (a == b or (math.isnan(a) and math.isnan(b)))
        if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
            return False
        d = abs(ex(a) - ex(b))
        return d <= ex(tol) * max(1, abs(ex(a)), abs(ex(b)))
    return a == b
