"""arithmetic on scalar values: Python ints, Fractions (floats read as exact reals), +-inf, z3 terms"""
from fractions import Fraction
import math
import z3
from .values import Unsupported, is_z3

INF = float("inf")
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
PI = z3.Real("pi")


def norm(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float) and not (math.isinf(x) or math.isnan(x)):
        return Fraction(repr(x))
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def is_inf(x):
    return isinstance(x, float)


def to_z3(x):
    if is_z3(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported(f"no finite number: {x!r}")


def real(x):
    x = to_z3(norm(x))
    return z3.ToReal(x) if x.is_int() else x


def is_const(x):
    return isinstance(x, (int, Fraction, float))


def conc(x):
    """z3 numeral -> python"""
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def _lin(e):
    """light cleanup of linear integer/real terms (keeps ite structure)"""
    return conc(z3.simplify(e)) if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and small(e) else e


def small(e, lim=40):
    todo, n = [e], 0
    while todo:
        x = todo.pop()
        n += 1
        if n > lim:
            return False
        if x.decl().kind() == z3.Z3_OP_ITE or not z3.is_arith(x):
            return False
        todo.extend(x.children())
    return True


def add(a, b):
    a, b = norm(a), norm(b)
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return a + b
        return a if is_inf(a) else b
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a) and a == 0 and not isinstance(a, Fraction):
        return b
    if is_const(b) and b == 0 and not isinstance(b, Fraction):
        return a
    if is_const(a) and a == 0 and b.is_real():
        return b
    if is_const(b) and b == 0 and a.is_real():
        return a
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return _lin(a + b)


def neg(a):
    a = norm(a)
    return -a if is_const(a) else _lin(0 - a)


def sub(a, b):
    a, b = norm(a), norm(b)
    if is_inf(b):
        return add(a, -b)
    if is_const(a) and is_const(b):
        return a - b
    if is_inf(a):
        return a
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return _lin(a - b)


def mul(a, b):
    a, b = norm(a), norm(b)
    if is_const(a) and is_const(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if is_inf(x):
            raise Unsupported("infinite factor")
        if is_const(x) and x == 1 and not isinstance(x, Fraction):
            return y
        if is_const(x) and x == 0:
            return 0 if (not isinstance(x, Fraction) and y.is_int()) else Fraction(0)
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a * b


def power(a, n):
    a = norm(a)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, Fraction) and n == Fraction(1, 2):
        return SQRT(real(a))
    if not isinstance(n, int):
        raise Unsupported("power with a symbolic exponent")
    if is_const(a):
        if n < 0:
            return Fraction(a) ** n
        return a ** n
    if n == 0:
        return 1
    r = a
    for _ in range(abs(n) - 1):
        r = r * a
    return r if n > 0 else z3.RealVal(1) / real(r)


def rdiv(a, b):
    """true division; the caller has dealt with b == 0"""
    a, b = norm(a), norm(b)
    if is_inf(b):
        return Fraction(0)
    if is_inf(a):
        if is_const(b):
            return a if b > 0 else -a
        raise Unsupported("infinity divided by a symbolic number")
    if is_const(a) and is_const(b):
        return Fraction(a) / b
    return real(a) / real(b)


def ite(c, a, b):
    if z3.is_expr(c) and z3.is_not(c):
        return ite(c.children()[0], b, a)
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, boolz(a), boolz(b))
    a, b = norm(a), norm(b)
    if is_const(a) and is_const(b) and type(a) is type(b) and a == b:
        return a
    if is_z3(a) and is_z3(b) and z3.eq(a, b):
        return a
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return z3.If(c, a, b)


def boolz(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    raise Unsupported(f"not a boolean: {x!r}")


def cmp(op, a, b):
    a, b = norm(a), norm(b)
    if is_const(a) and is_const(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_inf(a) or is_inf(b):
        if is_inf(a):
            if a != a:
                return op == "!="
            s = 1 if a > 0 else -1
        else:
            if b != b:
                return op == "!="
            s = -1 if b > 0 else 1
        return {"<": s < 0, "<=": s < 0, ">": s > 0, ">=": s > 0, "==": False, "!=": True}[op]
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
         "==": lambda: a == b, "!=": lambda: a != b}[op]()
    return r


def absv(a):
    a = norm(a)
    return abs(a) if is_const(a) else z3.If(a >= 0, a, -a)


def land(*cs):
    out = []
    for c in cs:
        if c is True or c is None:
            continue
        if c is False:
            return False
        if z3.is_true(c):
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if z3.is_false(c):
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)
