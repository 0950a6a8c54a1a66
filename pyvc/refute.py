"""confirmation of counterexamples

The solver sees finite sums, logarithms and the quantified facts only through laws, so its models may be spurious. A
failed obligation is reported as refuted only if some assignment of small sizes and concrete numbers, evaluated with the
sums written out and the real logarithm, exponential and root, makes every fact of the path true and the obligation
false by a clear margin. Everything else is undecided."""
import itertools
import math
import random
import time
from fractions import Fraction
import z3
from .num import LOG, EXP, SQRT, PI

GAP = 1e-5
TOL = 1e-7


class Reject(Exception):
    pass


def apps_of(fs):
    out, seen, todo = [], set(), list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        out.append(e)
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return out


def is_app_of(e, sums):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in sums


def confirm(V, goal, budget=6.0, seeds=4):
    """text of a concrete counterexample to goal under V's facts, or None"""
    end = time.time() + budget
    facts = list(V.facts)
    qs = [(list(q.vars), q.fact) for q in V.qfacts]
    sums = V.sums
    names = V.havoc
    base = facts + [z3.Not(goal)]
    pool = apps_of(base + [f for _, f in qs])
    for e in apps_of(base):
        if z3.is_app(e) and e.decl().name() in names:
            return None          # a loop without closed form is part of the reason
    whole = {}
    for e in pool:
        if z3.is_app(e) and e.decl().name() in V.opaque:
            whole.setdefault(V.opaque[e.decl().name()], set()).add(e.decl().name())
    if any(len(s) > 1 for s in whole.values()):
        return None              # the same function of two arrays that may be the same
    # constants that bound a sum or a quantifier: made small
    todo, seen, sizes = list(pool), set(), {}
    while todo:
        e = todo.pop()
        if is_app_of(e, sums):
            name = e.decl().name()
            ps, t, body = sums[name][1], sums[name][2], sums[name][3]
            last = e.children()[-1]
            for x in apps_of([last]):
                if z3.is_int(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith("$"):
                    sizes[x.get_id()] = x
            if name not in seen:
                seen.add(name)
                todo += apps_of([body])
    qvars = {v.get_id() for vs, _ in qs for v in vs}
    sizes = [x for i, x in sizes.items() if i not in qvars]
    rnd = random.Random(7)
    combos = [[2] * len(sizes), [1] * len(sizes), [3] * len(sizes)]
    if 1 < len(sizes) <= 4:
        combos += [list(c) for c in itertools.product((0, 1, 2), repeat=len(sizes)) if list(c) not in combos]
    elif sizes:
        combos += [[rnd.choice((0, 1, 2)) for _ in sizes] for _ in range(12)]
    rnd.shuffle(combos[3:])
    if not sizes:
        combos = [[]]
    for c in combos:
        if time.time() > end:
            break
        try:
            r = attempt(V, base, qs, list(zip(sizes, c)), end, rnd, seeds)
        except (Reject, z3.Z3Exception):
            r = None
        if r:
            return r
    return None


def expand(e, sums, memo, sub=(), depth=0):
    """write out the sums whose bound is a numeral"""
    if depth > 60:
        raise Reject
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
        r = e
    elif is_app_of(e, sums):
        kind, ps, t, body, d = sums[e.decl().name()]
        ch = [z3.simplify(expand(x, sums, memo, sub, depth + 1)) for x in e.children()]
        n = ch[-1]
        if not z3.is_int_value(n):
            raise Reject
        n = n.as_long()
        if n > 12:
            raise Reject
        terms = []
        for i in range(max(n, 0)):
            b = z3.simplify(z3.substitute(body, *([(p, x) for p, x in zip(ps, ch[:-1])] + [(t, z3.IntVal(i))])))
            if sub:
                b = z3.simplify(z3.substitute(b, *sub))
            terms.append(expand(b, sums, memo, sub, depth + 1))
        if kind == "S":
            r = z3.Sum(terms) if terms else (z3.RealVal(0) if e.is_real() else z3.IntVal(0))
        else:
            r = z3.Or(terms) if terms else z3.BoolVal(False)
    else:
        ch = e.children()
        nc = [expand(x, sums, memo, sub, depth + 1) for x in ch]
        r = e.decl()(*nc) if any(not z3.eq(a, b) for a, b in zip(ch, nc)) else e
    memo[k] = (e, r)
    return r


def gap(e, neg):
    """e (negated if neg) with real equalities that must fail by a margin"""
    if z3.is_not(e):
        return gap(e.children()[0], not neg)
    if z3.is_and(e) or z3.is_or(e):
        f = z3.And if z3.is_and(e) != neg else z3.Or
        return f(*[gap(c, neg) for c in e.children()])
    if z3.is_implies(e):
        a, b = e.children()
        return z3.And(gap(a, False), gap(b, True)) if neg else z3.Or(gap(a, True), gap(b, False))
    if neg and z3.is_eq(e) and e.children()[0].sort() == z3.RealSort():
        a, b = e.children()
        g = z3.Q(1, 1000)
        return z3.Or(a - b > g, b - a > g)
    return z3.Not(e) if neg else e


def attempt(V, base, qs, fix, end, rnd, seeds):
    memo = {}
    sub = [(x, z3.IntVal(v)) for x, v in fix]

    def close(f):
        f = z3.substitute(f, *sub) if sub else f
        return z3.simplify(expand(z3.simplify(f), V.sums, memo, sub))
    fs = [close(f) for f in base[:-1]]
    ng = gap(close(base[-1]), False)
    if any(z3.is_false(f) for f in fs) or z3.is_false(ng):
        return None
    inst = []
    for vs, f in qs:
        if len(vs) > 3:
            raise Reject
        f = z3.substitute(f, *sub) if sub else f
        rng = range(-1, 5) if len(vs) < 3 else range(0, 3)
        for c in itertools.product(rng, repeat=len(vs)):
            g = z3.simplify(z3.substitute(f, *[(v, z3.IntVal(x)) for v, x in zip(vs, c)]))
            if z3.is_true(g):
                continue
            try:
                g = z3.simplify(expand(g, V.sums, memo, sub))
            except Reject:
                continue
            if not z3.is_true(g):
                inst.append(g)
    s = z3.Solver()
    s.set("timeout", 2500)
    s.add(*fs, ng, *inst)
    ints = [e for e in apps_of(fs + [ng]) if z3.is_int(e) and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    small = [z3.And(x >= -6, x <= 6) for x in ints]
    s.push()
    s.add(*small)
    # laws of the transcendental functions, so that models are not far off
    apps = {}
    for e in apps_of(fs + inst + [ng]):
        if z3.is_app(e) and e.decl().name() in ("log", "exp", "sqrt"):
            apps.setdefault(e.decl().name(), []).append(e)
    s.add(*V.theory(apps, set()))
    trans = [e for l in apps.values() for e in l]
    reals = [e for e in apps_of(fs + inst + [ng]) if z3.is_app(e) and z3.is_arith(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.is_real()
             and e.decl().name() not in ("log", "exp", "sqrt", "pi")] if True else []
    for k in range(seeds):
        if time.time() > end:
            return None
        s.push()
        try:
            if k:
                # other models: pin numbers at random as far as that is consistent
                for e in rnd.sample(reals, min(len(reals), 25)):
                    s.push()
                    s.add(e == z3.RealVal(Fraction(rnd.randint(-12, 20), rnd.choice((2, 4, 5)))))
                    if time.time() > end or s.check() != z3.sat:
                        s.pop()
            r = s.check()
            if r != z3.sat:
                if r == z3.unsat and k == 0:
                    return None
                continue
            for _ in range(3):
                m = s.model()
                try:
                    if judge(m, fs + inst, ng):
                        return describe(m, fix)
                except Reject:
                    pass
                if not trans:
                    break
                # pin the arguments of the transcendental functions and give them their true values
                s.push()
                for e in trans:
                    a = m.eval(e.children()[0], model_completion=True)
                    try:
                        x = number(a)
                        y = trans_value(e.decl().name(), x)
                    except Reject:
                        continue
                    s.add(e.children()[0] == a, e == z3.RealVal(Fraction(y).limit_denominator(10 ** 9)))
                if s.check() != z3.sat:
                    break
        finally:
            while s.num_scopes() > 1:
                s.pop()
    return None


def trans_value(name, x):
    try:
        if name == "log":
            if x <= 0:
                raise Reject
            return math.log(x)
        if name == "exp":
            return math.exp(x)
        if x < 0:
            raise Reject
        return math.sqrt(x)
    except OverflowError:
        raise Reject


def number(a):
    if z3.is_int_value(a):
        return a.as_long()
    if z3.is_rational_value(a):
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_algebraic_value(a):
        b = a.approx(12)
        return Fraction(b.numerator_as_long(), b.denominator_as_long())
    raise Reject


def judge(m, facts, ng):
    ev = Eval(m)
    for f in facts:
        if not ev.truth(f, TOL):
            return False
    return ev.truth(ng, -GAP)


class Eval:
    def __init__(self, m):
        self.m, self.memo = m, {}

    def truth(self, e, tol):
        """tol > 0: comparisons may be off by tol; tol < 0: they must hold by that margin"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_NOT:
            return not self.truth(ch[0], -tol)
        if k == z3.Z3_OP_AND:
            return all(self.truth(c, tol) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.truth(c, tol) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return not self.truth(ch[0], -tol) or self.truth(ch[1], tol)
        if k == z3.Z3_OP_ITE:
            return self.truth(ch[1] if self.truth(ch[0], 0) else ch[2], tol)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
            return self.truth(ch[0], 0) == self.truth(ch[1], 0)
        if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
            a, b = self.val(ch[0]), self.val(ch[1])
            if ch[0].is_int():
                return a == b
            return abs(a - b) <= max(tol, 1e-9 if tol == 0 else 0) * (1 + abs(a) + abs(b)) if tol >= 0 else abs(a - b) <= 1e-9
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.val(ch[0]), self.val(ch[1])
            if ch[0].is_int():
                return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            d = b - a          # must be >= 0
            if isinstance(d, Fraction) and tol >= 0:
                return d >= 0 if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else d > 0
            return d >= -tol * (1 + abs(a) + abs(b)) if tol else d >= 0
        if k == z3.Z3_OP_DISTINCT:
            vs = [self.val(c) for c in ch]
            return len(set(vs)) == len(vs)
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return z3.is_true(self.m.eval(e, model_completion=True))
            return z3.is_true(self.m.eval(e.decl()(*[self.lift(c) for c in ch]), model_completion=True))
        raise Reject

    def lift(self, c):
        if z3.is_bool(c):
            return z3.BoolVal(self.truth(c, 0))
        v = self.val(c)
        if c.is_int():
            return z3.IntVal(int(v))
        return z3.RealVal(Fraction(v))

    def val(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._val(e)
        if isinstance(r, float) and (r != r or abs(r) == math.inf):
            raise Reject
        self.memo[k] = (e, r)
        return r

    def _val(self, e):
        if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_algebraic_value(e):
            return number(e)
        k = e.decl().kind()
        ch = e.children()
        try:
            if k == z3.Z3_OP_ADD:
                r = 0
                for c in ch:
                    r = r + self.val(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = self.val(ch[0])
                for c in ch[1:]:
                    r = r - self.val(c)
                return r
            if k == z3.Z3_OP_MUL:
                r = 1
                for c in ch:
                    r = r * self.val(c)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -self.val(ch[0])
            if k == z3.Z3_OP_DIV:
                a, b = self.val(ch[0]), self.val(ch[1])
                if b == 0:
                    raise Reject
                return Fraction(a) / Fraction(b) if not isinstance(a, float) and not isinstance(b, float) else a / b
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                a, b = self.val(ch[0]), self.val(ch[1])
                if b == 0:
                    raise Reject
                q = a // b if b > 0 else -(a // -b)
                return q if k == z3.Z3_OP_IDIV else a - b * q
            if k == z3.Z3_OP_POWER:
                a, b = self.val(ch[0]), self.val(ch[1])
                if isinstance(b, Fraction) and b.denominator == 1:
                    b = int(b)
                if a == 0 and b < 0:
                    raise Reject
                return a ** b
            if k == z3.Z3_OP_TO_REAL:
                return self.val(ch[0])
            if k == z3.Z3_OP_TO_INT:
                return math.floor(self.val(ch[0]))
            if k == z3.Z3_OP_ITE:
                return self.val(ch[1] if self.truth(ch[0], 0) else ch[2])
        except OverflowError:
            raise Reject
        if k == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n in ("log", "exp", "sqrt") and e.num_args() == 1:
                return trans_value(n, self.val(ch[0]))
            if n == "pi" and e.num_args() == 0:
                return math.pi
            t = e if not ch else e.decl()(*[self.lift(c) for c in ch])
            return number(self.m.eval(t, model_completion=True))
        raise Reject


def describe(m, fix):
    out = [f"{x} = {v}" for x, v in fix]
    for d in m.decls()[:40]:
        if d.arity() == 0 and d.name() not in ("pi",):
            out.append(f"{d.name()} = {m[d]}")
        elif d.name() not in ("log", "exp", "sqrt"):
            out.append(f"{d.name()} = {str(m[d])[:120]}")
    return ", ".join(out)[:1800]
