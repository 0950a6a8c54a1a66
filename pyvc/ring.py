"""equalities of real terms: Laurent polynomials over atoms, with log/exp/sqrt laws, case splits on ite,
congruence of uninterpreted terms and pointwise comparison of finite sums.  Side conditions (positivity, non-zero
denominators, index equalities) are discharged by the solver under the current path's facts."""
from fractions import Fraction
import z3
from . import num
from .num import LOG, EXP, SQRT

LIMIT = 4000


class Give(Exception):
    pass


def primes(n):
    out, p = {}, 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Ring:
    """one equality problem; `holds(c)` asks the solver whether c follows from the facts"""

    def __init__(self, holds, sums, posfuns=()):
        self.holds, self.sums, self.posfuns = holds, sums, posfuns
        self.atoms, self.key, self.memo = [], {}, {}
        self.poscache = {}

    # atoms: ("t", z3 term) ordinary; ("p", prime); ("e", mono) exp of a monomial; ("d", poly) denominator; ("l", poly) log
    def atom(self, kind, x, k=None):
        k = (kind, k if k is not None else (x.get_id() if z3.is_expr(x) else x))
        if k not in self.key:
            self.key[k] = len(self.atoms)
            self.atoms.append((kind, x))
        return self.key[k]

    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted((a, e) for a, e in d.items() if e))

    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > LIMIT:
            raise Give
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = c1 * c2
                if any(self.atoms[x][0] == "p" for x, _ in m):   # integral powers of primes fold into the coefficient
                    keep = []
                    for x, e in m:
                        if self.atoms[x][0] == "p":
                            f = e.numerator // e.denominator if isinstance(e, Fraction) else e
                            c *= Fraction(self.atoms[x][1]) ** f
                            e = e - f
                            if not e:
                                continue
                        keep.append((x, e))
                    m = tuple(keep)
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def const(self, c):
        c = Fraction(c)
        return {(): c} if c else {}

    def pkey(self, p):
        return tuple(sorted(p.items()))

    def ppow(self, p, e):
        """p to an integer power"""
        if e == 0:
            return self.const(1)
        if e < 0:
            if len(p) == 1:
                (m, c), = p.items()
                q = {tuple((a, -x) for a, x in m): 1 / c}
            else:
                if not p:
                    raise Give
                lead = min(p.items())[1]
                q0 = {m: c / lead for m, c in p.items()}
                q = {((self.atom("d", q0, self.pkey(q0)), -1),): 1 / lead}
            return self.ppow(q, -e)
        r = p
        for _ in range(e - 1):
            r = self.pmul(r, p)
        return r

    def positive(self, ai):
        if ai not in self.poscache:
            kind, x = self.atoms[ai]
            if kind in ("p", "e"):
                r = True
            elif kind == "l":
                r = self.holds(self.term({((ai, 1),): Fraction(1)}) > 0)
            elif kind == "d":
                r = self.holds(self.term(x) > 0)
            else:
                r = z3.is_app(x) and x.decl().name() in self.posfuns or self.holds(num.real(x) > 0)
            self.poscache[ai] = r
        return self.poscache[ai]

    def poly(self, t):
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = (t, self._poly(t))
        return self.memo[k][1]

    def _poly(self, t):
        if z3.is_int_value(t):
            return self.const(t.as_long())
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.padd(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.padd({}, self.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.pmul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.pmul(self.poly(ch[0]), self.ppow(self.poly(ch[1]), -1))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            return self.ppow(self.poly(ch[0]), ch[1].as_long())
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if k == z3.Z3_OP_ITE:
            c = ch[0]
            if self.holds(c):
                return self.poly(ch[1])
            if self.holds(z3.Not(c)):
                return self.poly(ch[2])
            raise Split(c)
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n == "log":
                return self.log(self.poly(ch[0]), t)
            if n == "exp":
                m = ()
                c0 = Fraction(1)
                p = self.poly(ch[0])
                for mono, c in p.items():
                    m = self.mmul(m, ((self.atom("e", mono, mono), c),))
                return {m: c0}
            if n == "sqrt":
                return self.sqrt(self.poly(ch[0]), t)
            if any(c.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(c.arg(0)) for c in ch if z3.is_app(c)):
                t = t.decl()(*[z3.simplify(c) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_TO_REAL else c for c in ch])
        return {((self.atom("t", t), 1),): Fraction(1)}

    def log(self, p, t):
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.positive(a) for a, _ in m):
                r = {}
                for q, e in primes(c.numerator).items():
                    r = self.padd(r, {((self.atom("t", LOG(z3.RealVal(q))), 1),): Fraction(e)})
                for q, e in primes(c.denominator).items():
                    r = self.padd(r, {((self.atom("t", LOG(z3.RealVal(q))), 1),): Fraction(-e)})
                for a, e in m:
                    kind, x = self.atoms[a]
                    if kind == "e":
                        r = self.padd(r, {x: Fraction(e)})
                    elif kind == "p":
                        r = self.padd(r, {((self.atom("t", LOG(z3.RealVal(x))), 1),): Fraction(e)})
                    elif kind == "t":
                        r = self.padd(r, {((self.atom("t", LOG(num.real(x))), 1),): Fraction(e)})
                    else:
                        q = x if kind == "d" else None
                        if q is None:
                            raise Give
                        r = self.padd(r, {((self.atom("l", q, self.pkey(q)), 1),): Fraction(e)})
                return r
            return {((self.atom("l", p, self.pkey(p)), 1),): Fraction(1)}
        if not p:
            return {((self.atom("t", t), 1),): Fraction(1)}
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d and min(e, d[a]) > 0}
        common = tuple(sorted((a, e) for a, e in common.items() if e > 0)) if common else ()
        if common and all(self.positive(a) for a, _ in common):
            inv = tuple((a, -e) for a, e in common)
            q = {self.mmul(m, inv): c for m, c in p.items()}
            if self.holds(self.term(q) > 0):
                return self.padd(self.log({common: Fraction(1)}, t), self.log(q, t))
        lead = min(p.items())[1]
        if lead != 1 and lead > 0:
            q0 = {m: c / lead for m, c in p.items()}
            r = self.log(self.const(lead), t)
            return self.padd(r, {((self.atom("l", q0, self.pkey(q0)), 1),): Fraction(1)}) if self.holds(self.term(q0) > 0) else \
                {((self.atom("l", p, self.pkey(p)), 1),): Fraction(1)}
        return {((self.atom("l", p, self.pkey(p)), 1),): Fraction(1)}

    def sqrt(self, p, t):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.positive(a) for a, _ in m):
                r = self.const(1)
                mm = tuple((a, Fraction(e) / 2) for a, e in m)
                for sgn, v in ((1, c.numerator), (-1, c.denominator)):
                    for q, e in primes(v).items():
                        mm = self.mmul(mm, ((self.atom("p", q), Fraction(e * sgn, 2)),))
                return self.pmul({mm: Fraction(1)}, r)
        return {((self.atom("t", t), 1),): Fraction(1)}

    # back to z3
    def term(self, p):
        out = z3.RealVal(0)
        for m, c in p.items():
            t = z3.RealVal(c)
            for a, e in m:
                kind, x = self.atoms[a]
                if kind == "t":
                    b = num.real(x)
                elif kind == "p":
                    b = z3.RealVal(x)
                elif kind == "e":
                    b = EXP(self.term({x: Fraction(1)}))
                elif kind == "d":
                    b = self.term(x)
                else:
                    b = LOG(self.term(x))
                e = Fraction(e)
                if e.denominator == 2:
                    b, e = SQRT(b), e * 2
                elif e.denominator != 1:
                    raise Give
                for _ in range(abs(int(e))):
                    t = t * b if e > 0 else t / b
            out = out + t
        return z3.simplify(out)

    def clear(self, p):
        """multiply by denominators and expand them"""
        for _ in range(8):
            ds = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == "d" and e < 0:
                        ds[a] = min(ds.get(a, 0), e)
            if not ds:
                break
            a, e = min(ds.items(), key=lambda x: -x[0])
            d = self.atoms[a][1]
            if not self.holds(self.term(d) != 0):
                break
            r = {}
            for m, c in p.items():
                k = dict(m).get(a, 0) - e
                rest = tuple((x, y) for x, y in m if x != a)
                if Fraction(k).denominator != 1:
                    raise Give
                r = self.padd(r, self.pmul({rest: c}, self.ppow(d, int(k))))
            p = r
        return p


class Split(Exception):
    def __init__(self, c):
        self.c = c
