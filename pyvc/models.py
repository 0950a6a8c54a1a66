"""contracts (models) of the language's built-ins and of the libraries the repository uses"""
import ast
import os
from fractions import Fraction
import z3
from . import num
from .engine import *
from .interp import *
from .loops import arrvar
from .num import land, lor, lnot, to_z3, real, INF, LOG, EXP, SQRT, PI
from .values import *

NAN = float("nan")
NULLCTX = PyClass("nullcontext", (OBJECT,), {}, native="nullcontext")
KDTREE = PyClass("KDTree", (OBJECT,), {}, native="kdtree")
POLY = PyClass("Polygon", (OBJECT,), {}, native="polygon")
POINT = PyClass("Point", (OBJECT,), {}, native="point")
OPAQUE = PyClass("opaque", (OBJECT,), {}, native="opaque")
TYPING = PyClass("typing", (OBJECT,), {}, native="typing")
CALLABLE = PyClass("Callable", (OBJECT,), {}, native="typing")
NAMED = {}


def seqcls(c):
    return c in (LIST, SET)


class Arrays:
    # ------------------------------------------------------------------ basics
    def arr(self, r):
        """flat value of an array object"""
        v = self.rd(r, "data")
        if not isinstance(v, (ArrV, StoreV)):
            raise Unsupported("array value")
        w = self.heap.get((r.fam, "view"), MISSING)
        if w is not MISSING:
            base, seen = w.items
            if not same(self.rd(base, "data"), seen[0]):
                raise Unsupported("array changed under a view")
        return self.flat(v)

    def arr_new(self, shape, body, view=None):
        if isinstance(body, float):
            body = self.nan_body(body)
        r = self.new(NDARRAY)
        self.heap[(r.fam, "data")] = ArrV(shape, [arrvar(i) for i in range(len(shape))], num.norm(body) if not (isinstance(body, bool) or z3.is_bool(body)) else body)
        if view is not None:
            self.heap[(r.fam, "view")] = Tup((view, (self.rd(view, "data"),)))
        return r

    def nan_body(self, f):
        return f

    def elem(self, a, idx):
        """element of an ArrV"""
        return self.resolve(self.subst(a.body, [(v, i) for v, i in zip(a.vars, idx) if not same(v, i)]))

    def is_arr(self, v):
        return isinstance(v, Ref) and v.cls is NDARRAY

    def to_arr(self, v):
        """value converted to an ArrV"""
        if self.is_arr(v):
            return self.arr(v)
        if is_num(v) or z3.is_bool(v):
            return ArrV((), (), v)
        segs = self.segments(v)
        n = 0
        for s in segs:
            n = num.add(n, self.seg_len(s))
        if not segs:
            return ArrV((0,), (arrvar(0),), Fraction(0))
        parts, off, inner = [], 0, None
        for s in segs:
            if isinstance(s, El):
                x = self.to_arr(self.resolve(s.v))
                m = 1
            elif isinstance(s, Seg) and s.cond is None:
                k = s.k
                x = self.merged_arr(s)
                m = s.n
            else:
                raise Unsupported("array from a composite sequence")
            if inner is None:
                inner = x.shape
            elif len(inner) != len(x.shape) or not all(self.dim_eq(p, q) for p, q in zip(inner, x.shape)):
                self.throw("ValueError", "inhomogeneous shape")
            b = self.shift_vars(x, 1)
            if isinstance(s, Seg):
                b = self.subst(b, [(s.k, num.sub(arrvar(0), off))])
            parts.append((num.add(off, m), b))
            off = num.add(off, m)
        body = parts[-1][1]
        for end, b in reversed(parts[:-1]):
            body = self.elem_ite(arrvar(0) < to_z3(end), b, body)
        return ArrV((n,) + tuple(inner), [arrvar(i) for i in range(len(inner) + 1)], body)

    def merged_arr(self, s):
        v = s.v
        if isinstance(v, Choice) or not (is_num(v) or z3.is_bool(v)):
            if isinstance(v, Choice):
                vals = [x for _, x in v.alts]
                if all(is_num(x) for x in vals):
                    r = vals[-1]
                    for g, x in reversed(v.alts[:-1]):
                        r = num.ite(g, x, r)
                    return ArrV((), (), r)
                arrs = [self.arr(x) for x in vals if self.is_arr(x)]
                if len(arrs) == len(vals) and all(same(a.shape, arrs[0].shape) for a in arrs):
                    r = arrs[-1].body
                    for (g, _), a in reversed(list(zip(v.alts[:-1], arrs[:-1]))):
                        r = num.ite(g, a.body, r)
                    return ArrV(arrs[0].shape, arrs[0].vars, r)
                raise Unsupported("array of mixed values")
            self.gstack.append((s.k, s.n))
            try:
                return self.to_arr(v)
            finally:
                self.gstack.pop()
        return ArrV((), (), v)

    def elem_ite(self, c, a, b):
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("array with infinite or undefined elements")
        return num.ite(c, a, b)

    def shift_vars(self, a, by):
        if not a.shape:
            return a.body
        tmp = [z3.Int(f"$w{i}") for i in range(len(a.shape))]
        b = self.subst(a.body, list(zip(a.vars, tmp)))
        return self.subst(b, [(t, arrvar(i + by)) for i, t in enumerate(tmp)])

    def dim_eq(self, p, q):
        c = num.cmp("==", p, q)
        return self.truth(c)

    def from_arrv(self, a):
        return self.arr_new(a.shape, self.subst(a.body, [(v, arrvar(i)) for i, v in enumerate(a.vars) if not same(v, arrvar(i))]))

    def arr_scalar(self, r):
        if not self.is_arr(r):
            return r
        a = self.arr(r)
        for d in a.shape:
            if not self.truth(num.cmp("==", d, 1)):
                self.throw("ValueError", "truth value of an array is ambiguous")
        return self.elem(a, [0] * len(a.shape))

    def scalar(self, v):
        return self.arr_scalar(v) if self.is_arr(v) else v

    def arr_map(self, f, v):
        a = self.to_arr(v)
        body = f(a.body)
        return self.arr_new(a.shape, body) if a.shape else body

    def bshape(self, s1, s2):
        n = max(len(s1), len(s2))
        p = [1] * (n - len(s1)) + list(s1)
        q = [1] * (n - len(s2)) + list(s2)
        out, i1, i2 = [], [], []
        for d, (x, y) in enumerate(zip(p, q)):
            if same(x, y):
                out.append(x), i1.append(arrvar(d)), i2.append(arrvar(d))
            elif isinstance(x, int) and x == 1:
                out.append(y), i1.append(0), i2.append(arrvar(d))
            elif isinstance(y, int) and y == 1:
                out.append(x), i1.append(arrvar(d)), i2.append(0)
            elif self.truth(num.cmp("==", x, y)):
                out.append(x if isinstance(x, int) else y), i1.append(arrvar(d)), i2.append(arrvar(d))
            elif self.truth(num.cmp("==", x, 1)):
                out.append(y), i1.append(0), i2.append(arrvar(d))
            elif self.truth(num.cmp("==", y, 1)):
                out.append(x), i1.append(arrvar(d)), i2.append(0)
            else:
                self.throw("ValueError", "operands could not be broadcast together")
        return out, i1[n - len(s1):], i2[n - len(s2):]

    def arr_bin(self, f, x, y):
        if x is None or y is None or isinstance(x, (str, SStr)) or isinstance(y, (str, SStr)):
            self.throw("TypeError", "array operand")
        a, b = self.to_arr(x), self.to_arr(y)
        sh, i1, i2 = self.bshape(a.shape, b.shape)
        p = self.subst(a.body, [(v, i) for v, i in zip(a.vars, i1) if not same(v, i)])
        q = self.subst(b.body, [(v, i) for v, i in zip(b.vars, i2) if not same(v, i)])
        r = f(p, q)
        return self.arr_new(sh, r) if sh else r

    def arr_segs(self, r):
        a = self.arr(r)
        if not a.shape:
            self.throw("TypeError", "iteration over a 0-d array")
        if len(a.shape) == 1:
            if isinstance(a.shape[0], int) and a.shape[0] <= 8:
                return tuple(El(self.elem(a, [i])) for i in range(a.shape[0]))
            k = self.fresh_index()
            return (Seg(a.shape[0], k, self.subst(a.body, [(a.vars[0], k)])),)
        if isinstance(a.shape[0], int) and a.shape[0] <= 8:
            return tuple(El(self.arr_get(r, i)) for i in range(a.shape[0]))
        k = self.fresh_index()
        self.gstack.append((k, a.shape[0]))
        try:
            row = self.arr_new(a.shape[1:], self.row_body(a, k), view=r)
        finally:
            self.gstack.pop()
        return (Seg(a.shape[0], k, row),)

    def row_body(self, a, i):
        b = self.subst(a.body, [(a.vars[0], to_z3(i))])
        return self.subst(b, [(a.vars[d], arrvar(d - 1)) for d in range(1, len(a.shape))])

    # ------------------------------------------------------------------ indexing
    def arr_get(self, r, i):
        a = self.arr(r)
        if self.is_arr(i) or isinstance(i, Ref) and i.cls is LIST:
            ix = self.to_arr(i)
            if isinstance(ix.body, bool) or z3.is_bool(ix.body):
                return self.mask_get(a, ix)
            if not ix.shape:
                return self.arr_get(r, ix.body)
            if ix.shape == (0,):
                return self.arr_new((0,) + tuple(a.shape[1:]), Fraction(0))
            n = a.shape[0]
            # every index must be in range
            ok = self.bulk_range(ix, n)
            d = len(ix.shape)
            rest = self.shift_vars(ArrV(a.shape, a.vars, a.body), d)
            body = self.subst(rest, [(arrvar(d), real_idx(self.wrap(ix.body, n)))])
            body = self.subst(body, [(arrvar(d + j), arrvar(d + j - 1)) for j in range(1, len(a.shape))])
            return self.arr_new(tuple(ix.shape) + tuple(a.shape[1:]), body)
        items = list(i.items) if isinstance(i, Tup) else [i]
        if any(x is Ellipsis for x in items):
            p = items.index(Ellipsis)
            items = items[:p] + [slice(None, None, None)] * (len(a.shape) - len([x for x in items if x is not None]) + 1) + items[p + 1:]
        nidx = len([x for x in items if x is not None])
        if nidx > len(a.shape):
            self.throw("IndexError", "too many indices")
        items += [slice(None, None, None)] * (len(a.shape) - nidx)
        if any(self.is_arr(x) or isinstance(x, Ref) for x in items):
            raise Unsupported("mixed fancy indexing")
        shape, sub, d, view = [], [], 0, False
        for x in items:
            if x is None:
                shape.append(1)
                continue
            n = a.shape[d]
            if isinstance(x, slice):
                view = True
                v = arrvar(len(shape))
                if x.step == -1 and x.start is None and x.stop is None:
                    sub.append((a.vars[d], num.sub(num.sub(n, 1), v)))
                    shape.append(n)
                else:
                    lo, hi = self.slice_bounds(x, n)
                    sub.append((a.vars[d], num.add(v, lo)))
                    shape.append(num.sub(hi, lo))
            else:
                x = self.scalar(x)
                if not is_num(x):
                    self.throw("IndexError", "invalid index")
                if self.in_c() and self.truth(num.cmp("<", x, 0)):
                    self.throw("IndexError", "negative index in C code")
                sub.append((a.vars[d], self.norm_index(x, n)))
            d += 1
        tmp = [z3.Int(f"$w{j}") for j in range(len(a.shape))]
        b = self.subst(a.body, list(zip(a.vars, tmp)))
        b = self.subst(b, [(t, s) for t, (_, s) in zip(tmp, sub)])
        if not shape:
            return self.resolve(b)
        return self.arr_new(shape, b, view=r)

    def wrap(self, b, n):
        if isinstance(b, int):
            return b if b >= 0 else num.add(b, n)
        return b

    def bulk_range(self, ix, n):
        """all entries of an index array are within 0..n-1, or IndexError"""
        vs = list(ix.vars)
        b = to_z3(ix.body)
        rng = [c for v, d in zip(vs, ix.shape) for c in (v >= 0, v < to_z3(d))]
        with Saved(self):
            self.facts += rng
            ok = self.prove(z3.And(b >= 0, b < to_z3(n)), 1, 2000) == "proved"
        if not ok:
            raise Unsupported("index array not known to be in range")

    def mask_get(self, a, m):
        """a[mask] along the first axis"""
        if len(m.shape) != 1:
            raise Unsupported("boolean mask")
        n = a.shape[0]
        if isinstance(n, int) and n <= 8:
            keep = [i for i in range(n) if self.truth(self.elem(m, [i]))]
            body = None
            for p, i in reversed(list(enumerate(keep))):
                x = self.elem_keep(a, i)
                body = x if body is None else num.ite(arrvar(0) == p, x, body)
            return self.arr_new((len(keep),) + tuple(a.shape[1:]), Fraction(0) if body is None else body)
        raise Unsupported("boolean mask of symbolic length")

    def elem_keep(self, a, i):
        return self.subst(a.body, [(a.vars[0], i)])

    def arr_set(self, r, i, v):
        a = self.rd(r, "data")
        if self.heap.get((r.fam, "view"), MISSING) is not MISSING:
            raise Unsupported("store through a view")
        if not isinstance(a, (ArrV, StoreV)):
            raise Unsupported("array value")
        items = list(i.items) if isinstance(i, Tup) else [i]
        sh = a.shape
        if len(items) > len(sh):
            self.throw("IndexError", "too many indices")
        items += [slice(None, None, None)] * (len(sh) - len(items))
        if self.is_arr(items[0]) or isinstance(items[0], Ref):
            m = self.to_arr(items[0])
            if len(sh) == 1 and len(m.shape) == 1 and (isinstance(m.body, bool) or z3.is_bool(m.body)) and not self.is_arr(v):
                f = self.flat(a)
                self.put(r, "data", ArrV(f.shape, f.vars, num.ite(num.boolz(m.body), self.scalar(v), f.body)))
                return
            raise Unsupported("fancy store")
        if all(isinstance(x, slice) and x == slice(None, None, None) for x in items):
            x = self.to_arr(v)
            s, i1, i2 = self.bshape(sh, x.shape)
            body = self.subst(x.body, [(p, q) for p, q in zip(x.vars, i2) if not same(p, q)])
            self.put(r, "data", ArrV(sh, [arrvar(d) for d in range(len(sh))], self.cast(a, body)))
            return
        idx, free = [], []
        for d, x in enumerate(items):
            if isinstance(x, slice):
                if x != slice(None, None, None):
                    lo, hi = self.slice_bounds(x, sh[d])
                    free.append((d, lo, hi))
                else:
                    free.append((d, 0, sh[d]))
                idx.append(arrvar(d))
            else:
                x = self.scalar(x)
                if self.in_c() and self.truth(num.cmp("<", x, 0)):
                    self.throw("IndexError", "negative index in C code")
                idx.append(self.norm_index(x, sh[d]))
        guard = True
        if free:
            x = self.to_arr(v)
            s, i1, i2 = self.bshape([num.sub(h, l) for _, l, h in free], x.shape)
            back = {}
            for p, (d, l, h) in enumerate(free):
                back[p] = num.sub(arrvar(d), l)
                if not (isinstance(l, int) and l == 0 and same(h, sh[d])):
                    guard = land(guard, arrvar(d) >= to_z3(l), arrvar(d) < to_z3(h))
            tmp = [z3.Int(f"$w{j}") for j in range(len(x.shape))]
            b = self.subst(x.body, list(zip(x.vars, tmp)))
            ii = []
            for t, j in zip(tmp, i2):
                if is_z3(j):
                    p = int(str(j)[2:])
                    j = back[p]
                ii.append((t, j))
            val = self.subst(b, ii)
        else:
            val = self.scalar(v)
            if not is_num(val) and not z3.is_bool(val):
                if isinstance(val, Ref) or val is None or isinstance(val, (str, SStr)):
                    self.throw("TypeError", "array element")
                raise Unsupported("array element")
        val = self.cast(a, val)
        if isinstance(a, StoreV):
            base, st = a.base, a.stores
            if st and st[-1][0] is True and guard is True and same(tuple(st[-1][1]), tuple(idx)):
                st = st[:-1]
        else:
            base, st = a, ()
        self.put(r, "data", StoreV(base, st + ((guard, tuple(idx), val),)))

    def cast(self, a, val):
        """store into an integer array truncates; into a float array converts"""
        b = a.base.body if isinstance(a, StoreV) else a.body
        if isinstance(val, float):
            raise Unsupported("infinite or undefined array element")
        if (isinstance(b, int) and not isinstance(b, bool) or is_z3(b) and b.is_int() if not z3.is_bool(b) else False):
            v = num.norm(val)
            if isinstance(v, int) or is_z3(v) and v.is_int():
                return v
            raise Unsupported("float stored into an integer array")
        if isinstance(b, bool) or z3.is_bool(b):
            return val
        v = num.norm(val)
        return Fraction(v) if isinstance(v, int) else real(v) if is_z3(v) else v

    def arr_assign(self, r, v):
        a = self.rd(r, "data")
        if self.heap.get((r.fam, "view"), MISSING) is not MISSING:
            raise Unsupported("in-place operation through a view")
        b = self.to_arr(v)
        if len(b.shape) != len(a.shape):
            self.throw("ValueError", "non-broadcastable output")
        self.put(r, "data", ArrV(a.shape, b.vars, self.cast(a, b.body)))

    def matmul(self, x, y):
        a, b = self.to_arr(x), self.to_arr(y)
        if not a.shape or not b.shape:
            self.throw("ValueError", "matmul of a scalar")
        n, m = a.shape[-1], b.shape[0 if len(b.shape) == 1 else -2]
        if not self.truth(num.cmp("==", n, m)):
            self.throw("ValueError", "matmul dimension mismatch")
        if len(a.shape) > 2 or len(b.shape) > 2:
            raise Unsupported("matmul of stacks")
        t = self.fresh_index("mm")
        i = [arrvar(0)] if len(a.shape) == 2 else []
        j = [arrvar(len(i))] if len(b.shape) == 2 else []
        p = self.subst(a.body, [(v, w) for v, w in zip(a.vars, i + [t])])
        tmp = z3.Int("$w0")
        if len(b.shape) == 2:
            q = self.subst(b.body, [(b.vars[0], t), (b.vars[1], tmp)])
            q = self.subst(q, [(tmp, j[0])])
        else:
            q = self.subst(b.body, [(b.vars[0], t)])
        s = self.mk_sum(n, t, to_z3(num.mul(p, q)))
        sh = list(a.shape[:-1]) + (list(b.shape[1:]) if len(b.shape) == 2 else [])
        return self.arr_new(sh, s) if sh else s

    # reductions -------------------------------------------------------------
    def reduce(self, v, axis, f):
        """f(n, t, body) over one axis or over all elements"""
        a = self.to_arr(v)
        if not a.shape:
            return f(1, z3.Int("$t1"), a.body)
        if axis is None:
            if len(a.shape) == 1:
                axis = 0
            else:
                small_ = [d for d in range(len(a.shape)) if isinstance(a.shape[d], int) and a.shape[d] <= 6]
                if len(small_) >= len(a.shape) - 1 and getattr(f, "assoc", False):
                    r = v
                    for d in sorted(small_, reverse=True)[:len(a.shape) - 1] if len(small_) < len(a.shape) else sorted(small_, reverse=True):
                        r = self.reduce(r, d, f)
                    while self.is_arr(r):
                        r = self.reduce(r, 0, f)
                    return r
                if getattr(f, "assoc", False):
                    r = self.reduce(v, len(a.shape) - 1, f)
                    return self.reduce(r, None, f)
                raise Unsupported("reduction over several axes")
        if axis < 0:
            axis += len(a.shape)
        t = self.fresh_index("t")
        tmp = [z3.Int(f"$w{j}") for j in range(len(a.shape))]
        b = self.subst(a.body, list(zip(a.vars, tmp)))
        others = [d for d in range(len(a.shape)) if d != axis]
        b = self.subst(b, [(tmp[axis], t)] + [(tmp[d], arrvar(p)) for p, d in enumerate(others)])
        r = f(a.shape[axis], t, b)
        sh = [a.shape[d] for d in others]
        return self.arr_new(sh, r) if sh else r

    def fold_term(self, kind, n, t, body, sort=None):
        body = to_z3(body) if not z3.is_bool(body) else body
        return self.agg("F:" + kind, t, real(body), z3.RealSort() if sort is None else sort)(n)

    def extremum(self, n, t, body, ge):
        """max (ge) or min over t = 0..n-1, n >= 1"""
        body = to_z3(body)
        if isinstance(n, int) and n <= 6:
            r = self.subst(body, [(t, 0)])
            for i in range(1, n):
                x = self.subst(body, [(t, i)])
                c = num.cmp(">" if ge else "<", x, r)
                r = num.ite(c, x, r)
            return r
        if not mentions(body, t):
            return body
        f = self.agg("F:max" if ge else "F:min", t, body, body.sort())
        m = f(n)
        w = self.agg("F:amax" if ge else "F:amin", t, body, z3.IntSort())(n)
        at = self.agg_body(m, w)
        q = z3.Int("$q")
        self.facts.append(z3.And(w >= 0, w < to_z3(n), m == at))
        vs, ps = self.lift_vars(body, t)
        k = self.fresh_index("mx")
        bk = self.subst(body, [(t, k)])
        self.assume_all((k,), z3.Implies(z3.And(k >= 0, k < to_z3(n)), (m >= bk) if ge else (m <= bk)))
        return m

    def lift_vars(self, body, t):
        return [], []


def real_idx(x):
    return x


# ---------------------------------------------------------------------- helpers
def arg(args, kw, i, name, default=MISSING):
    if len(args) > i:
        return args[i]
    if name in kw:
        return kw[name]
    return default


def axis_of(args, kw, i=1):
    ax = arg(args, kw, i, "axis", None)
    if ax is not None and not isinstance(ax, int):
        raise Unsupported("axis")
    return ax


def bi(name):
    def d(f):
        NAMED[name] = Bi(name, f)
        return NAMED[name]
    return d


def number(e, v):
    v = e.scalar(v)
    if isinstance(v, (str, SStr)) or v is None or isinstance(v, (Ref, Tup)):
        e.throw("TypeError", "a number is required")
    if not (is_num(v) or z3.is_bool(v)):
        raise Unsupported("number")
    return num.norm(v)


# ---------------------------------------------------------------------- builtins
@bi("len")
def _(e, a, k):
    return e.length(a[0])


@bi("range")
def _(e, a, k):
    a = [number(e, x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if any(isinstance(x, Fraction) or is_z3(x) and not x.is_int() for x in (lo, hi, st)):
        e.throw("TypeError", "range of a non-integer")
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        if len(r) <= 8:
            return IterV([El(i) for i in r])
        kk = e.fresh_index()
        return IterV([Seg(len(r), kk, num.add(lo, num.mul(kk, st)))])
    if not isinstance(st, int) or st == 0:
        if is_z3(st) and e.decide(st > 0):
            n = (to_z3(num.sub(hi, lo)) + st - 1) / st
            n = z3.If(to_z3(hi) > to_z3(lo), n, 0)
            kk = e.fresh_index()
            return IterV([Seg(n, kk, num.add(lo, num.mul(kk, st)))])
        raise Unsupported("range step")
    d = num.sub(hi, lo) if st > 0 else num.sub(lo, hi)
    if (isinstance(d, int) or e.feasible(to_z3(d) < 0)) and not e.truth(num.cmp(">", d, 0)):
        return IterV([])
    n = d if abs(st) == 1 else num.conc(z3.simplify((to_z3(d) + (abs(st) - 1)) / abs(st)))
    kk = e.fresh_index()
    return IterV([Seg(n, kk, num.add(lo, kk if st == 1 else num.mul(kk, st)))])


def numbered(e, segs, start=0):
    out, off = [], start
    for s in segs:
        if isinstance(s, El):
            out.append(El(Tup((off, s.v))))
        elif isinstance(s, Seg) and s.cond is None:
            out.append(Seg(s.n, s.k, Tup((num.add(off, s.k), s.v))))
        else:
            raise Unsupported("enumerate of a filtered sequence")
        off = num.add(off, e.seg_len(s))
    return out


@bi("enumerate")
def _(e, a, k):
    return IterV(numbered(e, e.segments(a[0]), arg(a, k, 1, "start", 0)))


@bi("zip")
def _(e, a, k):
    ls = [list(e.segments(x)) for x in a]
    out = []
    if not ls:
        return IterV([])
    while all(ls):
        hs = [l[0] for l in ls]
        if all(isinstance(h, El) for h in hs):
            out.append(El(Tup([h.v for h in hs])))
            for l in ls:
                l.pop(0)
            continue
        if all(isinstance(h, Seg) and h.cond is None for h in hs):
            n = hs[0].n
            diff = False
            for h in hs[1:]:
                if not e.truth(num.cmp("==", n, h.n)):
                    diff = True
            if diff:
                if any(len(l) > 1 for l in ls):
                    raise Unsupported("zip of composite sequences")
                for h in hs[1:]:
                    n = h.n if e.truth(num.cmp("<", h.n, n)) else n
            kk = hs[0].k
            out.append(Seg(n, kk, Tup([hs[0].v] + [e.subst(h.v, [(h.k, kk)]) for h in hs[1:]])))
            if diff:
                break
            for l in ls:
                l.pop(0)
            continue
        if all(isinstance(h, (El, Seg)) and getattr(h, "cond", None) is None for h in hs):
            # peel one element from the longer heads
            for i, h in enumerate(hs):
                if isinstance(h, Seg):
                    if not e.truth(num.cmp(">", h.n, 0)):
                        ls[i].pop(0)
                        break
                    ls[i][0:1] = [El(e.subst(h.v, [(h.k, 0)])), Seg(num.sub(h.n, 1), h.k, e.subst(h.v, [(h.k, h.k + 1)]))]
            continue
        raise Unsupported("zip of composite sequences")
    return IterV(out)


@bi("map")
def _(e, a, k):
    r = e.mklist(())
    it = a[1] if len(a) == 2 else NAMED["zip"].fn(e, a[1:], {})
    e.loop_over(it, lambda v: e.append(r, e.call(a[0], [v] if len(a) == 2 else list(v.items))))
    return IterV(e.rd(r, "list").segs)


@bi("filter")
def _(e, a, k):
    r = e.mklist(())
    e.loop_over(a[1], lambda v: e.append(r, v) if e.truth(v if a[0] is None else e.call(a[0], [v])) else None)
    return IterV(e.rd(r, "list").segs)


@bi("iter")
def _(e, a, k):
    return IterV(e.segments(a[0]))


@bi("reversed")
def _(e, a, k):
    out = []
    for s in reversed(e.segments(a[0])):
        if isinstance(s, El):
            out.append(s)
        elif isinstance(s, Seg):
            out.append(Seg(s.n, s.k, e.subst(s.v, [(s.k, num.sub(num.sub(s.n, 1), s.k))]),
                           None if s.cond is None else e.subst(s.cond, [(s.k, num.sub(num.sub(s.n, 1), s.k))])))
        else:
            raise Unsupported("reversed")
    return IterV(out)


@bi("sorted")
def _(e, a, k):
    segs = e.segments(a[0])
    if all(isinstance(s, El) and isinstance(s.v, (int, str, Fraction)) for s in segs) and not k:
        return e.mklist([El(v) for v in sorted(s.v for s in segs)])
    if k:
        raise Unsupported("sorted with a key")
    r = np_sort(e, [a[0]], {})
    return e.mklist(e.arr_segs(r))


@bi("sum")
def _(e, a, k):
    r = arg(a, k, 1, "start", 0)
    if e.is_arr(a[0]) and len(e.arr(a[0]).shape) == 1:
        x = e.arr(a[0])
        t = e.fresh_index("t")
        return num.add(r, sum_seq(e, x.shape[0], t, e.subst(x.body, [(x.vars[0], t)])))
    for s in e.segments(a[0]):
        if isinstance(s, El):
            r = e.binop(ast.Add(), r, e.resolve(s.v))
        elif isinstance(s, Seg):
            v = s.v
            if isinstance(v, Choice):
                infs = [g for g, x in v.alts if isinstance(x, float)]
                if infs:
                    raise Unsupported("sum with infinite terms")
                x = v.alts[-1][1]
                for g, y in reversed(v.alts[:-1]):
                    x = num.ite(g, y, x)
                v = x
            if e.is_arr(v):
                a0 = e.arr(v)
                b = a0.body if s.cond is None else num.ite(s.cond, a0.body, 0)
                r = e.binop(ast.Add(), r, e.arr_new(a0.shape, e.mk_sum(s.n, s.k, to_z3(num.norm(b)))))
                continue
            if not is_num(v) and not z3.is_bool(v):
                raise Unsupported("sum of non-numbers")
            v = num.norm(v)
            if s.cond is not None:
                v = num.ite(s.cond, v, 0)
            r = num.add(r, sum_seq(e, s.n, s.k, v))
        elif isinstance(s, Cat):
            inner = 0
            for x in s.segs:
                if isinstance(x, El):
                    inner = num.add(inner, x.v)
                elif isinstance(x, Seg):
                    inner = num.add(inner, sum_seq(e, x.n, x.k, x.v if x.cond is None else num.ite(x.cond, x.v, 0)))
                else:
                    raise Unsupported("sum of a nested sequence")
            if s.cond is not None:
                inner = num.ite(s.cond, inner, 0)
            r = num.add(r, sum_seq(e, s.n, s.k, inner))
        else:
            raise Unsupported("sum of a sequence under construction")
    return r


def sum_seq(e, n, k, v):
    if isinstance(v, float):
        if e.truth(num.cmp(">", n, 0)):
            return v
        return 0
    return e.mk_sum(n, k, to_z3(num.norm(v)))


def quant(e, a, isany):
    r = not isany
    for s in e.segments(a):
        if isinstance(s, El):
            c = e.truth_c(e.resolve(s.v))
        elif isinstance(s, Seg):
            v = s.v
            if isinstance(v, Choice):
                x = num.boolz(e.truth_c(v.alts[-1][1]))
                for g, y in reversed(v.alts[:-1]):
                    x = num.ite(g, num.boolz(e.truth_c(y)), x)
                v = x
            c = num.boolz(e.truth_c(v))
            if s.cond is not None:
                c = z3.And(s.cond, c) if isany else z3.Or(z3.Not(s.cond), c)
            c = e.mk_any(s.n, s.k, c if isany else z3.Not(c))
            c = c if isany else lnot(c)
        else:
            raise Unsupported("any/all")
        r = lor(r, c) if isany else land(r, c)
    return r


@bi("any")
def _(e, a, k):
    return quant(e, a[0], True)


@bi("all")
def _(e, a, k):
    return quant(e, a[0], False)


def minmax(ge):
    def f(e, a, k):
        if "key" in k:
            raise Unsupported("min/max with a key")
        it = e.segments(a[0]) if len(a) == 1 else [El(x) for x in a]
        if not it:
            if "default" in k:
                return k["default"]
            e.throw("ValueError", "empty sequence")
        r = None
        for s in it:
            if isinstance(s, El):
                v = number(e, e.resolve(s.v))
            elif isinstance(s, Seg) and s.cond is None:
                if not e.truth(num.cmp(">", s.n, 0)):
                    if len(it) == 1:
                        if "default" in k:
                            return k["default"]
                        e.throw("ValueError", "empty sequence")
                    continue
                v = e.extremum(s.n, s.k, num.norm(s.v), ge)
            else:
                raise Unsupported("min/max of a filtered sequence")
            if r is None:
                r = v
            else:
                c = num.cmp(">" if ge else "<", v, r)
                if num.is_inf(v) or num.is_inf(r):
                    r = v if e.truth(c) else r
                else:
                    r = num.ite(c, v, r)
        return r
    return f


NAMED["max"] = Bi("max", minmax(True))
NAMED["min"] = Bi("min", minmax(False))


@bi("abs")
def _(e, a, k):
    v = a[0]
    if e.is_arr(v):
        return e.arr_map(lambda x: num.absv(x), v)
    return num.absv(number(e, v))


@bi("round")
def _(e, a, k):
    v = number(e, a[0])
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and len(a) == 1:
        return round(v)
    if is_z3(v) and v.is_int():
        return v
    raise Unsupported("round")


@bi("pow")
def _(e, a, k):
    return e.binop(ast.Pow(), a[0], a[1])


@bi("divmod")
def _(e, a, k):
    return Tup((e.binop(ast.FloorDiv(), a[0], a[1]), e.binop(ast.Mod(), a[0], a[1])))


@bi("isinstance")
def _(e, a, k):
    return e.isinstance(a[0], a[1])


@bi("issubclass")
def _(e, a, k):
    return any(a[0].sub(c) for c in (a[1].items if isinstance(a[1], Tup) else [a[1]]))


@bi("callable")
def _(e, a, k):
    v = a[0]
    return isinstance(v, (Func, Bi, BoundV, PartialV, PyClass)) or isinstance(v, Ref) and v.cls.has("__call__")


@bi("hasattr")
def _(e, a, k):
    if not isinstance(a[1], (str, SStr)):
        raise Unsupported("hasattr")
    try:
        v = e.getattr(a[0], a[1], None if False else HASNT)
    except PyRaise as p:
        if p.exc.cls.sub(EXC["AttributeError"]):
            return False
        raise
    return v is not HASNT


HASNT = Poison("hasattr")


@bi("getattr")
def _(e, a, k):
    if len(a) == 3:
        try:
            v = e.getattr(a[0], a[1], HASNT)
        except PyRaise as p:
            if p.exc.cls.sub(EXC["AttributeError"]):
                return a[2]
            raise
        return a[2] if v is HASNT else v
    return e.getattr(a[0], a[1])


@bi("setattr")
def _(e, a, k):
    e.setattr(a[0], a[1], a[2])


@bi("id")
def _(e, a, k):
    return a[0]


@bi("hash")
def _(e, a, k):
    return a[0]


@bi("repr")
def _(e, a, k):
    return "<repr>"


@bi("print")
def _(e, a, k):
    return None


@bi("vars")
def _(e, a, k):
    raise Unsupported("vars")


@bi("next")
def _(e, a, k):
    for s in e.segments(a[0]):
        if isinstance(s, El):
            return e.resolve(s.v)
        if isinstance(s, Seg) and s.cond is None:
            if e.truth(num.cmp(">", s.n, 0)):
                return e.resolve(e.subst(s.v, [(s.k, 0)]))
            continue
        raise Unsupported("next of a filtered sequence")
    if len(a) > 1:
        return a[1]
    e.throw("StopIteration")


@bi("slice")
def _(e, a, k):
    return slice(*a)


@bi("property")
def _(e, a, k):
    return PropertyV(a[0], a[1] if len(a) > 1 else None)


@bi("staticmethod")
def _(e, a, k):
    return StaticV(a[0])


@bi("classmethod")
def _(e, a, k):
    return ClassMV(a[0])


@bi("identity")
def _(e, a, k):
    return a[0]


def make_int(e, c, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        return int(v)
    v = number(e, v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        e.throw("ValueError" if v != v else "OverflowError", "cannot convert float to integer")
    if isinstance(v, Fraction):
        return int(v)
    if v.is_int():
        return v
    r = z3.ToInt(v)
    if e.decide(v >= 0):
        return r
    return -z3.ToInt(-v)


def make_float(e, c, a, k):
    if not a:
        return Fraction(0)
    v = a[0]
    if isinstance(v, str):
        s = v.strip().lower()
        if s in ("inf", "+inf", "infinity"):
            return INF
        if s == "-inf":
            return -INF
        if s == "nan":
            return NAN
        return Fraction(s)
    v = number(e, v)
    return v if isinstance(v, (float, Fraction)) else Fraction(v) if isinstance(v, int) else real(v)


def make_bool(e, c, a, k):
    return e.truth_c(a[0]) if a else False


def make_str(e, c, a, k):
    return mkstr(e.strparts(a[0])) if a else ""


def make_list(e, c, a, k):
    return e.mklist(e.segments(a[0]) if a else ())


def make_tuple(e, c, a, k):
    if not a:
        return Tup(())
    if isinstance(a[0], Tup):
        return Tup(a[0].items)
    segs = e.segments(a[0])
    if all(isinstance(s, El) for s in segs):
        return Tup([s.v for s in segs])
    r = e.mklist(segs)
    return r


def make_dict(e, c, a, k):
    r = e.dict_copy(a[0]) if a and isinstance(a[0], Ref) and a[0].cls is DICT else e.mkdict()
    if a and not (isinstance(a[0], Ref) and a[0].cls is DICT):
        e.dict_update(r, a[0])
    for n, v in k.items():
        e.setitem(r, n, v)
    return r


def make_set(e, c, a, k):
    r = e.new(SET)
    e.heap[(r.fam, "list")] = SeqV(())
    if a:
        segs = e.segments(a[0])
        if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].cond is None and isinstance(segs[0].v, SStr) and mentions_key(segs[0]):
            e.heap[(r.fam, "list")] = SeqV(segs)
            return r
        for s in segs:
            if isinstance(s, El):
                set_add(e, [r, s.v], {})
            elif isinstance(s, Seg) and s.cond is None and all_different(e, s) and all(disjoint(e, s, x) for x in e.rd(r, "list").segs):
                e.heap[(r.fam, "list")] = SeqV(e.rd(r, "list").segs + (s,))
            else:
                raise Unsupported("set of a symbolic sequence")
    return r


def all_different(e, s):
    x, y = e.fresh_index("x"), e.fresh_index("y")
    c = e.equal_v(e.subst(s.v, [(s.k, x)]), e.subst(s.v, [(s.k, y)]))
    return c is False or e.holds(z3.Implies(z3.And(x >= 0, y >= 0, x < to_z3(s.n), y < to_z3(s.n), num.boolz(c)), x == y))


def disjoint(e, s, o):
    x, y = e.fresh_index("x"), e.fresh_index("y")
    if isinstance(o, El):
        c, m = e.equal_v(e.subst(s.v, [(s.k, x)]), o.v), 1
    elif isinstance(o, Seg):
        c, m = e.equal_v(e.subst(s.v, [(s.k, x)]), e.subst(o.v, [(o.k, y)])), o.n
    else:
        return False
    return c is False or e.holds(z3.Implies(z3.And(x >= 0, y >= 0, x < to_z3(s.n), y < to_z3(m)), z3.Not(num.boolz(c))))


def mentions_key(s):
    return any(not isinstance(p, str) and any(is_z3(i) and z3.eq(i, s.k) for i in p[1]) for p in s.v.parts)


def set_add(e, a, k):
    r, v = a
    if not e.truth(e.contains(r, v)):
        e.append(r, v)


def make_type(e, c, a, k):
    return e.type_of(a[0])


for _c, _f in ((INT, make_int), (FLOAT, make_float), (BOOL, make_bool), (STR, make_str), (LIST, make_list), (TUPLE, make_tuple),
               (DICT, make_dict), (SET, make_set), (TYPE, make_type)):
    _c.make = _f
    NAMED[_c.name] = _c
OBJECT.make = None
NAMED["object"] = OBJECT


# ---------------------------------------------------------------------- methods of native types
def meth(cls, name):
    def d(f):
        cls.ns[name] = Bi(f"{cls.name}.{name}", f)
        return f
    return d


@meth(LIST, "append")
def _(e, a, k):
    e.append(a[0], a[1])


@meth(LIST, "extend")
def _(e, a, k):
    segs = e.segments(a[1])
    cur = e.rd(a[0], "list")
    e.put(a[0], "list", SeqV(cur.segs + tuple(segs)))


@meth(LIST, "copy")
def _(e, a, k):
    return e.mklist(e.rd(a[0], "list").segs)


@meth(LIST, "insert")
def _(e, a, k):
    r, i, v = a
    segs = e.rd(r, "list").segs
    n = e.length(r)
    lo, _ = e.slice_bounds(slice(i, None, None), n)
    e.put(r, "list", SeqV(e.seq_slice(segs, 0, lo) + (El(v),) + e.seq_slice(segs, lo, n)))


@meth(LIST, "pop")
def _(e, a, k):
    return e.list_pop(a[0], a[1] if len(a) > 1 else -1)


@meth(LIST, "clear")
def _(e, a, k):
    e.put(a[0], "list", SeqV(()))


@meth(LIST, "index")
def _(e, a, k):
    off = 0
    for s in e.segments(a[0]):
        if isinstance(s, El):
            if e.truth(e.equal_v(s.v, a[1])):
                return off
            off = num.add(off, 1)
        else:
            raise Unsupported("list.index")
    e.throw("ValueError", "not in list")


@meth(LIST, "count")
def _(e, a, k):
    n = 0
    for s in e.segments(a[0]):
        if isinstance(s, El):
            c = e.equal_v(s.v, a[1])
            n = num.add(n, num.ite(c, 1, 0) if not isinstance(c, bool) else int(c))
        else:
            c = e.equal_v(s.v, a[1])
            n = num.add(n, e.mk_sum(s.n, s.k, num.ite(num.boolz(land(s.cond, c)), z3.IntVal(1), z3.IntVal(0))))
    return n


@meth(LIST, "reverse")
def _(e, a, k):
    e.put(a[0], "list", SeqV(NAMED["reversed"].fn(e, [a[0]], {}).segs))


@meth(LIST, "__iter__")
def _(e, a, k):
    return IterV(e.segments(a[0]))


@meth(LIST, "__len__")
def _(e, a, k):
    return e.length(a[0])


SET.ns["add"] = Bi("set.add", set_add)


@meth(DICT, "get")
def _(e, a, k):
    v = e.dict_find(a[0], "dict", a[1])
    return (a[2] if len(a) > 2 else None) if v is MISSING else v


@meth(DICT, "keys")
def _(e, a, k):
    return IterV(e.dict_segs(a[0], "k"))


@meth(DICT, "values")
def _(e, a, k):
    return IterV(e.dict_segs(a[0], "v"))


@meth(DICT, "items")
def _(e, a, k):
    return IterV(e.dict_segs(a[0], "kv"))


@meth(DICT, "update")
def _(e, a, k):
    if len(a) > 1:
        e.dict_update(a[0], a[1])
    for n, v in k.items():
        e.setitem(a[0], n, v)


@meth(DICT, "copy")
def _(e, a, k):
    return e.dict_copy(a[0])


@meth(DICT, "clear")
def _(e, a, k):
    e.put(a[0], "dict", DictV(()))


@meth(DICT, "__iter__")
def _(e, a, k):
    return IterV(e.dict_segs(a[0], "k"))


@meth(DICT, "pop")
def _(e, a, k):
    v = e.dict_find(a[0], "dict", a[1])
    if v is MISSING:
        if len(a) > 2:
            return a[2]
        e.throw("KeyError", "pop")
    e.delitem(a[0], a[1])
    return v


@meth(DICT, "setdefault")
def _(e, a, k):
    v = e.dict_find(a[0], "dict", a[1])
    if v is MISSING:
        v = a[2] if len(a) > 2 else None
        e.setitem(a[0], a[1], v)
    return v


def str_method(e, s, name):
    if isinstance(s, str):
        def f(e, a, k):
            if name == "join":
                segs = e.segments(a[0])
                if all(isinstance(x, El) for x in segs):
                    parts = []
                    for i, x in enumerate(segs):
                        parts += ([s] if i else []) + e.strparts(x.v)
                    return mkstr(parts)
                return "<joined>"
            if name == "format":
                return "<formatted>"
            if all(isinstance(x, (str, int)) for x in a) and not k:
                r = getattr(s, name)(*a)
                if isinstance(r, list):
                    return e.mklist([El(x) for x in r])
                if isinstance(r, tuple):
                    return Tup(r)
                return r
            raise Unsupported("str." + name)
        return Bi("str." + name, f)
    def g(e, a, k):
        if name in ("startswith", "endswith"):
            p = s.parts[0 if name == "startswith" else -1]
            if isinstance(p, str) and isinstance(a[0], str):
                if getattr(p, name)(a[0]):
                    return True
                if len(p) >= len(a[0]) or not getattr(a[0], name)(p):
                    return False
        if name in ("format", "upper", "lower", "strip", "title", "replace"):
            return s if name == "strip" else "<?>"
        if name in ("rsplit", "split", "partition", "rpartition") and len(a) and isinstance(a[0], str):
            # name atoms are assumed not to contain the separator
            full, cur, out = s.parts, [], []
            for p in full:
                if isinstance(p, str):
                    bits = p.split(a[0])
                    cur.append(bits[0])
                    for b in bits[1:]:
                        out.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(p)
            out.append(mkstr(cur))
            if len(a) > 1:
                m = a[1]
                if name == "split" and len(out) > m + 1:
                    out = out[:m] + [mkstr([q for i, x in enumerate(out[m:]) for q in ([a[0]] if i else []) + e.strparts(x)])]
                elif name == "rsplit" and len(out) > m + 1:
                    h = len(out) - m
                    out = [mkstr([q for i, x in enumerate(out[:h]) for q in ([a[0]] if i else []) + e.strparts(x)])] + out[h:]
            if name in ("partition", "rpartition"):
                raise Unsupported("str." + name)
            return e.mklist([El(x) for x in out])
        raise Unsupported("str." + name)
    return Bi("str." + name, g)


def tup_method(e, t, name):
    if name == "_replace":
        def f(e, a, k):
            spec = next(b.nt for b in t.cls.mro if getattr(b, "nt", None))
            items = list(t.items)
            for n, v in k.items():
                items[spec[0].index(n)] = v
            return Tup(items, t.cls)
        return Bi("_replace", f)
    if name == "_asdict":
        def f(e, a, k):
            spec = next(b.nt for b in t.cls.mro if getattr(b, "nt", None))
            r = e.mkdict()
            for n, v in zip(spec[0], t.items):
                e.setitem(r, n, v)
            return r
        return Bi("_asdict", f)
    if name == "_fields":
        return Tup(next(b.nt for b in t.cls.mro if getattr(b, "nt", None))[0])
    if name == "index":
        return Bi("index", lambda e, a, k: next(i for i, x in enumerate(t.items) if e.truth(e.equal_v(x, a[0]))))
    return MISSING


# ---------------------------------------------------------------------- numpy arrays
def arr_attr(e, r, name):
    if name == "shape":
        return Tup(e.arr(r).shape)
    if name == "ndim":
        return len(e.arr(r).shape)
    if name == "size":
        n = 1
        for d in e.arr(r).shape:
            n = num.mul(n, d)
        return n
    if name == "T":
        return np_transpose(e, [r], {})
    if name == "dtype":
        return "dtype"
    if name == "flat":
        return np_ravel(e, [r], {})
    f = ARRM.get(name)
    if f is not None:
        return Bi("ndarray." + name, lambda e, a, k: f(e, [r] + list(a), k))
    return MISSING


def np_transpose(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) < 2:
        return e.from_arrv(x)
    n = len(x.shape)
    tmp = [z3.Int(f"$w{j}") for j in range(n)]
    b = e.subst(x.body, list(zip(x.vars, tmp)))
    return e.arr_new(x.shape[::-1], e.subst(b, [(tmp[j], arrvar(n - 1 - j)) for j in range(n)]), view=a[0] if e.is_arr(a[0]) else None)


def np_copy(e, a, k):
    return e.from_arrv(e.to_arr(a[0]))


def np_ravel(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) == 0:
        return e.arr_new((1,), x.body)
    if len(x.shape) == 1:
        return e.arr_new(x.shape, x.body) if not e.is_arr(a[0]) else e.arr_new(x.shape, x.body, view=a[0])
    dims = [d for d in x.shape if not (isinstance(d, int) and d == 1)]
    if len(dims) <= 1:
        sub, used = [], False
        for v, d in zip(x.vars, x.shape):
            if isinstance(d, int) and d == 1 and (dims or used):
                sub.append((v, 0))
            else:
                sub.append((v, arrvar(0)))
                used = True
        tmp = [z3.Int(f"$w{j}") for j in range(len(x.shape))]
        b = e.subst(x.body, list(zip(x.vars, tmp)))
        return e.arr_new((dims[0] if dims else 1,), e.subst(b, [(t, s) for t, (_, s) in zip(tmp, sub)]))
    if len(x.shape) == 2 and isinstance(x.shape[1], int):
        d = x.shape[1]
        tmp = [z3.Int("$w0"), z3.Int("$w1")]
        b = e.subst(x.body, list(zip(x.vars, tmp)))
        return e.arr_new((num.mul(x.shape[0], d),), e.subst(b, [(tmp[0], arrvar(0) / d), (tmp[1], arrvar(0) % d)]))
    raise Unsupported("ravel")


def np_reshape(e, a, k):
    sh = a[1:] if len(a) > 2 else [a[1]]
    if len(sh) == 1 and isinstance(sh[0], Tup):
        sh = list(sh[0].items)
    if len(sh) == 1 and sh[0] == -1:
        return np_ravel(e, [a[0]], {})
    x = e.to_arr(a[0])
    if len(x.shape) == 1 and len(sh) == 2 and 1 in [s for s in sh if isinstance(s, int)]:
        n = x.shape[0]
        if isinstance(sh[0], int) and sh[0] == 1:
            return e.arr_new((1, n), e.subst(x.body, [(x.vars[0], arrvar(1))]))
        return e.arr_new((n, 1), x.body)
    raise Unsupported("reshape")


def np_tolist(e, a, k):
    x = e.arr(a[0])
    if len(x.shape) == 1:
        return e.mklist(e.arr_segs(a[0]))
    if not x.shape:
        return x.body
    if len(x.shape) == 2:
        kk = e.fresh_index()
        e.gstack.append((kk, x.shape[0]))
        try:
            row = e.arr_new(x.shape[1:], e.row_body(x, kk))
            inner = e.mklist(e.arr_segs(row))
        finally:
            e.gstack.pop()
        return e.mklist([Seg(x.shape[0], kk, inner)])
    raise Unsupported("tolist")


def np_item(e, a, k):
    return e.arr_scalar(a[0])


def np_sum(e, a, k):
    f = lambda n, t, b: e.mk_sum(n, t, to_z3(num.norm(b)))
    f.assoc = True
    return e.reduce(a[0], axis_of(a, k), f)


def np_mean(e, a, k):
    return e.reduce(a[0], axis_of(a, k), lambda n, t, b: mean_term(e, n, t, b))


def mean_term(e, n, t, b):
    return num.rdiv(real(e.mk_sum(n, t, to_z3(num.norm(b)))), n)


def np_var(e, a, k):
    ddof = k.get("ddof", 0)

    def f(n, t, b):
        m = mean_term(e, n, t, b)
        d = num.sub(b, m)
        return num.rdiv(real(e.mk_sum(n, t, to_z3(num.mul(d, d)))), num.sub(n, ddof))
    return e.reduce(a[0], axis_of(a, k), f)


def np_std(e, a, k):
    r = np_var(e, a, k)
    return e.arr_map(lambda x: sqrt_term(x), r) if e.is_arr(r) else sqrt_term(r)


def sqrt_term(x):
    if num.is_const(x) and not isinstance(x, float):
        import math
        f = Fraction(x)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
    if isinstance(x, float):
        return x
    return SQRT(real(x))


def np_median(e, a, k):
    return e.reduce(a[0], axis_of(a, k), lambda n, t, b: e.fold_term("median", n, t, b))


def np_percentile(e, a, k, nm="percentile"):
    q = a[1]
    extra = {x: v for x, v in k.items() if x not in ("axis", "q")}
    if extra:
        raise Unsupported("percentile options")

    def one(p):
        p = num.norm(p)
        if not num.is_const(p):
            # symbolic percentile: part of the aggregated body
            return e.reduce(a[0], axis_of(a, k, 2), lambda n, t, b: z3.Function(nm, z3.RealSort(), z3.RealSort(), z3.RealSort())(
                e.fold_term("order", n, t, b), real(p)))
        return e.reduce(a[0], axis_of(a, k, 2), lambda n, t, b: e.fold_term(f"{nm}:{Fraction(p)}", n, t, b))
    if is_num(q):
        return one(q)
    rs = [one(p) for p in e.unpack(q)]
    return e.from_arrv(e.to_arr(e.mklist([El(r) for r in rs])))


def np_max(e, a, k, ge=True):
    x = e.to_arr(a[0])
    for d in x.shape:
        if not e.truth(num.cmp(">", d, 0)):
            e.throw("ValueError", "zero-size array")
    f = lambda n, t, b: e.extremum(n, t, num.norm(b), ge)
    f.assoc = True
    return e.reduce(a[0], axis_of(a, k), f)


def np_min(e, a, k):
    return np_max(e, a, k, False)


def np_all(e, a, k, isany=False):
    def f(n, t, b):
        b = num.boolz(e.truth_c(b))
        r = e.mk_any(n, t, b if isany else z3.Not(b))
        return r if isany else lnot(r)
    f.assoc = True
    return e.reduce(a[0], axis_of(a, k), f)


def np_any(e, a, k):
    return np_all(e, a, k, True)


def np_argext(ge):
    def f(e, a, k):
        def g(n, t, b):
            if not e.truth(num.cmp(">", n, 0)):
                e.throw("ValueError", "empty sequence")
            b = to_z3(num.norm(b))
            i = e.agg("F:argmax" if ge else "F:argmin", t, b, z3.IntSort())(n)
            if mentions_arrvar(b):
                raise Unsupported("argmin along an axis")
            at = e.subst(b, [(t, i)])
            e.facts.append(z3.And(i >= 0, i < to_z3(n)))
            kk = e.fresh_index("am")
            bk = e.subst(b, [(t, kk)])
            e.assume_all((kk,), z3.Implies(z3.And(kk >= 0, kk < to_z3(n)), (at >= bk) if ge else (at <= bk)))
            e.assume_all((kk,), z3.Implies(z3.And(kk >= 0, kk < i), (at > bk) if ge else (at < bk)))
            return i
        return e.reduce(a[0], axis_of(a, k), g)
    return f


def argsort_perm(e, a):
    """(n, p) with p a sorting permutation of the 1-d array value"""
    n = to_z3(a.shape[0])
    body = to_z3(num.norm(a.body))
    f = e.agg("F:argsort", arrvar(0), body, z3.IntSort())
    key = ("argsort", f(n).decl().name(), tuple(x.get_id() for x in f(n).children()))
    pn = f(n).decl().name()
    ps = f(n).children()
    p = z3.Function(pn + "p", *([z3.IntSort()] * (len(ps) + 1)), z3.IntSort())
    q = z3.Function(pn + "q", *([z3.IntSort()] * (len(ps) + 1)), z3.IntSort())
    P, Q = (lambda i: p(*ps, i)), (lambda i: q(*ps, i))
    i, j = e.fresh_index("pi"), e.fresh_index("pj")
    e.keep.append(f(n))
    at = lambda i: e.subst(body, [(arrvar(0), P(i))])
    r = lambda x: z3.And(x >= 0, x < n)
    e.assume_all((i,), z3.Implies(r(i), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)))
    e.assume_all((i,), z3.Implies(r(i), z3.And(Q(i) >= 0, Q(i) < n, P(Q(i)) == i)))
    e.assume_all((i, j), z3.Implies(z3.And(r(i), r(j), i <= j), at(i) <= at(j)))
    return P


def np_argsort(e, a, k):
    if k and k.get("axis", -1) not in (-1, 0):
        raise Unsupported("argsort options")
    x = e.to_arr(a[0])
    if len(x.shape) != 1:
        raise Unsupported("argsort of a matrix")
    n = x.shape[0]
    if isinstance(n, int) and n <= 1:
        return e.arr_new((n,), 0)
    P = argsort_perm(e, x)
    return e.arr_new((n,), P(arrvar(0)))


def np_sort(e, a, k):
    x = e.to_arr(a[0])
    if k and k.get("axis", -1) not in (-1, 0):
        raise Unsupported("sort options")
    if len(x.shape) != 1:
        raise Unsupported("sort of a matrix")
    n = x.shape[0]
    if isinstance(n, int) and n <= 1:
        return e.from_arrv(x)
    P = argsort_perm(e, x)
    return e.arr_new((n,), e.subst(x.body, [(x.vars[0], P(arrvar(0)))]))


def arr_sort_inplace(e, a, k):
    e.arr_assign(a[0], np_sort(e, a, k))


def np_cumsum(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) != 1:
        raise Unsupported("cumsum of a matrix")
    t = e.fresh_index("t")
    b = to_z3(num.norm(e.subst(x.body, [(x.vars[0], t)])))
    return e.arr_new(x.shape, e.mk_sum(arrvar(0) + 1, t, b) if not (isinstance(x.shape[0], int) and x.shape[0] <= 8) else small_cumsum(e, x))


def small_cumsum(e, x):
    vals, s = [], 0
    for i in range(x.shape[0]):
        s = num.add(s, e.elem(x, [i]))
        vals.append(s)
    b = vals[-1] if vals else Fraction(0)
    for i in range(len(vals) - 2, -1, -1):
        b = num.ite(arrvar(0) == i, vals[i], b)
    return b


def np_diff(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) != 1:
        raise Unsupported("diff of a matrix")
    return e.arr_new((num.sub(x.shape[0], 1),), num.sub(e.subst(x.body, [(x.vars[0], arrvar(0) + 1)]), x.body))


def np_append(e, a, k):
    x, y = e.to_arr(a[0]), e.to_arr(a[1])
    if k.get("axis") is None and len(a) < 3:
        x, y = (z if len(z.shape) == 1 else e.to_arr(np_ravel(e, [e.from_arrv(z)], {})) for z in (x, y))
    return e.from_arrv(concat(e, x, y, arg(a, k, 2, "axis", 0) or 0))


def concat(e, x, y, ax=0):
    if len(x.shape) != len(y.shape) or not x.shape:
        e.throw("ValueError", "dimensions must match")
    n = x.shape[ax]
    for d in range(len(x.shape)):
        if d != ax and not e.dim_eq(x.shape[d], y.shape[d]):
            e.throw("ValueError", "dimensions must match")
    if isinstance(n, int) and n == 0:
        return y
    v = x.vars[ax]
    yb = e.subst(y.body, [(p, num.sub(q, n) if q is v else q) for p, q in zip(y.vars, x.vars) if q is v or not same(p, q)])
    sh = list(x.shape)
    sh[ax] = num.add(n, y.shape[ax])
    if isinstance(y.shape[ax], int) and y.shape[ax] == 0:
        return x
    return ArrV(sh, x.vars, e.elem_ite(v < to_z3(n), x.body, yb))


def np_concatenate(e, a, k):
    ax = axis_of(a, k) or 0
    parts = [e.to_arr(x) for x in e.unpack(a[0])]
    r = parts[0]
    for p in parts[1:]:
        r = concat(e, r, p, ax)
    return e.from_arrv(r)


def np_vstack(e, a, k):
    parts = [e.to_arr(x) for x in e.unpack(a[0])]
    parts = [p if len(p.shape) == 2 else ArrV((1,) + tuple(p.shape), [arrvar(0), arrvar(1)], e.shift_vars(p, 1)) for p in parts]
    r = parts[0]
    for p in parts[1:]:
        r = concat(e, r, p)
    return e.from_arrv(r)


def np_insert(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) != 1:
        if len(x.shape) == 2 and arg(a, k, 3, "axis", None) == 0:
            n = x.shape[0]
            i = number(e, a[1])
            if e.truth(num.cmp("<", i, 0)):
                i = num.add(i, n)
            if not e.truth(land(num.cmp(">=", i, 0), num.cmp("<=", i, n))):
                e.throw("IndexError")
            row = e.to_arr(a[2])
            if len(row.shape) == 2:
                row = e.to_arr(e.arr_get(a[2], 0))
            rb = e.shift_vars(row, 1) if row.shape else row.body
            v = arrvar(0)
            iz = to_z3(i)
            body = num.ite(v < iz, x.body, num.ite(v == iz, rb, e.subst(x.body, [(v, v - 1)])))
            return e.arr_new((num.add(n, 1),) + tuple(x.shape[1:]), body)
        raise Unsupported("insert into a matrix")
    i, v = number(e, a[1]), number(e, a[2])
    n = x.shape[0]
    if e.truth(num.cmp("<", i, 0)):
        i = num.add(i, n)
    if not e.truth(land(num.cmp(">=", i, 0), num.cmp("<=", i, n))):
        e.throw("IndexError")
    w = arrvar(0)
    iz = to_z3(i)
    return e.arr_new((num.add(n, 1),), num.ite(w < iz, x.body, num.ite(w == iz, v, e.subst(x.body, [(w, w - 1)]))))


def np_delete(e, a, k):
    x = e.to_arr(a[0])
    ax = arg(a, k, 2, "axis", None)
    if len(x.shape) > 1 and ax != 0:
        raise Unsupported("delete")
    i = number(e, a[1])
    n = x.shape[0]
    i = e.norm_index(i, n)
    v = arrvar(0)
    return e.arr_new((num.sub(n, 1),) + tuple(x.shape[1:]), num.ite(v < to_z3(i), x.body, e.subst(x.body, [(v, v + 1)])))


def np_full(val):
    def f(e, a, k):
        sh = a[0] if a else k["shape"]
        sh = list(e.unpack(sh)) if isinstance(sh, (Tup, Ref)) else [sh]
        sh = [number(e, s) for s in sh]
        for s in sh:
            if e.truth(num.cmp("<", s, 0)):
                e.throw("ValueError", "negative dimensions")
        dt = arg(a, k, 1, "dtype", None) if val is not None else None
        if val == "empty":
            g = e.fresh_fun("garbage", len(sh))
            return e.arr_new(sh, g(*[arrvar(i) for i in range(len(sh))]) if sh else g())
        v = Fraction(val) if val is not None else number(e, a[1])
        if dt is not None and (dt is INT or dt == "int" or isinstance(dt, str) and "int" in dt):
            v = int(v)
        if dt is BOOL:
            v = bool(v)
        return e.arr_new(sh, v)
    return f


def np_like(val):
    def f(e, a, k):
        x = e.to_arr(a[0])
        if val == "empty":
            g = e.fresh_fun("garbage", len(x.shape))
            return e.arr_new(x.shape, g(*[arrvar(i) for i in range(len(x.shape))]) if x.shape else g())
        return e.arr_new(x.shape, Fraction(val) if val is not None else number(e, a[1]))
    return f


def np_array(e, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.cls is DICT or isinstance(v, (str, SStr)) or v is None:
        raise Unsupported("object array")
    x = e.to_arr(v)
    if not x.shape:
        return e.arr_new((), x.body) if not is_num(v) else e.arr_new((), v)
    return e.from_arrv(x)


def np_asarray(e, a, k):
    return a[0] if e.is_arr(a[0]) else np_array(e, a, k)


def np_arange(e, a, k):
    s = NAMED["range"].fn(e, a, {})
    return e.from_arrv(e.to_arr(s))


def np_linspace(e, a, k):
    lo, hi = number(e, a[0]), number(e, a[1])
    n = number(e, arg(a, k, 2, "num", 50))
    if k.get("endpoint", True) is not True:
        raise Unsupported("linspace options")
    if isinstance(n, int) and n == 1:
        return e.arr_new((1,), real(lo))
    return e.arr_new((n,), num.add(lo, num.rdiv(num.mul(real(arrvar(0)), num.sub(hi, lo)), real(num.sub(n, 1)))))


def np_geomspace(e, a, k):
    lo, hi = number(e, a[0]), number(e, a[1])
    n = number(e, arg(a, k, 2, "num", 50))
    if e.truth(num.cmp("<", n, 0)):
        e.throw("ValueError", "number of samples must be non-negative")
    if e.truth(lor(num.cmp("==", lo, 0), num.cmp("==", hi, 0))):
        e.throw("ValueError", "geometric sequence cannot include zero")
    if isinstance(n, int) and n <= 0:
        return e.arr_new((0,), Fraction(0))
    g = z3.Function("geomspace", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    L, H, N = real(lo), real(hi), to_z3(n)
    i, j = e.fresh_index("gi"), e.fresh_index("gj")
    v = arrvar(0)
    t = lambda x: g(L, H, N, x)
    rng = z3.And(i >= 0, i < N)
    e.facts.append(z3.Implies(N >= 1, t(z3.IntVal(0)) == L))
    e.facts.append(z3.Implies(N >= 2, t(N - 1) == H))
    e.assume_all((i,), z3.Implies(z3.And(rng, L > 0, H > 0), t(i) > 0))
    e.assume_all((i,), z3.Implies(z3.And(rng, L > 0, H >= L), z3.And(t(i) >= L, t(i) <= H)))
    e.assume_all((i, j), z3.Implies(z3.And(i >= 0, i < j, j < N, L > 0, H > L), t(i) < t(j)))
    e.assume_all((i, j), z3.Implies(z3.And(i >= 0, i <= j, j < N, L > 0, H >= L), t(i) <= t(j)))
    # constant ratio
    e.assume_all((i,), z3.Implies(z3.And(i >= 1, i + 1 < N, L > 0, H > 0), t(i) * t(i) == t(i - 1) * t(i + 1)))
    return e.arr_new((n,), t(v))


def np_eye(e, a, k):
    n = number(e, a[0])
    return e.arr_new((n, n), z3.If(arrvar(0) == arrvar(1), z3.RealVal(1), z3.RealVal(0)))


def np_diag(e, a, k):
    x = e.to_arr(a[0])
    if len(x.shape) == 1:
        return e.arr_new((x.shape[0], x.shape[0]), num.ite(arrvar(0) == arrvar(1), x.body, Fraction(0)))
    return e.arr_new((x.shape[0],), e.subst(x.body, [(x.vars[1], arrvar(0))]))


def np_where(e, a, k):
    if len(a) != 3:
        raise Unsupported("np.where")
    c = e.to_arr(a[0])
    x, y = a[1], a[2]
    r = e.arr_bin(lambda p, q: q, e.from_arrv(c) if c.shape else c.body, x)
    if not e.is_arr(r) and not e.is_arr(y):
        return e.merge2(num.boolz(c.body), r, y)
    xx, yy = e.to_arr(x), e.to_arr(y)
    sh = None
    for z in (c, xx, yy):
        if z.shape and (sh is None or len(z.shape) > len(sh)):
            sh = z.shape
    g = lambda z: z.body if not z.shape else z.body
    if any(z.shape and not all(same(p, q) for p, q in zip(z.shape, sh)) for z in (c, xx, yy)):
        raise Unsupported("np.where broadcasting")
    return e.arr_new(sh, num.ite(num.boolz(c.body), xx.body, yy.body))


def np_tile(e, a, k):
    x = e.to_arr(a[0])
    n = number(e, a[1])
    if len(x.shape) == 1:
        m = x.shape[0]
        return e.arr_new((num.mul(m, n),), e.subst(x.body, [(x.vars[0], arrvar(0) % to_z3(m))]))
    raise Unsupported("tile")


def ew(f):
    def g(e, a, k):
        v = a[0]
        if e.is_arr(v) or isinstance(v, Ref) and v.cls is LIST or isinstance(v, Tup):
            return e.arr_map(lambda x: f(e, x, True), v)
        return f(e, number(e, v), True)
    return g


def t_log(e, x, arr=False):
    x = num.norm(x)
    if isinstance(x, float):
        return x if x > 0 else NAN
    if num.is_const(x):
        if x == 1:
            return Fraction(0)
        if x <= 0:
            if arr:
                return -INF if x == 0 else NAN
            e.throw("ValueError", "math domain error")
        return LOG(z3.RealVal(x))
    if mentions_arrvar(x):
        return LOG(real(x))
    if not e.decide(x > 0):
        if arr:
            return -INF if e.decide(x == 0) else NAN
        e.throw("ValueError", "math domain error")
    return LOG(real(x))


def t_exp(e, x, arr=False):
    x = num.norm(x)
    if isinstance(x, float):
        return Fraction(0) if x < 0 else x
    if num.is_const(x) and x == 0:
        return Fraction(1)
    return EXP(real(x))


def t_sqrt(e, x, arr=False):
    x = num.norm(x)
    if is_z3(x) and not mentions_arrvar(x):
        if not e.decide(x >= 0):
            if arr:
                return NAN
            e.throw("ValueError", "math domain error")
    elif num.is_const(x) and x < 0:
        if arr:
            return NAN
        e.throw("ValueError", "math domain error")
    return sqrt_term(x)


def t_isnan(e, x, arr=False):
    return isinstance(x, float) and x != x


def t_isinf(e, x, arr=False):
    return isinstance(x, float) and x in (INF, -INF)


def t_isfinite(e, x, arr=False):
    return not isinstance(x, float)


def m1(f):
    return lambda e, a, k: f(e, number(e, a[0]))


def t_floor(e, x, arr=False):
    if isinstance(x, (int, Fraction)):
        import math
        return math.floor(x)
    return x if x.is_int() else z3.ToInt(x)


def t_ceil(e, x, arr=False):
    return num.neg(t_floor(e, num.neg(x)))


def np_linalg_norm(e, a, k):
    x = e.to_arr(a[0])
    ax = arg(a, k, 2, "axis", None)
    sq = e.arr_new(x.shape, num.mul(x.body, x.body)) if x.shape else num.mul(x.body, x.body)
    s = np_sum(e, [sq], {"axis": ax}) if x.shape else sq
    return e.arr_map(lambda v: sqrt_term(v), s) if e.is_arr(s) else sqrt_term(s)


def np_clip(e, a, k):
    lo, hi = a[1], a[2]

    def f(x):
        if lo is not None:
            x = num.ite(num.cmp("<", x, lo), lo, x)
        if hi is not None:
            x = num.ite(num.cmp(">", x, hi), hi, x)
        return x
    return e.arr_map(f, a[0]) if e.is_arr(a[0]) else f(number(e, a[0]))


def np_maximum(ge):
    def f(e, a, k):
        g = lambda x, y: num.ite(num.cmp(">=" if ge else "<=", x, y), x, y)
        return e.arr_bin(g, a[0], a[1])
    return f


def np_searchsorted(e, a, k):
    side = arg(a, k, 2, "side", "left")
    if e.is_arr(a[1]) and e.arr(a[1]).shape not in ((1,), ()):
        raise Unsupported("searchsorted with several values")
    return bisect(e, a[0], e.scalar(a[1]), side == "left")


def bisect(e, seq, x, left):
    a = e.to_arr(seq)
    n = a.shape[0]
    i = e.fresh("bisect", z3.IntSort())
    nz = to_z3(n)
    at = lambda j: to_z3(e.subst(a.body, [(a.vars[0], j)]))
    xz = to_z3(number(e, x))
    e.facts.append(z3.And(i >= 0, i <= nz))
    lt = (lambda v: v < xz) if left else (lambda v: v <= xz)
    e.facts.append(z3.Or(i == 0, lt(at(i - 1))))
    e.facts.append(z3.Or(i == nz, z3.Not(lt(at(i)))))
    p, q = z3.Int("$b1"), z3.Int("$b2")
    with Saved(e):
        e.facts += [p >= 0, p <= q, q < nz]
        srt = e.prove(at(p) <= at(q), 1, 2000) == "proved"
    if srt:
        k = e.fresh_index("bi")
        e.assume_all((k,), z3.Implies(z3.And(k >= 0, k < i), lt(at(k))))
        e.assume_all((k,), z3.Implies(z3.And(k >= i, k < nz), z3.Not(lt(at(k)))))
    return i


def np_isscalar(e, a, k):
    v = a[0]
    return is_num(v) or z3.is_bool(v) or isinstance(v, (str, SStr))


def np_ndim(e, a, k):
    return len(e.to_arr(a[0]).shape)


def np_size(e, a, k):
    n = 1
    for d in e.to_arr(a[0]).shape:
        n = num.mul(n, d)
    return n


def np_shape(e, a, k):
    return Tup(e.to_arr(a[0]).shape)


def np_array_equal(e, a, k):
    x, y = e.to_arr(a[0]), e.to_arr(a[1])
    if len(x.shape) != len(y.shape):
        return False
    for p, q in zip(x.shape, y.shape):
        if not e.dim_eq(p, q):
            return False
    r = e.arr_bin(lambda p, q: num.cmp("==", p, q), a[0], a[1])
    return np_all(e, [r], {}) if e.is_arr(r) else r


def np_dot(e, a, k):
    x, y = e.to_arr(a[0]), e.to_arr(a[1])
    if not x.shape or not y.shape:
        return e.arr_bin(lambda p, q: num.mul(p, q), a[0], a[1])
    return e.matmul(a[0], a[1])


def np_outer(e, a, k):
    x, y = e.to_arr(a[0]), e.to_arr(a[1])
    return e.arr_new((x.shape[0], y.shape[0]), num.mul(x.body, e.subst(y.body, [(y.vars[0], arrvar(1))])))


def np_ix(e, a, k):
    raise Unsupported("np.ix_")


def np_flatnonzero(e, a, k):
    raise Unsupported("flatnonzero")


def np_expand(e, a, k):
    x = e.to_arr(a[0])
    return e.arr_get(a[0], Tup([None, slice(None, None, None)])) if a[1] == 0 else e.arr_get(a[0], Tup([slice(None, None, None), None]))


ARRM = {"copy": np_copy, "ravel": np_ravel, "flatten": np_ravel, "tolist": np_tolist, "item": np_item, "sum": np_sum, "mean": np_mean,
        "std": np_std, "var": np_var, "max": np_max, "min": np_min, "all": np_all, "any": np_any, "sort": arr_sort_inplace,
        "argsort": np_argsort, "cumsum": np_cumsum, "reshape": np_reshape, "transpose": np_transpose, "dot": np_dot,
        "argmin": np_argext(False), "argmax": np_argext(True), "astype": lambda e, a, k: np_astype(e, a, k), "squeeze": np_ravel,
        "clip": np_clip, "fill": lambda e, a, k: e.arr_set(a[0], slice(None, None, None), a[1])}


def np_astype(e, a, k):
    x = e.arr(a[0])
    if a[1] is INT or a[1] == "int":
        if is_z3(x.body) and x.body.is_int() or isinstance(x.body, int):
            return e.from_arrv(x)
        raise Unsupported("astype int")
    return e.arr_new(x.shape, real(x.body) if not isinstance(x.body, float) else x.body)


# ---------------------------------------------------------------------- random numbers
def draw(e, kind, params, v):
    r = e.rng
    if isinstance(e.heap.get((r.fam, "list")), Poison) and isinstance(e.heap[(r.fam, "list")].why, str):
        return v                 # the record of draws was lost in a loop; a specification that reads it is undecided
    cur = e.rd(r, "list")
    e.put(r, "list", SeqV(cur.segs + (El(Tup((kind,) + tuple(params) + (v,))),)))
    return v


def d_unit(e, a, k):
    if a and a[0] is not None or k:
        raise Unsupported("array of unit draws")
    v = e.fresh("u")
    e.facts.append(z3.And(v > 0, v < 1))
    return draw(e, "uniform", (Fraction(0), Fraction(1)), v)


def one_uniform(e, lo, hi):
    lo, hi = number(e, lo), number(e, hi)
    v = e.fresh("u")
    if num.is_inf(lo) or num.is_inf(hi):
        raise Unsupported("uniform draw from an unbounded interval")
    L, H = real(lo), real(hi)
    e.facts.append(z3.Implies(L <= H, z3.And(v >= L, v <= H)))
    e.facts.append(z3.Implies(L > H, z3.And(v >= H, v <= L)))
    return draw(e, "uniform", (lo, hi), v)


def one_normal(e, mu, sd):
    mu, sd = number(e, mu), number(e, sd)
    v = e.fresh("z")
    return draw(e, "normal", (mu, sd), v)


def one_laplace(e, mu, b):
    mu, b = number(e, mu), number(e, b)
    v = e.fresh("lap")
    return draw(e, "laplace", (mu, b), v)


def sized(one):
    def f(e, a, k):
        p = [arg(a, k, 0, "low", k.get("loc", Fraction(0))), arg(a, k, 1, "high", k.get("scale", Fraction(1)))]
        size = arg(a, k, 2, "size", None)
        if size is None and not any(e.is_arr(x) or isinstance(x, Tup) or isinstance(x, Ref) for x in p):
            return one(e, *p)
        ps = [e.to_arr(x) for x in p]
        if size is None:
            size = next(x.shape for x in ps if x.shape)
            size = size[0] if len(size) == 1 else Tup(size)
        if isinstance(size, Tup):
            if len(size.items) == 1:
                size = size.items[0]
            else:
                raise Unsupported("matrix of draws")
        n = number(e, size)
        at = lambda x, i: x.body if not x.shape or (x.shape == (1,) and False) else e.elem(x, [i if not (isinstance(x.shape[0], int) and x.shape[0] == 1) else 0])
        for x in ps:
            if x.shape and not e.truth(lor(num.cmp("==", x.shape[0], n), num.cmp("==", x.shape[0], 1))):
                e.throw("ValueError", "shape mismatch")
        if isinstance(n, int) and n <= 8:
            vs = [one(e, *[at(x, i) for x in ps]) for i in range(n)]
            return e.from_arrv(e.to_arr(e.mklist([El(v) for v in vs])))
        r = e.mklist(())
        e.loop_over(NAMED["range"].fn(e, [n], {}), lambda i: e.append(r, one(e, *[at(x, i) for x in ps])), "draws")
        return e.from_arrv(e.to_arr(r))
    return f


def d_randint(e, a, k):
    lo, hi = number(e, a[0]), number(e, a[1])
    if e.truth(num.cmp(">", lo, hi)):
        e.throw("ValueError", "empty range for randint")
    v = e.fresh("ri", z3.IntSort())
    e.facts.append(z3.And(v >= to_z3(lo), v <= to_z3(hi)))
    return draw(e, "randint", (lo, hi), v)


def d_randrange(e, a, k):
    if len(a) == 1:
        return d_randint(e, [0, num.sub(number(e, a[0]), 1)], {})
    return d_randint(e, [a[0], num.sub(number(e, a[1]), 1)], {})


def d_np_randint(e, a, k):
    size = arg(a, k, 2, "size", None)
    if size is not None:
        raise Unsupported("array of integer draws")
    hi = arg(a, k, 1, "high", None)
    if hi is None:
        return d_randrange(e, [a[0]], {})
    return d_randrange(e, [a[0], hi], {})


def d_choice(e, a, k):
    seq = e.mklist(e.segments(a[0])) if isinstance(a[0], IterV) else a[0]
    n = e.length(seq)
    if not e.truth(num.cmp(">", n, 0)):
        e.throw("IndexError", "Cannot choose from an empty sequence")
    v = d_randint(e, [0, num.sub(n, 1)], {})
    return e.getitem(seq, v)


def d_choices(e, a, k):
    pop = e.mklist(e.segments(a[0])) if isinstance(a[0], IterV) else a[0]
    w = arg(a, k, 1, "weights", None)
    kk = k.get("k", 1)
    if "cum_weights" in k:
        raise Unsupported("cum_weights")
    n = e.length(pop)
    if not e.truth(num.cmp(">", n, 0)):
        e.throw("IndexError", "Cannot choose from an empty sequence")
    if w is not None:
        m = e.length(w)
        if not e.truth(num.cmp("==", n, m)):
            e.throw("ValueError", "The number of weights does not match the population")
        w = e.mklist(e.segments(w))
    if not isinstance(kk, int):
        raise Unsupported("choices with a symbolic k")
    out = []
    for _ in range(kk):
        v = e.fresh("ci", z3.IntSort())
        e.facts.append(z3.And(v >= 0, v < to_z3(n)))
        if w is None:
            draw(e, "randint", (0, num.sub(n, 1)), v)
        else:
            draw(e, "choices", (w,), v)
            x = e.getitem(w, v)
            e.facts.append(num.boolz(num.cmp(">", x, 0)) if not isinstance(num.cmp(">", x, 0), bool) else z3.BoolVal(num.cmp(">", x, 0)))
        out.append(El(e.getitem(pop, v)))
    return e.mklist(out)


def d_np_choice(e, a, k):
    size = arg(a, k, 1, "size", None)
    rep = arg(a, k, 2, "replace", True)
    p = arg(a, k, 3, "p", None)
    n = a[0] if is_num(a[0]) else e.length(a[0])
    n = number(e, n)
    if p is not None:
        raise Unsupported("np.random.choice with probabilities")
    at = (lambda i: i) if is_num(a[0]) else (lambda i: e.getitem(a[0], i))
    if size is None:
        return at(d_randint(e, [0, num.sub(n, 1)], {}))
    if isinstance(size, int) and size <= 4:
        if rep is False and e.truth(num.cmp("<", n, size)):
            e.throw("ValueError", "larger sample than population")
        vs = []
        for _ in range(size):
            v = e.fresh("ci", z3.IntSort())
            e.facts.append(z3.And(v >= 0, v < to_z3(n)))
            if rep is False:
                for u in vs:
                    e.facts.append(v != u)
            vs.append(v)
        draw(e, "sample" if rep is False else "sample_replace", (n,), Tup(vs))
        if all(is_num(at(v)) for v in vs):
            return e.from_arrv(e.to_arr(e.mklist([El(at(v)) for v in vs])))
        return e.mklist([El(at(v)) for v in vs])
    raise Unsupported("np.random.choice")


def d_sample(e, a, k):
    n = e.length(a[0])
    m = arg(a, k, 1, "k")
    if not (isinstance(m, int) and m <= 4):
        raise Unsupported("random.sample")
    if e.truth(num.cmp("<", n, m)):
        e.throw("ValueError", "Sample larger than population or is negative")
    vs = []
    for _ in range(m):
        v = e.fresh("ci", z3.IntSort())
        e.facts.append(z3.And(v >= 0, v < to_z3(n)))
        for u in vs:
            e.facts.append(v != u)
        vs.append(v)
    draw(e, "sample", (n,), Tup(vs))
    return e.mklist([El(seq_get(e, a[0], v)) for v in vs])


def seq_get(e, s, v):
    return e.seq_at(s.segs, v) if isinstance(s, IterV) else e.getitem(s, v)


def shuffle(e, a, k):
    r = a[0]
    n = to_z3(e.length(r))
    P = e.fresh_fun("shuf", 1, z3.IntSort())
    Q = e.fresh_fun("shufinv", 1, z3.IntSort())
    i = e.fresh_index("si")
    rg = lambda x: z3.And(x >= 0, x < n)
    e.assume_all((i,), z3.Implies(rg(i), z3.And(rg(P(i)), Q(P(i)) == i)))
    e.assume_all((i,), z3.Implies(rg(i), z3.And(rg(Q(i)), P(Q(i)) == i)))
    draw(e, "shuffle", (n,), None)
    if e.is_arr(r):
        x = e.arr(r)
        e.put(r, "data", ArrV(x.shape, x.vars, e.subst(x.body, [(x.vars[0], P(x.vars[0]))])))
        return None
    segs = e.rd(r, "list").segs
    if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].cond is None:
        s = segs[0]
        e.put(r, "list", SeqV([Seg(s.n, s.k, e.subst(s.v, [(s.k, P(s.k))]))]))
        return None
    raise Unsupported("shuffle")


# ---------------------------------------------------------------------- other libraries
def f_namedtuple(e, a, k):
    fields = a[1].replace(",", " ").split() if isinstance(a[1], str) else [x for x in e.unpack(a[1])]
    c = PyClass(a[0], (TUPLE,), {})
    dfl = {}
    if "defaults" in k and k["defaults"] is not None:
        ds = e.unpack(k["defaults"])
        dfl = dict(zip(fields[len(fields) - len(ds):], ds))
    c.nt = (fields, dfl)
    return c


def f_dataclass(e, a, k):
    if not a:
        if k.get("eq") is False or True:
            return Bi("dataclass", lambda e, a, k2: f_dataclass(e, a, {}))
    c = a[0]
    fields = {}
    for b in reversed(c.mro[1:]):
        if b.fields:
            fields.update(b.fields)
    for n in getattr(c, "ann", []):
        if n in c.ns:
            v = c.ns[n]
            if isinstance(v, FieldV):
                fields[n] = ("factory", v.factory) if v.factory is not None else ("value", v.default) if v.default is not MISSING else ("none", None)
                if v.default is MISSING:
                    del c.ns[n]
                else:
                    c.ns[n] = v.default
            else:
                fields[n] = ("value", v)
        else:
            fields[n] = ("none", None)
    c.fields = fields
    return c


class FieldV:
    def __init__(self, factory, default):
        self.factory, self.default = factory, default


def f_field(e, a, k):
    return FieldV(k.get("default_factory"), k.get("default", MISSING))


def f_partial(e, a, k):
    return PartialV(a[0], a[1:], k)


def f_wraps(e, a, k):
    return NAMED["identity"]


def f_reduce(e, a, k):
    acc = [a[2]] if len(a) > 2 else []
    for s in e.segments(a[1]):
        if not isinstance(s, El):
            raise Unsupported("reduce")
        acc = [s.v] if not acc else [e.call(a[0], [acc[0], s.v])]
    return acc[0]


def f_defaultdict(e, a, k):
    r = e.mkdict()
    e.heap[(r.fam, "factory")] = a[0] if a else None
    if len(a) > 1:
        e.dict_update(r, a[1])
    return r


def f_deepcopy(e, a, k):
    memo = {}

    def go(v):
        if isinstance(v, Ref):
            if v.cls.native == "opaque" or isinstance(v.cls, PyClass) and v.cls is FRAME:
                return v
            if v.idx:
                raise Unsupported("deepcopy of a family of objects")
            if v.fam in memo:
                return memo[v.fam]
            r = e.new(v.cls)
            memo[v.fam] = r
            for (f, c), x in list(e.heap.items()):
                if f == v.fam:
                    e.heap[(r.fam, c)] = go(e.get(v, c))
            return r
        if isinstance(v, Tup):
            return Tup([go(x) for x in v.items], v.cls)
        if isinstance(v, SeqV):
            out = []
            for s in v.segs:
                if isinstance(s, El):
                    out.append(El(go(s.v)))
                elif isinstance(s, Seg) and not refs_in(s.v):
                    out.append(s)
                else:
                    raise Unsupported("deepcopy of a symbolic collection of objects")
            return SeqV(out)
        if isinstance(v, DictV):
            if any(not isinstance(x, Item) and refs_in(x) for x in v.ents):
                raise Unsupported("deepcopy of a symbolic dictionary")
            return v
        return v
    return go(a[0])


def refs_in(v):
    if isinstance(v, Ref):
        return True
    if isinstance(v, (Tup,)):
        return any(refs_in(x) for x in v.items)
    if isinstance(v, (Seg, Grp, SymItem, El)):
        return refs_in(v.v)
    if isinstance(v, Choice):
        return any(refs_in(x) for _, x in v.alts)
    return False


def f_copy(e, a, k):
    v = a[0]
    if isinstance(v, Ref):
        if v.cls is LIST:
            return e.mklist(e.rd(v, "list").segs)
        if v.cls is DICT:
            return e.dict_copy(v)
        if v.cls is NDARRAY:
            return np_copy(e, [v], {})
        if v.cls.has("__copy__"):
            return e.call(e.getattr(v, "__copy__"), [])
        r = e.new(v.cls)
        for (f, c), x in list(e.heap.items()):
            if f == v.fam:
                e.heap[(r.fam, c)] = e.get(v, c)
        return r
    return v


def f_parallel(e, a, k):
    def run(e, b, kk):
        r = e.mklist(())

        def one(v):
            if not isinstance(v, PartialV):
                raise Unsupported("joblib task")
            e.append(r, e.call(v.f, list(v.args), v.kw))
        e.loop_over(b[0], one, "joblib.Parallel")
        return r
    return Bi("joblib.Parallel()", run)


def f_delayed(e, a, k):
    return Bi("joblib.delayed()", lambda e, b, kk: PartialV(a[0], b, kk))


def opaque_call(name):
    return Bi(name, lambda e, a, k: opaque(e, name))


def opaque(e, name):
    return e.new(OPAQUE)


def make_kdtree(e, c, a, k):
    r = e.new(KDTREE)
    x = e.to_arr(a[0])
    e.heap[(r.fam, "sites")] = e.from_arrv(x)
    return r


def kd_query(e, a, k):
    """nearest stored site of each query point (ties unspecified)"""
    r, q = a[0], a[1]
    if len(a) > 2 or set(k) - {"k", "workers"} or k.get("k", 1) != 1:
        raise Unsupported("KDTree query options")
    s = e.arr(e.rd(r, "sites"))
    x = e.to_arr(q)
    n, d = s.shape[0], s.shape[1]
    if not isinstance(d, int):
        raise Unsupported("KDTree of symbolic dimension")
    if not e.truth(num.cmp("==", x.shape[-1], d)):
        e.throw("ValueError", "x must consist of vectors of length of the tree dimension")
    one = len(x.shape) == 1
    f = e.fresh_fun("kdnn", 0 if one else 1, z3.IntSort())
    g = e.fresh_fun("kdist", 0 if one else 1)
    v = [] if one else [e.fresh_index("kq")]
    i = f(*v)
    m = e.fresh_index("km")

    def dist(j):
        t = z3.RealVal(0)
        for c in range(d):
            df = real(num.sub(e.subst(s.body, [(s.vars[0], j), (s.vars[1], c)]),
                              e.subst(x.body, [(p, w) for p, w in zip(x.vars, v + [z3.IntVal(c)])])))
            t = t + df * df
        return t
    rng = [z3.And(v[0] >= 0, v[0] < to_z3(x.shape[0]))] if v else []
    fact = z3.And(i >= 0, i < to_z3(n), g(*v) >= 0, g(*v) * g(*v) == dist(i))
    near = z3.Implies(z3.And(m >= 0, m < to_z3(n), *rng), dist(i) <= dist(m))
    if v:
        e.assume_all(tuple(v), z3.Implies(rng[0], fact))
    else:
        e.facts.append(fact)
    e.assume_all(tuple(v) + (m,), near)
    if one:
        return Tup((g(), f()))
    return Tup((e.arr_new((x.shape[0],), g(arrvar(0))), e.arr_new((x.shape[0],), f(arrvar(0)))))


def make_lnd(e, a, k):
    """scipy's piecewise linear interpolation of scattered points: NaN outside their convex hull, an unspecified
    function of the points, the values and the query inside"""
    p = list(a) + [k[n] for n in ("points", "values")[len(a):] if n in k]
    if len(p) != 2 or set(k) - {"points", "values"}:
        raise Unsupported("LinearNDInterpolator options")
    pts, vals = [e.from_arrv(e.to_arr(x)) for x in p]

    def query(e, a, k):
        from .verifier import pure
        x = a[0]
        inside = e.decide(pure(e, "scattered_inside", z3.BoolSort(), [pts, x]))
        return e.arr_new((1,), pure(e, "scattered_linear", z3.RealSort(), [pts, vals, x]) if inside else NAN)
    return Bi("LinearNDInterpolator()", query)


KDTREE.make = make_kdtree
KDTREE.ns["data"] = PropertyV(Bi("KDTree.data", lambda e, a, k: e.rd(a[0], "sites")))
KDTREE.ns["n"] = PropertyV(Bi("KDTree.n", lambda e, a, k: e.arr(e.rd(a[0], "sites")).shape[0]))
KDTREE.ns["query"] = Bi("KDTree.query", kd_query)


def make_point(e, c, a, k):
    r = e.new(POINT)
    x = e.to_arr(a[0]) if len(a) == 1 else e.to_arr(Tup(a))
    e.heap[(r.fam, "xy")] = Tup((e.elem(x, [0]), e.elem(x, [1])))
    return r


def make_poly(e, c, a, k):
    if isinstance(a[0], Ref) and a[0].cls is POLY:
        return a[0]
    r = e.new(POLY)
    pid = e.fresh("poly", z3.IntSort())
    e.heap[(r.fam, "pid")] = pid
    b = [e.fresh("bnd") for _ in range(4)]
    e.facts.append(z3.And(b[0] <= b[2], b[1] <= b[3]))
    e.heap[(r.fam, "bounds")] = Tup(b)
    return r


INPOLY = z3.Function("polygon_contains", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())


def poly_contains(e, a, k):
    p = e.rd(a[0], "pid")
    x, y = e.rd(a[1], "xy").items
    b = [real(v) for v in e.rd(a[0], "bounds").items]
    c = INPOLY(to_z3(p), real(x), real(y))
    e.facts.append(z3.Implies(c, z3.And(real(x) >= b[0], real(y) >= b[1], real(x) <= b[2], real(y) <= b[3])))
    return c


POINT.make = make_point
POLY.make = make_poly
POLY.ns["contains"] = Bi("Polygon.contains", poly_contains)
NDARRAY.make = None


class Library:
    """modules known to the interpreter"""

    def libs(self):
        E = self
        B = Bi

        def mod(name, **ns):
            m = Mod(name)
            m.ns.update(ns)
            return m
        f = lambda n, g: B(n, g)
        ms = {}
        ms["typing"] = TypingMod("typing")
        ms["numbers"] = mod("numbers", Number=NUMBER, Real=NUMBER, Integral=INT)
        ms["math"] = mod("math", log=f("log", m1(t_log)), exp=f("exp", m1(t_exp)), sqrt=f("sqrt", m1(t_sqrt)), pi=PI, inf=INF, nan=NAN,
                         isinf=f("isinf", m1(t_isinf)), isnan=f("isnan", m1(t_isnan)), isfinite=f("isfinite", m1(t_isfinite)),
                         floor=f("floor", m1(t_floor)), ceil=f("ceil", m1(t_ceil)), fabs=f("fabs", lambda e, a, k: num.absv(number(e, a[0]))),
                         pow=NAMED["pow"], log10=f("log10", m1(lambda e, x: num.rdiv(t_log(e, x), LOG(z3.RealVal(10))))),
                         log2=f("log2", m1(lambda e, x: num.rdiv(t_log(e, x), LOG(z3.RealVal(2))))),
                         log1p=f("log1p", m1(lambda e, x: t_log(e, num.add(x, 1)))), fsum=NAMED["sum"])
        ms["random"] = mod("random", random=f("random.random", d_unit), uniform=f("random.uniform", lambda e, a, k: one_uniform(e, *a)),
                           randint=f("random.randint", d_randint), randrange=f("random.randrange", d_randrange),
                           choice=f("random.choice", d_choice), choices=f("random.choices", d_choices), sample=f("random.sample", d_sample),
                           shuffle=f("random.shuffle", shuffle), seed=f("seed", lambda e, a, k: None),
                           normalvariate=f("random.normalvariate", lambda e, a, k: one_normal(e, arg(a, k, 0, "mu", Fraction(0)), arg(a, k, 1, "sigma", Fraction(1)))),
                           gauss=f("random.gauss", lambda e, a, k: one_normal(e, arg(a, k, 0, "mu", Fraction(0)), arg(a, k, 1, "sigma", Fraction(1)))))
        nr = mod("numpy.random", uniform=f("np.random.uniform", sized(one_uniform)), normal=f("np.random.normal", sized(one_normal)),
                 laplace=f("np.random.laplace", sized(one_laplace)), random=f("np.random.random", d_unit), rand=f("np.random.rand", d_unit),
                 randint=f("np.random.randint", d_np_randint), choice=f("np.random.choice", d_np_choice), seed=f("seed", lambda e, a, k: None),
                 shuffle=f("np.random.shuffle", shuffle),
                 permutation=f("np.random.permutation", lambda e, a, k: perm(e, a, k)),
                 randn=f("randn", lambda e, a, k: one_normal(e, 0, 1) if not a else sized(one_normal)(e, [0, 1, a[0]], {})),
                 standard_normal=f("standard_normal", lambda e, a, k: one_normal(e, 0, 1)))
        la = mod("numpy.linalg", norm=f("norm", np_linalg_norm))
        np = mod("numpy", random=nr, linalg=la, ndarray=NDARRAY, inf=INF, nan=NAN, pi=PI, newaxis=None, float64=FLOAT, int64=INT, intp=INT,
                 float32=FLOAT, int32=INT, bool_=BOOL, integer=INT, floating=FLOAT, number=NUMBER, double=FLOAT)
        fs = dict(array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, zeros=np_full(0), ones=np_full(1), empty=np_full("empty"),
                  full=np_full(None), zeros_like=np_like(0), ones_like=np_like(1), empty_like=np_like("empty"), full_like=np_like(None),
                  arange=np_arange, linspace=np_linspace, geomspace=np_geomspace, eye=np_eye, identity=np_eye, diag=np_diag, where=np_where, tile=np_tile,
                  log=ew(t_log), exp=ew(t_exp), sqrt=ew(t_sqrt), abs=NAMED["abs"].fn, absolute=NAMED["abs"].fn, isnan=ew(t_isnan), isinf=ew(t_isinf),
                  isfinite=ew(t_isfinite), square=ew(lambda e, x, arr: num.mul(x, x)), floor=ew(t_floor),
                  sum=np_sum, mean=np_mean, average=np_mean, std=np_std, var=np_var, median=np_median, percentile=np_percentile,
                  quantile=lambda e, a, k: np_percentile(e, a, k, "quantile"),
                  max=np_max, min=np_min, amax=np_max, amin=np_min, all=np_all, any=np_any, argmin=np_argext(False), argmax=np_argext(True),
                  argsort=np_argsort, sort=np_sort, cumsum=np_cumsum, diff=np_diff, append=np_append, concatenate=np_concatenate,
                  vstack=np_vstack, row_stack=np_vstack, insert=np_insert, delete=np_delete, ravel=np_ravel, reshape=np_reshape, transpose=np_transpose,
                  copy=np_copy, isscalar=np_isscalar, ndim=np_ndim, size=np_size, shape=np_shape, array_equal=np_array_equal, dot=np_dot, outer=np_outer,
                  clip=np_clip, maximum=np_maximum(True), minimum=np_maximum(False), searchsorted=np_searchsorted, flatnonzero=np_flatnonzero,
                  expand_dims=np_expand, atleast_1d=lambda e, a, k: a[0] if e.is_arr(a[0]) and e.arr(a[0]).shape else np_ravel(e, [a[0]], {}),
                  squeeze=lambda e, a, k: np_ravel(e, a, k), matmul=lambda e, a, k: e.matmul(a[0], a[1]),
                  stack=lambda e, a, k: np_array(e, [a[0]], {}),
                  add=lambda e, a, k: e.arr_bin(lambda x, y: num.add(x, y), a[0], a[1]),
                  logical_and=lambda e, a, k: e.arr_bin(lambda x, y: land(x, y), a[0], a[1]),
                  logical_or=lambda e, a, k: e.arr_bin(lambda x, y: lor(x, y), a[0], a[1]),
                  multiply=lambda e, a, k: e.arr_bin(lambda x, y: num.mul(x, y), a[0], a[1]))
        for n, g in fs.items():
            np.ns[n] = f("np." + n, g)
        ms["numpy"], ms["numpy.random"], ms["numpy.linalg"] = np, nr, la
        ms["bisect"] = mod("bisect", bisect_left=f("bisect_left", lambda e, a, k: bisect(e, a[0], e.scalar(a[1]), True)),
                           bisect_right=f("bisect_right", lambda e, a, k: bisect(e, a[0], e.scalar(a[1]), False)),
                           bisect=f("bisect", lambda e, a, k: bisect(e, a[0], e.scalar(a[1]), False)))
        ms["collections"] = mod("collections", namedtuple=f("namedtuple", f_namedtuple), defaultdict=f("defaultdict", f_defaultdict), OrderedDict=DICT)
        ms["dataclasses"] = mod("dataclasses", dataclass=f("dataclass", f_dataclass), field=f("field", f_field))
        ms["functools"] = mod("functools", partial=f("partial", f_partial), wraps=f("wraps", f_wraps), reduce=f("reduce", f_reduce),
                              lru_cache=f("lru_cache", lambda e, a, k: unsupported("lru_cache")))
        ms["abc"] = mod("abc", ABC=PyClass("ABC", (OBJECT,), {}), abstractmethod=NAMED["identity"], abstractproperty=NAMED["property"])
        ms["copy"] = mod("copy", deepcopy=f("deepcopy", f_deepcopy), copy=f("copy", f_copy))
        ms["warnings"] = mod("warnings", warn=f("warn", lambda e, a, k: None), catch_warnings=f("catch", lambda e, a, k: e.new(NULLCTX)),
                             simplefilter=f("sf", lambda e, a, k: None), filterwarnings=f("fw", lambda e, a, k: None))
        ms["pprint"] = mod("pprint", pformat=f("pformat", lambda e, a, k: "<pformat>"), pprint=f("pprint", lambda e, a, k: None))
        ms["itertools"] = mod("itertools", chain=Chain(), repeat=f("repeat", lambda e, a, k: IterV([Seg(a[1], e.fresh_index(), a[0])])),
                              count=f("count", lambda e, a, k: unsupported("itertools.count")))
        ms["operator"] = mod("operator")
        ms["traceback"] = mod("traceback", format_exc=f("format_exc", lambda e, a, k: "<tb>"), print_exc=f("pe", lambda e, a, k: None))
        ms["inspect"] = mod("inspect")
        ms["time"] = mod("time", time=f("time", lambda e, a, k: e.fresh("time")))
        ms["joblib"] = mod("joblib", Parallel=f("joblib.Parallel", f_parallel), delayed=f("joblib.delayed", f_delayed))
        sp = mod("scipy.spatial", KDTree=KDTREE, cKDTree=KDTREE, Voronoi=OPAQUE, Delaunay=OPAQUE, voronoi_plot_2d=opaque_call("plot"))
        si = mod("scipy.interpolate", LinearNDInterpolator=f("LinearNDInterpolator", make_lnd))
        ms["scipy"] = mod("scipy", spatial=sp, interpolate=si)
        ms["scipy.spatial"], ms["scipy.interpolate"] = sp, si
        sg = mod("shapely.geometry", Polygon=POLY, Point=POINT)
        ms["shapely"] = mod("shapely", geometry=sg)
        ms["shapely.geometry"] = sg
        plt = OpaqueMod("matplotlib.pyplot")
        ms["matplotlib"] = OpaqueMod("matplotlib")
        ms["matplotlib"].ns["pyplot"] = plt
        ms["matplotlib.pyplot"] = plt
        ms["__future__"] = mod("__future__", annotations=None, division=None)
        ms["os"] = OpaqueMod("os")
        ms["sys"] = OpaqueMod("sys")
        return ms


def unsupported(w):
    raise Unsupported(w)


def perm(e, a, k):
    n = number(e, a[0]) if not e.is_arr(a[0]) else e.length(a[0])
    r = np_arange(e, [n], {})
    shuffle(e, [r], {})
    return r if not e.is_arr(a[0]) else e.arr_get(a[0], r)


class Chain(Mod):
    def __init__(self):
        Mod.__init__(self, "itertools.chain")
        self.ns["from_iterable"] = Bi("from_iterable", lambda e, a, k: IterV([s for x in e.unpack(a[0]) for s in e.segments(x)]))


class TypingMod(Mod):
    class NS(dict):
        def __contains__(self, k):
            return True

        def __missing__(self, k):
            if k == "NamedTuple":
                raise Unsupported("typing.NamedTuple")
            return CALLABLE if k == "Callable" else TYPING

    def __init__(self, name):
        Mod.__init__(self, name)
        self.ns = self.NS()


class OpaqueMod(Mod):
    class NS(dict):
        def __contains__(self, k):
            return True

        def __missing__(self, k):
            return OPAQUE

    def __init__(self, name):
        Mod.__init__(self, name)
        self.ns = self.NS()
