"""paths, facts, heap, proofs"""
from fractions import Fraction
import os
import time
import z3
from . import num
from .num import INF, LOG, EXP, SQRT, PI, to_z3, real, land, lor, lnot
from .ring import Ring, Split, Give
from .values import *

MISSING = object()


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc, self.where = exc, where


class RetX(Exception):
    def __init__(self, v):
        self.v = v


class BrkX(Exception):
    pass


class ContX(Exception):
    pass


class QF:
    """for all vars (integers): fact"""
    __slots__ = ("vars", "fact", "pats", "done")

    def __init__(self, vars, fact):
        self.vars, self.fact, self.done = tuple(vars), fact, {}
        self.pats = self._pats()

    def _pats(self):
        ids = {v.get_id(): i for i, v in enumerate(self.vars)}
        out, seen, todo = [], set(), [self.fact]
        while todo:
            e = todo.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                m = {}
                for p, a in enumerate(e.children()):
                    b, c = base_off(a)
                    if b is not None and b.get_id() in ids:
                        m.setdefault(ids[b.get_id()], (p, c))
                if m:
                    out.append((e.decl().name(), m, e))
            todo.extend(e.children())
        full = [p for p in out if len(p[1]) == len(self.vars)]
        return full or out


def base_off(a):
    """a = base + const"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        a = a.children()[0]
    if z3.is_int_value(a):
        return None, a.as_long()
    if z3.is_add(a) and a.num_args() == 2:
        x, y = a.children()
        if z3.is_int_value(x):
            return y, x.as_long()
        if z3.is_int_value(y):
            return x, y.as_long()
    if z3.is_sub(a) and a.num_args() == 2 and z3.is_int_value(a.children()[1]):
        return a.children()[0], -a.children()[1].as_long()
    return a, 0


def ground_apps(fs):
    out, seen, todo = {}, set(), list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
            out.setdefault(e.decl().name(), []).append(e)
        todo.extend(e.children())
    return out


class Path:
    __slots__ = ("kind", "val", "guard", "facts", "qfacts", "heap", "draws", "base", "bits")


class Explorer:
    def __init__(self, base, prefix):
        self.base, self.prefix, self.pos = base, prefix, 0
        self.trace, self.alts, self.guard, self.bits, self.count = [], [], [], (), 0


class Fam:
    __slots__ = ("id", "formals", "cls", "label", "bounds")

    def __init__(self, id, formals, cls, label):
        self.id, self.formals, self.cls, self.label = id, tuple(formals), cls, label
        self.bounds = ()


class Stats:
    def __init__(self):
        self.obls, self.solver_s, self.by = [], 0.0, {}


def solved_for(t, f):
    """e if the conjunction f contains t = e"""
    if z3.is_and(f):
        for c in f.children():
            e = solved_for(t, c)
            if e is not None:
                return e
    if z3.is_eq(f):
        a, b = f.children()
        if z3.eq(a, t) and not mentions(b, t):
            return b
        if z3.eq(b, t) and not mentions(a, t):
            return a
    return None


class Base:
    def __init__(self):
        self.heap, self.facts, self.qfacts = {}, [], []
        self.gstack, self.exs = [], []
        self.intern = {}
        self.allocated_at = {}
        self.fams = {}
        self.pins = {}         # cell of a family -> (member, pseudo family) while a loop concerns that member only
        self.sums, self.sumkey = {}, {}
        self.alog = []
        self.solver = z3.Solver()
        self.patience = 1
        self.solver.set("timeout", 1500)
        self.pushed = []
        self.stats = Stats()
        self.recording = True
        self.generic = {}          # id -> generic integer constants
        self.havoc = set()
        self.memo = {}
        self.deadline = None
        self.peels = {}
        self.watch = []
        self.loop_state = {}
        self.fcache = {}
        self.posfuns = set()     # uninterpreted functions with positive values
        self.assumed = {}
        self.where = ""
        self.qseq = 0

    # ---------------------------------------------------------------- naming
    def ctx(self):
        e = self.exs[-1]
        e.count += 1
        k = (e.base, e.bits, e.count)
        if k not in self.intern:
            self.intern[k] = len(self.intern)
            self.allocated_at[self.intern[k]] = k
        return self.intern[k]

    def exists_on(self, fam, p):
        """was an object of this family created on this path (of the exploration the family was created in)?"""
        i = fam
        while i in self.allocated_at:
            base, bits, _ = self.allocated_at[i]
            if base == p.base:
                return p.bits[:len(bits)] == bits
            i = base[1] if isinstance(base, tuple) and len(base) > 1 else None
        return True

    def split_guards(self, paths):
        """conditions that tell the paths apart; a decision whose other side is none of them is left out"""
        out = []
        for p in paths:
            cs = []
            for i, g in enumerate(p.guard):
                if any(len(q.guard) > i and not z3.eq(q.guard[i], g) and all(z3.eq(x, y) for x, y in zip(q.guard[:i], p.guard[:i]))
                       for q in paths if q is not p):
                    cs.append(g)
            out.append(cs)
        return out

    def new_cells(self, paths, h0):
        """cells of the objects created along the paths, with the value each path gives them"""
        out = {}
        guards = [land(*g) for g in self.split_guards(paths)]
        for c in dict.fromkeys(c for p in paths for c in p.heap if c not in h0):
            r = None
            for g, p in reversed(list(zip(guards, paths))):
                v = p.heap.get(c, MISSING)
                if v is MISSING:
                    if not self.exists_on(c[0], p):
                        continue
                    v = UNBOUND
                r = v if r is None else self.merge2(num.boolz(g), v, r)
            out[c] = r
        return out

    def gvars(self):
        return [g[0] for g in self.gstack]

    def fresh(self, label, sort=None):
        """a new unknown; under generic loop indices it is a function of them"""
        sort = z3.RealSort() if sort is None else sort
        n = f"{label}!{self.ctx()}"
        g = self.gvars()
        if not g:
            return z3.Const(n, sort)
        return z3.Function(n, *([z3.IntSort()] * len(g)), sort)(*g)

    def fresh_index(self, label="k"):
        k = z3.Int(f"{label}!{self.ctx()}")
        self.generic[k.get_id()] = k
        return k

    def fresh_fun(self, label, nargs, sort=None, argsort=None):
        """unknown function of nargs arguments (and of the current generic indices)"""
        sort = z3.RealSort() if sort is None else sort
        n = f"{label}!{self.ctx()}"
        g = self.gvars()
        args = [z3.IntSort() if argsort is None else argsort] * nargs
        f = z3.Function(n, *([z3.IntSort()] * len(g)), *args, sort)
        return lambda *a: f(*g, *a)

    # ---------------------------------------------------------------- objects
    def new(self, cls, label=None):
        i = self.ctx()
        if i not in self.fams:
            self.fams[i] = Fam(i, self.gvars(), cls, label or getattr(cls, "name", "obj"))
            self.fams[i].bounds = tuple(g[1] for g in self.gstack)
        f = self.fams[i]
        return Ref(i, f.formals, cls)

    def get(self, ref, cell):
        v = self.heap.get((ref.fam, cell), MISSING)
        if v is MISSING:
            return v
        fam = self.fams[ref.fam]
        if fam.formals:
            if self.gstack:
                self.alog.append(((ref.fam, cell), ref.idx))
            if (ref.fam, cell) in self.pins:
                return self.resolve(self.heap[(self.pinned(ref, cell), cell)])
            v = self.at(v, fam.formals, ref.idx)
        return self.resolve(v)

    def pinned(self, ref, cell):
        idx, pf = self.pins[(ref.fam, cell)]
        if not all(a is b or z3.eq(to_z3(a), to_z3(b)) for a, b in zip(idx, ref.idx)):
            raise Unsupported("a loop concerns two members of one family")
        return pf

    def at(self, v, formals, idx):
        pairs = [(f, i) for f, i in zip(formals, idx) if not (f is i or z3.eq(f, to_z3(i)))]
        return self.subst(v, pairs) if pairs else v

    def subst(self, v, pairs):
        pairs = [(a, num.boolz(b) if z3.is_bool(a) else to_z3(b)) for a, b in pairs]

        def f(t):
            r = z3.substitute(t, *pairs)
            return t if z3.eq(r, t) else collapse(r)
        return vsub(v, f)

    def put(self, ref, cell, v):
        fam = self.fams[ref.fam]
        key = (ref.fam, cell)
        if fam.formals:
            if self.gstack:
                self.alog.append((key, ref.idx))
            if key in self.pins:
                self.heap[(self.pinned(ref, cell), cell)] = v
                return
            if not all(f is i or z3.eq(f, to_z3(i)) for f, i in zip(fam.formals, ref.idx)):
                conds = [f == to_z3(i) for f, i in zip(fam.formals, ref.idx) if not z3.eq(f, to_z3(i))]
                old = self.heap.get(key, UNBOUND)
                v = self.merge2(z3.And(*conds) if len(conds) > 1 else conds[0], v, old)
        self.heap[key] = v

    def merge2(self, c, a, b):
        if same(a, b):
            return a
        if (is_num(a) or z3.is_bool(a)) and (is_num(b) or z3.is_bool(b)) and not num.is_inf(a) and not num.is_inf(b) \
                and (isinstance(a, bool) or z3.is_bool(a)) == (isinstance(b, bool) or z3.is_bool(b)):
            return num.ite(c, a, b)
        alts = [(c, a)]
        if isinstance(b, Choice):
            alts += list(b.alts)
        else:
            alts.append((True, b))
        return Choice(alts)

    def resolve(self, v):
        while isinstance(v, Choice):
            for g, x in v.alts:
                if g is True or self.decide(g):
                    v = x
                    break
            else:
                raise PathAbort()
        return v

    # ---------------------------------------------------------------- facts
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        c = num.boolz(c)
        if z3.is_false(c):
            raise PathAbort()
        if not z3.is_true(c):
            self.facts.append(c)

    def assume_all(self, vars, fact):
        if z3.is_true(fact):
            return
        self.qfacts.append(QF(vars, fact))

    def sync(self, facts):
        n = 0
        for a, b in zip(self.pushed, facts):
            if a is not b:
                break
            n += 1
        if len(self.pushed) > n:
            self.solver.pop(len(self.pushed) - n)
            del self.pushed[n:]
        for f in facts[n:]:
            self.solver.push()
            self.solver.add(f)
            self.pushed.append(f)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the contract exhausted")

    def quick(self, *extra):
        """is facts & extra satisfiable? (z3 result)"""
        self.tick()
        t = time.time()
        self.sync(self.facts)
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, c):
        r = self.quick(c)
        if r == z3.unsat:
            return False
        if self.has_q(c):
            inst = self.instances([c] + self.facts, rounds=2)
            if inst:
                t = time.time()
                self.solver.push()
                self.solver.add(*inst)
                r = self.solver.check(c)
                self.solver.pop()
                self.stats.solver_s += time.time() - t
                return r != z3.unsat
        return True

    def has_q(self, c):
        return bool(self.qfacts) or self.special([c] + self.facts)

    def special(self, fs):
        apps = ground_apps(fs)
        return any(n in ("log", "exp", "sqrt") or n in self.sums or n in self.posfuns for n in apps)

    def holds(self, c):
        """does c follow from the facts? (sound, incomplete)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible(z3.BoolVal(True)) if False else False
        return not self.feasible(z3.Not(c))

    def note_split(self, c):
        """a loop body that does something else at one index: remember which"""
        if not self.watch:
            return
        while z3.is_not(c):
            c = c.children()[0]
        if not z3.is_eq(c) or not c.children()[0].is_int():
            return
        for k, found in self.watch:
            mark = "m!" + str(k)[2:] + "!"
            for a, b in (c.children(), c.children()[::-1]):
                x, off = base_off(a)
                if x is not None and x.num_args() == 0 and (z3.eq(x, k) or str(x).startswith(mark)) and not mentions(b, x):
                    e = z3.simplify(b - off)
                    if not any(z3.eq(e, y) and z3.eq(x, z) for z, y in found):
                        found.append((x, e))

    def decide(self, c):
        if c is True or c is False:
            return c
        if c is None:
            return False
        c0 = z3.simplify(c)
        if z3.is_true(c0):
            return True
        if z3.is_false(c0):
            return False
        ex = self.exs[-1]
        if ex.pos < len(ex.prefix):
            out, forced = ex.prefix[ex.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                self.note_split(c0)
                out, forced = True, False
                ex.alts.append(ex.trace + [(False, False)])
            else:
                out, forced = t, True
        ex.pos += 1
        ex.trace.append((out, forced))
        if not forced:
            g = c if out else z3.Not(c)
            ex.bits = ex.bits + (out,)
            ex.guard.append(g)
            self.facts.append(g)
        return out

    def explore(self, base, thunk, limit=400):
        """run thunk along every feasible decision path from the current state"""
        h0, f0, q0, g0, a0 = self.heap, list(self.facts), list(self.qfacts), list(self.gstack), self.where
        pending, out = [[]], []
        while pending:
            if len(out) > limit:
                raise Unsupported("too many paths")
            ex = Explorer(base, pending.pop())
            self.exs.append(ex)
            self.heap, self.facts, self.qfacts, self.gstack, self.where = dict(h0), list(f0), list(q0), list(g0), a0
            p = Path()
            try:
                p.kind, p.val = "ok", thunk()
            except PathAbort:
                p.kind, p.val = "abort", None
            except RetX as r:
                p.kind, p.val = "return", r.v
            except BrkX:
                p.kind, p.val = "break", None
            except ContX:
                p.kind, p.val = "ok", None
            except PyRaise as r:
                p.kind, p.val = "raise", r
            finally:
                self.exs.pop()
            pending.extend(ex.alts)
            if p.kind != "abort":
                p.guard = ex.guard
                p.facts = [f for f in self.facts[len(f0):] if not any(f is g for g in ex.guard)]
                p.qfacts = self.qfacts[len(q0):]
                p.heap = self.heap
                p.base, p.bits = ex.base, ex.bits
                out.append(p)
        self.heap, self.facts, self.qfacts, self.gstack, self.where = h0, f0, q0, g0, a0
        return out

    def merged(self, thunk):
        """value of thunk as one term (no heap effects kept); axioms about fresh symbols are kept"""
        key = self.ctx()
        paths = self.explore(("m", key), thunk)
        if not paths:
            raise PathAbort()
        r = None
        for p in reversed(paths):
            if p.kind != "ok":
                if p.kind == "raise":
                    raise Unsupported(f"{p.val.exc.cls.name} raised at {p.val.where} inside a merged expression" + f": {self.heap.get((p.val.exc.fam, 'args')) or p.heap and p.heap.get((p.val.exc.fam, 'args'))}")
                raise Unsupported("control flow inside a merged expression")
            g = z3.And(*p.guard) if p.guard else z3.BoolVal(True)
            r = p.val if r is None else self.merge2(g, p.val, r)
            for f in p.facts:
                self.facts.append(z3.Implies(g, f) if p.guard else f)
            for q in p.qfacts:
                self.qfacts.append(QF(q.vars, z3.Implies(g, q.fact)) if p.guard else q)
        self.heap.update(self.new_cells(paths, self.heap))
        return r

    # ---------------------------------------------------------------- sums
    def mk_sum(self, n, t, body):
        """sum of body for t = 0..n-1 (n >= 0)"""
        body = to_z3(body) if not is_z3(body) else body
        n = num.norm(n)
        if isinstance(n, int) and n <= 6:
            r = 0
            for i in range(n):
                r = num.add(r, self.subst(body, [(t, i)]))
            return r if n else (Fraction(0) if body.is_real() else 0)
        if mentions(body, t) and not mentions(z3.simplify(body), t):
            body = z3.simplify(body)
        if not mentions(body, t):
            return num.mul(n, num.conc(body))
        sp = self.split_indicator(n, t, body)
        if sp is not None:
            return sp
        f = self.agg("S", t, body, body.sort())
        return f(n)

    def mk_any(self, n, t, body):
        if z3.is_false(body):
            return False
        if isinstance(n, int) and n <= 6:
            return lor(*[self.subst(body, [(t, i)]) for i in range(n)])
        if not mentions(body, t):
            return z3.And(to_z3(n) > 0, body)
        e = solved_for(t, z3.simplify(body))
        if e is not None:
            return z3.And(e >= 0, e < to_z3(n), self.subst(body, [(t, e)]))
        return self.agg("A", t, body, z3.BoolSort())(n)

    def agg(self, kind, t, body, sort):
        ps = [k for k in self.generic_in(body) if not z3.eq(k, t)]
        can = [(t, z3.Int("$t"))] + [(p, z3.Int(f"$p{i}")) for i, p in enumerate(ps)]
        cb = z3.substitute(body, *can)
        key = (kind, len(ps), cb.get_id())
        if key not in self.sumkey:
            name = f"{kind}#{len(self.sumkey)}"
            self.sumkey[key] = name
            self.sums[name] = (kind, [z3.Int(f"$p{i}") for i in range(len(ps))], z3.Int("$t"), cb,
                               z3.Function(name, *([z3.IntSort()] * (len(ps) + 1)), sort))
        d = self.sums[self.sumkey[key]][4]
        return lambda m: d(*ps, to_z3(m))

    def generic_in(self, body):
        out, seen, todo = [], set(), [body]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in self.generic:
                out.append(e)
            todo.extend(e.children())
        return sorted(out, key=lambda e: e.decl().name())

    def agg_body(self, app, at):
        kind, ps, t, body, d = self.sums[app.decl().name()]
        a = app.children()
        return z3.substitute(body, *([(p, x) for p, x in zip(ps, a[:-1])] + [(t, to_z3(at))]))

    def split_indicator(self, n, t, body):
        """sums of ite(t == c, A, B) and ite(t < c, A, B) with c free of t"""
        for c in eq_atoms(ites(body)):
            k = c.decl().kind()
            ch = c.children()
            if k == z3.Z3_OP_EQ and ch[0].is_int():
                for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                    x, off = base_off(a)
                    if x is not None and z3.eq(x, t) and not mentions(b, t):
                        pos = num.sub(b, off)
                        A = collapse(z3.substitute(body, (c, z3.BoolVal(True))))
                        B = collapse(z3.substitute(body, (c, z3.BoolVal(False))))
                        rest = self.mk_sum(n, t, B)
                        d = num.sub(self.subst(A, [(t, pos)]), self.subst(B, [(t, pos)]))
                        return num.add(rest, num.ite(z3.And(to_z3(pos) >= 0, to_z3(pos) < to_z3(n)), d, 0))
        for c in eq_atoms(ites(body), ORDER):
            r = threshold(c, t)
            if r is None:
                continue
            m, below = r
            if self.holds(m <= 0):
                m = 0
            elif self.holds(m >= to_z3(n)):
                m = n
            elif not (self.holds(m >= 0) and self.holds(m <= to_z3(n))):
                continue
            else:
                m = num.norm(m)
            A = collapse(z3.substitute(body, (c, z3.BoolVal(below))))
            B = collapse(z3.substitute(body, (c, z3.BoolVal(not below))))
            return num.add(self.mk_sum(m, t, A), self.mk_sum(num.sub(n, m), t, self.subst(B, [(t, num.add(t, m))])))
        return None

    # ---------------------------------------------------------------- instantiation
    def seeds(self, fs):
        out, seen, todo = {}, set(), list(fs)
        while todo:
            e = todo.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if z3.is_int(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.get_id()] = e
            todo.extend(e.children())
        return list(out.values())

    def int_apps(self, f):
        """ground integer-valued applications in f"""
        out = {}
        for n, l in ground_apps([f]).items():
            for e in l:
                if z3.is_int(e) and n not in self.sums and not mentions(e, z3.Int("$w")) and not str(n).startswith("$"):
                    out[e.get_id()] = e
        return list(out.values())

    def instances(self, fs, rounds=3, cap=500, seeds=False):
        out, have, todo = [], set(), list(fs)
        pool = list(fs)
        for rnd in range(rounds):
            apps = ground_apps(pool)
            new = []
            for q in self.qfacts:
                for b in self.bindings(q, apps, pool, seeds and rnd == 0):
                    k = (id(q), tuple(x.get_id() for x in b))
                    if k in have:
                        continue
                    have.add(k)
                    if k not in self.fcache:
                        self.fcache[k] = (q, b, collapse(z3.substitute(q.fact, *zip(q.vars, b))))
                    f = self.fcache[k][2]
                    if not z3.is_true(f):
                        new.append(f)
            new += self.theory(apps, have)
            if not new:
                break
            out += new
            pool += new
            if len(out) > cap:
                break
        return out

    def bindings(self, q, apps, pool, seeds):
        n = len(q.vars)
        res, keys = [], set()

        def emit(b):
            k = tuple(x.get_id() for x in b)
            if k not in keys:
                keys.add(k)
                res.append(b)
        partial = []
        for name, m, _ in q.pats:
            for e in apps.get(name, ()):
                b = {}
                for v, (p, c) in m.items():
                    a = e.children()[p]
                    if not a.is_int():
                        break
                    b[v] = a if c == 0 else z3.simplify(a - c)
                else:
                    if len(b) == n:
                        emit(tuple(b[i] for i in range(n)))
                    else:
                        partial.append(b)
        if n > 1 and len(partial) < 60:
            for i, x in enumerate(partial):
                for y in partial[:i]:
                    if all(z3.eq(x[v], y[v]) for v in x.keys() & y.keys()):
                        z = {**x, **y}
                        if len(z) == n:
                            emit(tuple(z[j] for j in range(n)))
        if seeds and n == 1:
            for s in self.seeds(pool)[:14]:
                for c in (s, z3.simplify(s - 1), z3.simplify(s + 1)):
                    emit((c,))
            emit((z3.IntVal(0),))
        return res[:80]

    def theory(self, apps, have):
        """ground laws of log, exp, sqrt and of the finite sums / disjunctions that occur"""
        out = []

        def once(k, *fs):
            if k not in have:
                have.add(k)
                out.extend(fs)
        logs, exps = apps.get("log", []), apps.get("exp", [])
        for e in apps.get("sqrt", []):
            x = e.children()[0]
            once(("sq", e.get_id()), z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)), z3.Implies(x > 0, e > 0))
        for e in exps:
            x = e.children()[0]
            once(("ex", e.get_id()), e > 0, z3.Implies(x == 0, e == 1), z3.Implies(x > 0, e > 1), z3.Implies(x < 0, e < 1))
            once(("exl", e.get_id()), LOG(e) == x)
        for e in logs:
            x = e.children()[0]
            once(("lg", e.get_id()), z3.Implies(x == 1, e == 0), z3.Implies(x > 1, e > 0), z3.Implies(z3.And(x > 0, x < 1), e < 0))
        for l in (logs, exps):
            if len(l) <= 8:
                for i, a in enumerate(l):
                    for b in l[:i]:
                        x, y = a.children()[0], b.children()[0]
                        g = z3.And(x > 0, y > 0) if l is logs else z3.BoolVal(True)
                        once(("mono", a.get_id(), b.get_id()), z3.Implies(z3.And(g, x < y), a < b), z3.Implies(z3.And(g, x > y), a > b))
        for name in list(apps):
            if name in self.posfuns:
                for e in apps[name]:
                    once(("pos", e.get_id()), e > 0)
            if name not in self.sums:
                continue
            kind = self.sums[name][0]
            for e in apps[name]:
                m = e.children()[-1]
                d, pre = e.decl(), e.children()[:-1]
                if kind == "S":
                    zero = z3.RealVal(0) if e.is_real() else z3.IntVal(0)
                    once(("s0", e.get_id()), z3.Implies(m <= 0, e == zero))
                    b, c = base_off(m)
                    if (c and c > 0 and b is not None) or z3.is_int_value(m) and 0 < m.as_long() < 12:
                        p = z3.simplify(m - 1)
                        once(("s1", e.get_id()), z3.Implies(m > 0, e == d(*pre, p) + self.agg_body(e, p)))
                elif kind == "A":
                    once(("a0", e.get_id()), z3.Implies(m <= 0, z3.Not(e)))
                    w = z3.Function(name + "w", *([z3.IntSort()] * (len(pre) + 1)), z3.IntSort())(*pre, m)
                    once(("aw", e.get_id()), z3.Implies(e, z3.And(w >= 0, w < m, self.agg_body(e, w))))
                    k = z3.Int(f"$a{len(self.fcache)}")
                    if ("aq", e.get_id()) not in self.fcache:
                        self.fcache[("aq", e.get_id())] = (QF((k,), z3.Implies(z3.And(z3.Not(e), k >= 0, k < m), z3.Not(self.agg_body(e, k)))), e)
                    q = self.fcache[("aq", e.get_id())][0]
                    for b in self.bindings(q, apps, [], False):
                        once(("aqi", e.get_id(), b[0].get_id()), collapse(z3.substitute(q.fact, (q.vars[0], b[0]))))
                    b0, c = base_off(m)
                    if c and c > 0 and b0 is not None:
                        p = z3.simplify(m - 1)
                        once(("a1", e.get_id()), z3.Implies(m > 0, e == z3.Or(d(*pre, p), self.agg_body(e, p))))
        return out

    # ---------------------------------------------------------------- proofs
    def prove(self, goal, depth=0, timeout=4000):
        """'proved', 'refuted' or 'unknown' under the current facts"""
        self.tick()
        if goal is True:
            return "proved"
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved"
        if z3.is_and(goal):
            rs = [self.prove(c, depth, timeout) for c in goal.children()]
            return "proved" if all(r == "proved" for r in rs) else "refuted" if "refuted" in rs else "unknown"
        if z3.is_implies(goal):
            a, b = goal.children()
            with Saved(self):
                self.facts.append(a)
                return self.prove(b, depth, timeout)
        if z3.is_or(goal):
            hard = [c for c in goal.children() if z3.is_eq(c) and z3.is_arith(c.children()[0]) and c.children()[0].is_real() or c.decl().name() in self.sums or z3.is_and(c)]
            if len(hard) == 1:
                with Saved(self):
                    self.facts += [z3.Not(c) for c in goal.children() if c is not hard[0] and not z3.eq(c, hard[0])]
                    return self.prove(hard[0], depth, timeout)
        if z3.is_app(goal) and goal.decl().name() in self.sums and self.sums[goal.decl().name()][0] == "A" and depth < 2:
            # a witness among the integers the facts speak about
            m = goal.children()[-1]
            ws = [w for w in self.seeds(self.facts + [goal]) if not str(w).startswith("$")]
            ws = self.int_apps(self.agg_body(goal, z3.Int("$w")))[:8] + ws[:12]
            for w in ws:
                b = self.agg_body(goal, w)
                if DEBUG_SUM:
                    print("WIT", w, b)
                if self.holds(z3.And(w >= 0, w < m)) and self.prove(b, depth + 1, min(timeout, 1500)) == "proved":
                    return "proved"
        if z3.is_eq(goal) and z3.is_arith(goal.children()[0]) and goal.children()[0].is_real():
            try:
                if self.ring_eq(goal.children()[0], goal.children()[1], depth):
                    self.used("ring")
                    return "proved"
            except Give:
                pass
        if z3.is_app(goal) and goal.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE) and any(self.sums.get(n, "?")[0] == "S" for n in ground_apps([goal])):
            a, b = goal.children()
            try:
                if self.sum_le(*((a, b) if goal.decl().kind() == z3.Z3_OP_LE else (b, a)), depth):
                    self.used("ring")
                    return "proved"
            except Give:
                pass
        if z3.is_eq(goal) and z3.is_int(goal.children()[0]) and any(n in self.sums for n in ground_apps([goal])):
            if self.smt(goal, max(depth, 1), 1500) == "proved":
                return "proved"
            try:
                if self.ring_eq(*[num.real(x) for x in goal.children()], depth):
                    self.used("ring")
                    return "proved"
            except Give:
                pass
        return self.smt(goal, depth, timeout)

    def used(self, k):
        self.stats.by[k] = self.stats.by.get(k, 0) + 1

    def smt(self, goal, depth=0, timeout=4000):
        ng = z3.Not(goal)
        base = self.facts + [ng]
        t0 = time.time()
        try:
            s = z3.Solver()
            inst = self.instances(base, rounds=3)
            if nonlinear(goal):
                # the path itself may be impossible
                s.set("timeout", 700)
                s.add(*self.facts)
                s.add(*[f for f in inst if not nonlinear(f)])
                if s.check() == z3.unsat:
                    self.used("z3")
                    return "proved"
                s = z3.Solver()
            timeout = int(timeout * self.patience)
            s.set("timeout", timeout)
            s.add(*base)
            s.add(*inst)
            r = s.check()
            if r == z3.unsat:
                self.used("z3")
                return "proved"
            extra = []
            if depth < 2:
                extra = self.congruence(base + inst, depth)
                if extra:
                    s.add(*extra)
                    r = s.check()
                    if r == z3.unsat:
                        self.used("z3")
                        return "proved"
            first = r
            if self.qfacts:
                inst2 = self.instances(base + extra, rounds=3, seeds=True)
                s.add(*inst2)
                r = s.check()
                if r == z3.unsat:
                    self.used("z3")
                    return "proved"
            if r == z3.unknown:
                c = self.cvc5(s.to_smt2(), timeout)
                if c == "unsat":
                    self.used("cvc5")
                    return "proved"
            if r == z3.sat:
                model = s.model()
                if depth:
                    return "unknown"
                if self.qfacts:
                    # a model of the instances need not be one of the quantified facts: only the full facts decide
                    s.set("timeout", 3000)
                    s.add(*[z3.ForAll(list(q.vars), q.fact) for q in self.qfacts])
                    r = s.check()
                    if r == z3.unsat:
                        self.used("z3")
                        return "proved"
                    if r == z3.unknown:
                        self.model = "(candidate) " + str(model)[:2000]
                        return "unknown"
                    model = s.model()
                self.model = str(model)[:2000]
                return "refuted"
            return "unknown"
        finally:
            self.stats.solver_s += time.time() - t0

    def cvc5(self, text, timeout):
        try:
            import cvc5
        except ImportError:
            return None
        try:
            tm = cvc5.TermManager()
            sl = cvc5.Solver(tm)
            sl.setOption("tlimit-per", str(timeout))
            sl.setLogic("ALL")
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = p.getSymbolManager()
            out = None
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                if c.getCommandName() == "set-logic":
                    continue
                o = str(c.invoke(sl, sm)).strip()
                if o in ("sat", "unsat", "unknown"):
                    out = o
            return out
        except Exception:
            return None

    def congruence(self, fs, depth):
        """equalities between finite sums over the same range whose terms agree pointwise"""
        apps = ground_apps(fs)
        items = [e for n in apps if n in self.sums for e in apps[n]]
        out = []
        if len(items) > 12:
            items = items[:12]
        for i, a in enumerate(items):
            for b in items[:i]:
                if a.sort() != b.sort() or z3.eq(a, b):
                    continue
                ma, mb = a.children()[-1], b.children()[-1]
                if not (z3.eq(ma, mb) or self.holds(ma == mb)):
                    continue
                k = z3.Int(f"$c{self.qseq}")
                self.qseq += 1
                with Saved(self):
                    self.facts += [k >= 0, k < ma]
                    if self.prove(self.agg_body(a, k) == self.agg_body(b, k), depth + 1, 2000) == "proved":
                        out.append(a == b)
        return out

    def ring_eq(self, a, b, depth, splits=0):
        R = Ring(lambda c: self.holds(c), self.sums, self.posfuns)
        try:
            p = R.clear(R.padd(R.poly(a), R.poly(b), -1))
        except Split as sp:
            if splits > 7:
                raise Give
            for c in (sp.c, z3.Not(sp.c)):
                with Saved(self):
                    self.facts.append(c)
                    if not self.feasible(z3.BoolVal(True)):
                        continue
                    if not self.ring_eq(a, b, depth, splits + 1):
                        return False
            return True
        if not p:
            return True
        p = self.unify_atoms(R, p, depth)
        if not p:
            return True
        if depth < 3:
            return self.sum_eq(R, p, depth)
        return False

    def unify_atoms(self, R, p, depth):
        """merge uninterpreted terms whose arguments are provably equal"""
        used = sorted({a for m in p for a, _ in m})
        by = {}
        for a in used:
            kind, x = R.atoms[a]
            if kind == "t" and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                by.setdefault((x.decl().name(), x.num_args()), []).append(a)
        ren, tries = {}, 0
        for l in by.values():
            for i, a in enumerate(l):
                for b in l[:i]:
                    if b in ren or tries > 60:
                        continue
                    tries += 1
                    xs, ys = R.atoms[a][1].children(), R.atoms[b][1].children()
                    if all(z3.eq(x, y) or self.equal(x, y, depth) for x, y in zip(xs, ys)):
                        ren[a] = b
                        break
        if not ren:
            return p
        r = {}
        for m, c in p.items():
            r = R.padd(r, {R.mmul((), tuple((ren.get(a, a), e) for a, e in m)): c})
        return R.clear(r)

    def equal(self, x, y, depth):
        if x.is_real() and y.is_real() and depth < 3:
            try:
                if self.ring_eq(x, y, depth + 1):
                    return True
            except Give:
                pass
        if x.sort() != y.sort():
            return False
        return self.holds(x == y)

    def sum_eq(self, R, p, depth):
        """sum_i c_i * S_i(m) + rest == 0, pointwise"""
        groups, rest = {}, {}
        for m, c in p.items():
            ss = [(a, e) for a, e in m if R.atoms[a][0] == "t" and R.atoms[a][1].decl().name() in self.sums]
            if len(ss) == 1 and ss[0][1] == 1:
                app = R.atoms[ss[0][0]][1]
                groups.setdefault(app.children()[-1].get_id(), []).append((app, {tuple(x for x in m if x != ss[0]): c}))
            elif ss:
                return False
            else:
                rest[m] = c
        if not groups:
            return False
        # ranges that are provably equal are one range
        ms = {k: v[0][0].children()[-1] for k, v in groups.items()}
        keys = list(ms)
        for i, k in enumerate(keys):
            for l in keys[:i]:
                if l in groups and k in groups and self.holds(ms[k] == ms[l]):
                    groups[l] += groups.pop(k)
                    break
        each = None
        if rest and len(groups) == 1:
            # the rest may be the same constant for every index
            pm = R.clear(R.poly(num.real(next(iter(groups.values()))[0][0].children()[-1])))
            mono = next(iter(pm), None)
            if mono in rest:
                c = rest[mono] / pm[mono]
                if not R.clear(R.padd(rest, pm, -c)):
                    each, rest = c, {}
        if rest:
            rt = R.term(rest)
            if not self.ring_zero(rt, depth + 1):
                return False
        for l in groups.values():
            m = l[0][0].children()[-1]
            k = z3.Int(f"$s{self.qseq}")
            self.qseq += 1
            t = z3.RealVal(0) if each is None else num.real(each)
            for app, co in l:
                t = t + R.term(co) * num.real(self.agg_body(app, k))
            with Saved(self):
                self.facts += [k >= 0, k < m]
                if not self.ring_zero(t, depth + 1):
                    if DEBUG_SUM:
                        print("SUM", depth, [str(x[0]) for x in l], "\n   ", str(t)[:3000])
                    return False
        return True

    def sum_le(self, a, b, depth):
        """a <= b for sums over one range: the terms, plus a constant per index, are nonnegative, and so is what is left"""
        if depth > 1:
            return False
        R = Ring(lambda c: self.holds(c), self.sums, self.posfuns)
        try:
            p = R.clear(R.padd(R.poly(num.real(b)), R.poly(num.real(a)), -1))
        except Split:
            return False
        ss, rest = [], {}
        for m, c in p.items():
            x = [(i, e) for i, e in m if R.atoms[i][0] == "t" and R.atoms[i][1].decl().name() in self.sums]
            if len(x) == 1 and x[0][1] == 1:
                ss.append((R.atoms[x[0][0]][1], {tuple(y for y in m if y != x[0]): c}))
            elif x:
                return False
            else:
                rest[m] = c
        if not ss:
            return False
        n = ss[0][0].children()[-1]
        if any(not z3.eq(n, x.children()[-1]) and not self.holds(n == x.children()[-1]) for x, co in ss[1:]):
            return False
        pm = R.clear(R.poly(num.real(n)))
        mono = next(iter(pm), None)
        for each in ([rest[mono] / pm[mono]] if mono in rest else []) + [0]:
            left = R.clear(R.padd(rest, pm, -each))
            k = z3.Int(f"$s{self.qseq}")
            self.qseq += 1
            t = num.real(each)
            for app, co in ss:
                t = t + R.term(co) * num.real(self.agg_body(app, k))
            if left and self.smt(R.term(left) >= 0, depth + 1, 1500) != "proved":
                continue
            with Saved(self):
                self.facts += [k >= 0, k < n]
                if self.smt(t >= 0, depth + 1, 1500) == "proved":
                    return True
        return False

    def ring_zero(self, t, depth):
        try:
            if self.ring_eq(t, z3.RealVal(0), depth):
                return True
        except Give:
            pass
        return self.smt(t == 0, depth, 2000) == "proved"


DEBUG_SUM = os.environ.get("PYVC_SUM")


class Saved:
    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.f, self.q = list(self.e.facts), list(self.e.qfacts)

    def __exit__(self, *a):
        self.e.facts, self.e.qfacts = self.f, self.q


def nonlinear(t):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1 or \
                k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return True
        todo.extend(ch)
    return False


def mentions(t, v):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.eq(e, v):
            return True
        todo.extend(e.children())
    return False


ORDER = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)


def threshold(c, t):
    """(m, b): the comparison c of integers has truth value b for t < m and not b from there on"""
    a, b = c.children()
    if not a.is_int() or not mentions(c, t):
        return None
    at = lambda i: z3.simplify(z3.substitute(a - b, (t, z3.IntVal(i))))
    d0 = at(0)
    s = z3.simplify(at(1) - d0)
    if not z3.is_int_value(s) or s.as_long() not in (1, -1) or not z3.eq(z3.simplify(a - b - (d0 + s * t)), z3.IntVal(0)):
        return None
    k, s = c.decl().kind(), s.as_long()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GT):          # d0 + s t <= 0, or not
        m = 1 - d0 if s == 1 else d0
        r = s == 1
    else:                                         # d0 + s t >= 0, or not
        m = -d0 if s == 1 else d0 + 1
        r = s == -1
    if k in (z3.Z3_OP_GT, z3.Z3_OP_LT):
        r = not r
    return z3.simplify(m), r


def eq_atoms(cs, kinds=(z3.Z3_OP_EQ,)):
    out, seen, todo = [], set(), list(reversed(cs))
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
            todo.extend(e.children())
        elif z3.is_app(e) and e.decl().kind() in kinds:
            out.append(e)
    return out


def ites(t):
    """conditions of the ites in t"""
    out, seen, todo = [], set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            out.append(e.children()[0])
        todo.extend(e.children())
    return out


def collapse(t):
    """remove ites whose condition is syntactically decided"""
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = e.children()
            if e.decl().kind() == z3.Z3_OP_ITE:
                c = z3.simplify(ch[0])
                if z3.is_true(c):
                    r = go(ch[1])
                elif z3.is_false(c):
                    r = go(ch[2])
                else:
                    a, b = go(ch[1]), go(ch[2])
                    r = a if z3.eq(a, b) else e if a is ch[1] and b is ch[2] else z3.If(ch[0], a, b)
            elif z3.is_arith(e) and any(has_ite(c) for c in ch):
                nch = [go(c) for c in ch]
                if any(not z3.eq(a, b) for a, b in zip(nch, ch)):
                    r = e.decl()(*nch) if e.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else nary(e.decl().kind(), nch)
            elif z3.is_int(e) and small(e):
                r = z3.simplify(e) if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) else e
        memo[i] = (e, r)
        return r
    if not z3.is_arith(t):
        if z3.is_bool(t):
            s = z3.simplify(t)
            if z3.is_true(s) or z3.is_false(s):
                return s
        return t
    return go(t)


from .num import small


def nary(k, ch):
    r = ch[0]
    for c in ch[1:]:
        r = r + c if k == z3.Z3_OP_ADD else r * c
    return r


def has_ite(t):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(e.children())
    return False
