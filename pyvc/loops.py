"""generic-iteration rule for loops over collections and counters of symbolic size

The body is executed once for an arbitrary iteration k from the state that the closed forms F(k) of all locations it
writes describe; the rule accepts F only when executing the body from F(k) gives F(k+1) for the F that was assumed
(inductiveness by construction: the increments derived from the last pass are those the pass started from).
Locations without a closed form become unknown functions of k with their one-step equation as the only fact, plus those
candidate invariants that are proved to hold initially and to be preserved."""
import os
import sys
import z3
from . import num
from .engine import *
from .num import land, lor, lnot, to_z3
from .values import *


def arrvar(i):
    return z3.Int(f"$v{i}")


class Summary:
    pass


class Loops:
    hints = ()

    def generic_loop(self, body, n, label="loop", hint=None):
        key = self.ctx()
        if n is not None and n == 0 and isinstance(n, int):
            return
        mk = (key, len(self.gstack), self.recording)
        hit = self.memo.get(mk)
        if hit is not None and self.same_state(hit, n):
            return self.apply(hit[0], body, n)
        heap, facts, qf, gs = dict(self.heap), list(self.facts), list(self.qfacts), list(self.gstack)
        pins = dict(self.pins)
        try:
            S = self.summarise(key, body, n, label, hint)
        finally:
            for c in self.pins:
                if c not in pins:
                    self.heap.pop((self.pins[c][1], c[1]), None)
            self.pins = pins
        self.memo[mk] = (S, heap, facts, qf, gs, n)
        return self.apply(S, body, n)

    def same_state(self, hit, n):
        """a summary is reused only from the very state it was made in"""
        S, heap, facts, qf, gs, n0 = hit
        if len(facts) != len(self.facts) or len(qf) != len(self.qfacts) or len(heap) != len(self.heap) or not same(n, n0):
            return False
        if not all(same(a, b) for a, b in zip(facts, self.facts)) or not all(same(a.fact, b.fact) for a, b in zip(qf, self.qfacts)):
            return False
        for c, v in heap.items():
            if c not in self.heap or not same(v, self.heap[c]):
                return False
        return True

    # ------------------------------------------------------------------ summary
    def summarise(self, key, body, n, label, hint):
        k = z3.Int(f"k!{key}")
        t = z3.Int(f"t!{key}")
        self.generic[k.get_id()] = k
        self.generic[t.get_id()] = t
        h0 = dict(self.heap)
        self.loop_state.pop(key, None)
        W, closed, kinds, owned = [], {}, {}, {}
        rec = self.recording
        alog_outer = self.alog
        stable, paths, marks = False, None, {}
        mine = []
        for rnd in range(16):
            self.recording = False
            try:
                paths, marks = self.run_pass(key, body, n, k, t, h0, W, kinds, closed, owned)
            except Unsupported as x:
                self.loop_state[key] = closed, h0
                raise
            cont = [p for p in paths if p.kind == "ok"]
            grew = False
            for p in cont:
                for c in p.heap:
                    if c not in h0 and c[0] in self.fams and not any(z3.eq(x, k) for x in self.fams[c[0]].formals):
                        # a new attribute of an object that was there before the loop
                        h0[c] = DictV(()) if c[1] in ("__dyn__", "dict") else UNBOUND
                        grew = True
                for c, v in p.heap.items():
                    if c in h0 and c not in W and v is not h0[c] and not same(v, h0[c]):
                        W.append(c)
                        grew = True
            # how the cells of families are accessed
            acc = {}
            for c, idx in self.pass_log:
                acc.setdefault(c, []).append(idx)
            for c in W:
                f = self.fams[c[0]]
                if f.formals and c not in owned:
                    pos = [i for i in range(len(f.formals)) if all(z3.is_expr(x[i]) and z3.eq(to_z3(x[i]), k) for x in acc.get(c, []))]
                    owned[c] = pos[0] if pos and acc.get(c) else None
                elif f.formals and owned[c] is not None and not all(z3.eq(to_z3(x[owned[c]]), k) for x in acc.get(c, [])):
                    owned[c] = None
                    grew = True
            pin = [c for c in W if self.may_pin(c, h0, owned.get(c), acc.get(c), k)]
            for c in pin:
                f, idx = self.fams[c[0]], acc[c][0]
                pf = ("member", c[0], key)
                self.fams.setdefault(pf, Fam(pf, (), f.cls, f.label))
                self.pins[c] = (idx, pf)
                h0[(pf, c[1])] = static(self.at(h0[c], f.formals, idx))
                W.remove(c)
                grew = True
                mine.append((c, idx, pf))
            newk = {c: self.kind_of(c, h0[c], [p.heap.get(c, h0[c] if c[1] in ("__dyn__", "dict") else UNBOUND) for p in cont], kinds.get(c), owned.get(c)) for c in W}
            if grew or newk != kinds:
                kinds = newk
                closed = {c: v for c, v in closed.items() if c in kinds and v[0] == kinds[c]}
                continue
            if not cont:
                stable = True
                break
            new = self.derive(key, k, t, n, h0, W, kinds, marks, cont, closed, rnd)
            if os.environ.get("PYVC_LOOP"):
                print(f"-- {label} round {rnd}", file=sys.stderr)
                for c in W:
                    print("    ", c, kinds[c], "->", new.get(c), file=sys.stderr)
            if set(new) == set(closed) and all(self.same_form(new[c], closed[c]) for c in new) and len(new) == len(W):
                closed = new
                stable = True
                break
            if set(new) == set(closed) and all(self.same_form(new[c], closed[c]) for c in new):
                # stuck: the remaining locations have no closed form
                lost = [c for c in W if c not in new and kinds[c] == "poison"]
                for c in lost:
                    new[c] = ("poison", None)
                for c in W if not lost else ():
                    if c not in new:
                        new[c] = self.havoc_form(key, c, kinds[c], h0[c], k)
                        break
            closed = new
        if not stable:
            raise Unsupported(f"{label}: the loop summary does not stabilise")
        def summary(inv=None):
            S = Summary()
            S.k, S.t, S.n, S.key, S.label = k, t, n, key, label
            S.closed, S.W, S.h0, S.mine = closed, W, h0, mine
            sol = self.solved_pairs(marks, closed, k, t)
            S.cells = {c: self.subst(v, sol) if sol else v for c, v in self.new_cells(cont, h0).items()}
            S.ifacts = []          # (guard, fact) for the continuing iterations
            S.iq = []
            for p in cont:
                g = land(*p.guard)
                for f in p.facts:
                    S.ifacts.append(self.subst(z3.Implies(g, f) if g is not True else f, sol))
                for q in p.qfacts:
                    S.iq.append((q.vars, self.subst(z3.Implies(g, q.fact) if g is not True else q.fact, sol)))
            ex = [p for p in paths if p.kind != "ok"]
            S.exit = lor(*[self.subst(land(*p.guard), sol) if p.guard else True for p in ex]) if ex else False
            S.nocont = not cont
            S.inv = inv or []
            S.steps = []
            for c in W:
                if closed.get(c, (None,))[0] == "havoc":
                    H, v0, upd = closed[c][1]
                    S.steps.append(self.subst(self.havoc_step(H, k, cont, c, marks), sol))
            if inv is None and cont and (ex or S.steps):
                S.inv = self.invariants(S, k, n, cont, sol, hint)
            # accesses of outer families: replay them for the enclosing loop
            S.log = [(c, idx) for c, idx in self.pass_log if c in h0]
            return S

        S = summary()
        if rec:
            self.recording = True
            paths, marks = self.run_pass(key, body, n, k, t, h0, W, kinds, closed, owned, S.inv)
            cont = [p for p in paths if p.kind == "ok"]
            S = summary(S.inv)
        self.recording = rec
        self.alog = alog_outer
        return S

    def may_pin(self, c, h0, own, acc, k):
        """the loop uses one fixed member of the family only"""
        fm = self.fams[c[0]].formals
        if not fm or own is not None or not acc or c in self.pins or isinstance(h0[c], (ArrV, StoreV)):
            return False
        g = [x.get_id() for x in self.gvars()]
        idx = acc[0]
        if all(z3.eq(to_z3(i), x) for i, x in zip(idx, fm)):
            return False
        if not all(isinstance(i, int) or is_z3(i) and i.get_id() in g and not z3.eq(i, k) for i in idx):
            return False
        return all(all(a is b or z3.eq(to_z3(a), to_z3(b)) for a, b in zip(idx, x)) for x in acc)

    def run_pass(self, key, body, n, k, t, h0, W, kinds, closed, owned, inv=()):
        self.heap = dict(h0)
        marks = {}
        facts = [k >= 0] + ([k < to_z3(n)] if n is not None else []) + list(inv)
        for c in W:
            if owned.get(c) is not None and self.fams[c[0]].formals:
                continue
            kd = kinds.get(c, "poison")
            cf = closed.get(c)
            if kd in ("int", "real", "bool"):
                s = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[kd]
                m = z3.Const(f"m!{key}!{c[0]}!{c[1]}", s)
                marks[c] = m
                self.heap[c] = m
                if cf:
                    f = self.form_at(cf, h0[c], k, t)
                    if kd == "bool":
                        facts.append(m == num.boolz(f))
                    else:
                        facts.append(m == (num.real(f) if kd == "real" else to_z3(f)))
            elif kd == "absorb":
                m = z3.Const(f"m!{key}!{c[0]}!{c[1]}", z3.RealSort())
                b = z3.Const(f"b!{key}!{c[0]}!{c[1]}", z3.BoolSort())
                marks[c] = (m, b)
                self.heap[c] = Choice([(b, -INF), (True, m)])
                if cf:
                    f = self.form_at(cf, h0[c], k, t)
                    facts.append(b == num.boolz(f.alts[0][0]))
                    facts.append(m == num.real(f.alts[1][1]))
            elif cf:
                self.heap[c] = self.form_at(cf, h0[c], k, t)
                marks[c] = self.heap[c]
            elif kd == "list":
                self.heap[c] = marks[c] = SeqV([BaseSeg(c)])
            elif kd == "dict":
                # earlier entries stay visible; keys the loop adds are none of theirs (dict_set would replace those)
                self.heap[c] = marks[c] = DictV(tuple(h0[c].ents) + (BaseD(c),))
            elif kd == "array":
                a = h0[c]
                vs = [arrvar(i) for i in range(len(a.shape))]
                srt = self.arr_sort(a)
                fm = self.fams[c[0]].formals
                f = z3.Function(f"m!{key}!{c[0]}!{c[1]}", *([z3.IntSort()] * (len(fm) + len(vs))), srt)
                self.heap[c] = marks[c] = ArrV(a.shape, vs, f(*fm, *vs))
            else:
                self.heap[c] = marks[c] = Poison(c)
        saved_f, saved_g, saved_q = self.facts, self.gstack, self.qfacts
        log0 = self.alog
        self.alog = []
        self.facts = list(saved_f) + facts
        self.gstack = saved_g + [(k, n)]
        try:
            paths = self.explore(("L", key), lambda: body(k))
        finally:
            self.facts, self.gstack, self.qfacts = saved_f, saved_g, saved_q
            self.pass_log, self.alog = self.alog, log0
            self.heap = dict(h0)
        return paths, marks

    def arr_sort(self, a):
        b = a.base.body if isinstance(a, StoreV) else a.body
        if isinstance(b, bool) or z3.is_bool(b):
            return z3.BoolSort()
        if isinstance(b, int) or (is_z3(b) and b.is_int()):
            return z3.RealSort()
        return z3.RealSort()

    def kind_of(self, c, v0, vals, old, own):
        if own is not None and self.fams[c[0]].formals:
            return "owned"
        vs = [v0] + [v for v in vals]
        fm = self.fams[c[0]].formals
        g = {x.get_id() for x in self.gvars()}
        own_iter = all(x.get_id() in g for x in fm) and all(all(z3.eq(to_z3(i), x) for i, x in zip(idx, fm)) for d, idx in self.pass_log if d == c)
        if fm and not own_iter:
            vs = [v0] + [x for v in vals for x in (leaves(v) if isinstance(v, Choice) else [v])]
            if not all(isinstance(v, (ArrV, StoreV)) for v in vs):
                return "poison"      # one location per member: only arrays have a closed form for that
        if all((is_num(v) and not isinstance(v, bool)) for v in vs):
            if any(num.is_inf(v) for v in vals) and not num.is_inf(v0):
                return "absorb"
            if any(num.is_inf(v) for v in vs):
                return "poison"
            isreal = any(isinstance(v, Fraction) or (is_z3(v) and v.is_real()) for v in vs)
            return "real" if isreal or old == "real" else "int"
        if old == "absorb" and all(is_num(v) or isinstance(v, Choice) for v in vs):
            return "absorb"
        if all(isinstance(v, bool) or z3.is_bool(v) for v in vs):
            return "bool"
        if isinstance(v0, SeqV) and all(isinstance(v, SeqV) for v in vs):
            return "list"
        if isinstance(v0, DictV) and all(isinstance(v, DictV) for v in vs):
            return "dict"
        if isinstance(v0, (ArrV, StoreV)) and all(isinstance(v, (ArrV, StoreV)) for v in vs):
            return "array"
        return "poison"

    # ------------------------------------------------------------------ closed forms
    def form_at(self, cf, v0, j, t):
        """value at the start of iteration j"""
        kind, d = cf
        if kind in ("int", "real"):
            tag = d[0]
            if tag == "sum":
                r = num.add(v0, self.mk_sum(j, t, d[1]))
            elif tag == "same":
                r = v0
            else:
                prev = self.subst(d[1], [(t, num.sub(j, 1))])
                r = num.ite(to_z3(j) == 0, v0, prev)
            return num.real(r) if kind == "real" else r
        if kind == "bool":
            if d[0] == "same":
                return v0
            return num.ite(to_z3(j) == 0, v0, self.subst(d[1], [(t, num.sub(j, 1))]))
        if kind == "havoc":
            return d[0](to_z3(j))
        if kind == "absorb":
            return Choice([(num.boolz(self.mk_any(j, t, d[0])), -INF), (True, num.real(num.add(v0, self.mk_sum(j, t, d[1]))))])
        if kind == "list":
            return SeqV(v0.segs + tuple(x for s in d for x in self.widen(s, j, t)))
        if kind == "dict":
            ents = list(v0.ents)
            for i, w, g in [s for s in d if isinstance(s, tuple)]:
                x = ents[i]
                c = land(x.k >= 0, x.k < to_z3(j), self.subst(g, [(t, x.k)]))
                ents[i] = Grp(x.n, x.k, x.key, self.merge2(num.boolz(c), self.subst(w, [(t, x.k)]), x.v), x.cond)
            return DictV(tuple(ents) + tuple(Grp(j, t, s.key, s.v, s.cond) for s in d if not isinstance(s, tuple)))
        if kind == "array":
            return self.array_at(v0, d, j, t)
        if kind == "poison":
            if d is None:
                return Poison("conditional rebinding in a loop")
            return Choice([(to_z3(j) == 0, v0), (True, self.subst(d, [(t, num.sub(j, 1))]))])
        if kind == "owned":
            pos, val, f = d
            return self.merge2(z3.And(f >= 0, f < to_z3(j)), val, v0)
        raise Unsupported("closed form " + kind)

    def widen(self, s, j, t):
        if not isinstance(s, Seg):
            return [Cat(j, s.k, s.segs, s.cond)]
        if s.cond is not None:
            e, apart = self.single_index(s.cond, s.k)
            if e is not None and self.holds(z3.And(e >= 0, e < to_z3(j))):
                e = z3.simplify(e)
                if not apart:
                    return [El(self.subst(s.v, [(s.k, e)]))]
                return [Seg(e, s.k, s.v), Seg(num.sub(num.sub(j, e), 1), s.k, self.subst(s.v, [(s.k, s.k + e + 1)]))]
        return [Seg(j, s.k, s.v, s.cond)]

    def single_index(self, c, k):
        """e for a condition k == e, or k != e (then with True)"""
        apart = False
        c = z3.simplify(c)
        while z3.is_not(c):
            c, apart = c.children()[0], not apart
        if z3.is_eq(c) and c.children()[0].is_int():
            for a, b in (c.children(), c.children()[::-1]):
                x, off = base_off(a)
                if x is not None and z3.eq(x, k) and not mentions(b, k):
                    return b - off, apart
        return None, False

    def same_form(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "havoc":
            return True
        return same(tuple(a[1]) if isinstance(a[1], (list, tuple)) else a[1], tuple(b[1]) if isinstance(b[1], (list, tuple)) else b[1])

    def solved_pairs(self, marks, closed, k, t):
        pairs = []
        for c, m in marks.items():
            if c in closed:
                cf = closed[c]
                if isinstance(m, tuple):
                    f = self.form_at(cf, self.cur_h0[c], k, t)
                    pairs += [(m[0], num.real(f.alts[1][1])), (m[1], num.boolz(f.alts[0][0]))]
                elif is_z3(m):
                    f = self.form_at(cf, self.cur_h0[c], k, t)
                    pairs.append((m, num.boolz(f) if z3.is_bool(m) else num.real(f) if m.is_real() else to_z3(f)))
        return pairs

    def derive(self, key, k, t, n, h0, W, kinds, marks, cont, closed, rnd):
        self.cur_h0 = h0
        new = {}
        bad = set()       # markers without a closed form yet
        for c, m in marks.items():
            if c not in closed:
                if isinstance(m, tuple):
                    bad |= {m[0].decl().name(), m[1].decl().name()}
                elif is_z3(m):
                    bad.add(m.decl().name())
                elif isinstance(m, ArrV):
                    bad.add(f"m!{key}!{c[0]}!{c[1]}")
        own = {c: ({marks[c].decl().name()} if is_z3(marks.get(c)) else set()) for c in W}
        sol = self.solved_pairs(marks, closed, k, t)

        def clean(v, allow=()):
            v = self.subst(v, sol) if sol else v
            if free_names(v) & (bad - set(allow)):
                return None
            if bases(v) - ({c} if False else set()):
                return None
            return v
        # a decision whose other side never continues is left out of the guards: closed forms speak only about
        # iterations that did continue
        guards = []
        for gs in self.split_guards(cont):
            cs = [self.subst(g, sol) if sol else g for g in gs]
            g2 = land(*cs)
            guards.append(None if g2 is not True and free_names(g2) & bad else g2)
        for c in W:
            if c in closed and (closed[c][0] == "havoc" or closed[c] == ("poison", None)):
                new[c] = closed[c]
                continue
            kd = kinds[c]
            vals = [p.heap.get(c, h0[c] if c[1] in ("__dyn__", "dict") else UNBOUND) for p in cont]
            form = None
            gok = all(g is not None for g in guards)
            if kd in ("int", "real", "bool", "absorb"):
                form = self.derive_num(c, kd, marks[c], vals, guards, gok, clean, k, t, own[c], h0[c])
            elif kd == "list":
                form = self.derive_list(marks[c], vals, guards, gok, clean, k, t)
            elif kd == "dict":
                form = self.derive_dict(marks[c], vals, guards, gok, clean, k, t)
            elif kd == "array":
                form = self.derive_array(c, marks[c], vals, guards, gok, clean, k, t, n)
            elif kd == "owned":
                form = self.derive_owned(c, vals, guards, gok, clean, k)
            else:
                form = self.derive_last(marks.get(c), vals, guards, gok, clean, k, t)
            if form is not None:
                new[c] = (kd, form)
        return new

    def by_path(self, guards, vals, merge):
        r = None
        for g, v in reversed(list(zip(guards, vals))):
            r = v if r is None else merge(num.boolz(g), v, r)
        return r

    def derive_num(self, c, kd, m, vals, guards, gok, clean, k, t, own, v0):
        if kd == "absorb":
            mm, b = m
            ds, inf = [], []
            for v in vals:
                if isinstance(v, float):
                    inf.append(True)
                    ds.append(Fraction(0))
                    continue
                if not is_num(v):
                    return None
                d = clean(num.conc(z3.simplify(num.real(v) - mm)), ())
                if d is None or mm.decl().name() in free_names(d):
                    # a path that started from -inf keeps it
                    return None
                inf.append(False)
                ds.append(d)
            # paths whose guard contains the marker b (started at -inf) must stay at -inf
            G, DS, keep = [], [], []
            for g, d, i, v in zip(guards, ds, inf, vals):
                if g is None:
                    return None
                G.append(g)
            anyc, e = [], None
            sel = []
            for g, d, i in zip(G, ds, inf):
                sel.append((g, d, i))
            bt = {b.decl().name()}
            gb = []
            for g, d, i in sel:
                if g is not True and bt & free_names(g):
                    g1 = collapse_bool(z3.substitute(g, (b, z3.BoolVal(False))))
                    if z3.is_false(g1):
                        if not i:
                            return None
                        continue
                    g = g1
                gb.append((g, d, i))
            if not gb:
                return None
            absorb = lor(*[num.boolz(g) for g, d, i in gb if i])
            e = self.by_path([g for g, d, i in gb], [d for g, d, i in gb], num.ite)
            if absorb is False:
                absorb = z3.BoolVal(False)
            if absorb is True:
                absorb = z3.BoolVal(True)
            return (self.subst(absorb, [(k, t)]), self.subst(e if is_z3(e) else num.real(e), [(k, t)]))
        if kd == "bool":
            vs = [clean(v) for v in vals]
            if all(v is not None and (same(v, m)) for v in vals):
                return ("same",)
            if not gok or any(v is None or own & free_names(v) for v in vs):
                return None
            u = self.by_path(guards, vs, num.ite)
            return ("last", self.subst(u, [(k, t)]))
        deltas = []
        for v in vals:
            if isinstance(v, float) or not is_num(v):
                return None
            d = num.conc(z3.simplify((num.real(v) if kd == "real" else to_z3(v)) - m)) if mentions(to_z3(v), m) else None
            if d is None or (is_z3(d) and mentions(d, m)):
                deltas = None
                break
            d = clean(d)
            if d is None:
                deltas = None
                break
            deltas.append(d)
        if deltas is not None:
            if len({repr(d) for d in deltas}) == 1:
                e = deltas[0]
            elif gok:
                e = self.by_path(guards, deltas, num.ite)
            else:
                return None
            if not is_z3(e) and e == 0:
                return ("same",)
            return ("sum", self.subst(to_z3(e), [(k, t)]))
        vs = [clean(v) for v in vals]
        if any(v is None or own & free_names(v) for v in vs):
            return None
        if len({repr(v) for v in vs}) > 1 and not gok:
            return None
        u = self.by_path(guards if gok else [True] * len(vs), vs, num.ite)
        return ("last", self.subst(to_z3(u), [(k, t)]))

    def derive_list(self, start, vals, guards, gok, clean, k, t):
        app = []
        if os.environ.get("PYVC_LOOP") == "2":
            print("   list:", start, vals, guards, file=sys.stderr)
        if isinstance(start, Poison):
            return None
        for v in vals:
            if isinstance(v, Poison):
                return None
            if len(v.segs) < len(start.segs) or not all(same(a, b) for a, b in zip(v.segs, start.segs)):
                return None
            app.append(v.segs[len(start.segs):])
        if not any(app):
            return ()
        live = [(g, a) for g, a in zip(guards, app)]
        some = [(g, a) for g, a in live if a]
        cond = None
        if len(some) < len(live):
            if any(g is None for g, _ in some):
                return None
            cond = self.subst(num.boolz(lor(*[num.boolz(g) for g, _ in some])), [(k, t)])
        if all(len(a) == 1 and isinstance(a[0], El) for _, a in some):
            vs = [clean(a[0].v) for _, a in some]
            if any(v is None for v in vs):
                return None
            if len(vs) > 1 and not all(same(vs[0], v) for v in vs):
                if not gok:
                    return None
                v = self.by_path([g for g, _ in some], vs, self.merge2)
            else:
                v = vs[0]
            return (Seg(None, t, self.subst(v, [(k, t)]), cond),)
        if len(some) == 1 or all(same(tuple(some[0][1]), tuple(a)) for _, a in some):
            segs = [clean(s) for s in some[0][1]]
            if any(s is None for s in segs):
                return None
            return (Cat(None, t, tuple(self.subst(s, [(k, t)]) for s in segs), cond),)
        if gok and all(isinstance(x, El) for _, a in some for x in a):
            # position by position, where the path has that many
            segs = []
            for i in range(max(len(a) for _, a in some)):
                at = [(g, clean(a[i].v)) for g, a in some if len(a) > i]
                if any(v is None for _, v in at):
                    return None
                v = self.by_path([g for g, _ in at], [v for _, v in at], self.merge2)
                if len(at) == len(live):
                    segs.append(El(v))
                else:
                    segs.append(Seg(1, z3.Int(f"one{i}!{t}"), v, num.boolz(lor(*[num.boolz(g) for g, _ in at]))))
            return (Cat(None, t, tuple(self.subst(s, [(k, t)]) for s in segs), None),)
        return None

    def overwritten(self, x, y, k):
        """the value with which iteration k replaces entry k of the group x, y being the group afterwards"""
        if same(x, y):
            return MISSING
        if not (isinstance(x, Grp) and isinstance(y, Grp) and z3.eq(x.k, y.k) and same(x.n, y.n) and same(x.key, y.key) and same(x.cond, y.cond)):
            return None
        v, old = y.v, x.v
        here = lambda c: z3.is_expr(c) and z3.is_eq(c) and {a.get_id() for a in c.children()} == {x.k.get_id(), k.get_id()}
        if isinstance(v, Choice) and here(v.alts[0][0]):
            rest = list(v.alts[1:])
            olds = list(old.alts) if isinstance(old, Choice) else [(True, old)]
            if same(tuple(rest), tuple(olds)):
                return v.alts[0][1]
        if is_z3(v) and v.decl().kind() == z3.Z3_OP_ITE and here(v.children()[0]) and same(num.conc(v.children()[2]), num.conc(to_z3(old))):
            return num.conc(v.children()[1])
        return None

    def derive_dict(self, start, vals, guards, gok, clean, k, t):
        app, ups = [], []
        if all(len(v.ents) >= len(start.ents) for v in vals):
            for i, x in enumerate(start.ents):
                new = [self.overwritten(x, v.ents[i], k) for v in vals]
                if all(w is MISSING for w in new):
                    continue
                if any(w is None for w in new) or len(new) > 1 and not gok:
                    return None
                some = [(g, clean(w)) for g, w in zip(guards, new) if w is not MISSING]
                if any(w is None for _, w in some):
                    return None
                w = self.by_path([g for g, _ in some], [w for _, w in some], self.merge2)
                g = True if len(some) == len(new) else num.boolz(lor(*[num.boolz(g) for g, _ in some]))
                ups.append((i, self.subst(w, [(k, t)]), self.subst(g, [(k, t)])))
        if ups:
            vals = [DictV(start.ents + v.ents[len(start.ents):]) for v in vals]
        r = self.derive_new(start, vals, guards, gok, clean, k, t)
        return None if r is None else tuple(ups) + r

    def derive_new(self, start, vals, guards, gok, clean, k, t):
        app = []
        for v in vals:
            if len(v.ents) < len(start.ents) or not all(same(a, b) for a, b in zip(v.ents, start.ents)):
                return None
            app.append(v.ents[len(start.ents):])
        if not any(app):
            return ()
        keys = []
        for a in app:
            for x in a:
                if not isinstance(x, SymItem) or isinstance(x.key, str) or not mentions_v(x.key, k):
                    return None
                if not any(same(x.key, y) for y in keys):
                    keys.append(x.key)
        out = []
        for key in keys:
            some = [(g, clean(x.v)) for g, a in zip(guards, app) for x in a if same(x.key, key)]
            if any(v is None for _, v in some):
                return None
            cond = None
            if len(some) < len(app):
                if any(g is None for g, _ in some):
                    return None
                cond = self.subst(num.boolz(lor(*[num.boolz(g) for g, _ in some])), [(k, t)])
            v = some[0][1]
            if not all(same(w, v) for _, w in some):
                if not gok:
                    return None
                v = self.by_path([g for g, _ in some], [w for _, w in some], self.merge2)
            out.append(Grp(None, t, self.subst(key, [(k, t)]), self.subst(v, [(k, t)]), cond))
        return tuple(out)

    def derive_last(self, start, vals, guards, gok, clean, k, t):
        vs = []
        for v in vals:
            if isinstance(v, Poison):
                return None
            v = clean(v)
            if v is None:
                return None
            vs.append(v)
        if not all(same(v, vs[0]) for v in vs):
            if not gok:
                return None
            u = self.by_path(guards, vs, self.merge2)
        else:
            u = vs[0]
        return self.subst(u, [(k, t)])

    def derive_owned(self, c, vals, guards, gok, clean, k):
        f = self.fams[c[0]].formals
        # position recorded by the caller through kinds; find it again
        pos = self.own_pos(c, k)
        vs = []
        for v in vals:
            v = static(self.subst(v, [(f[pos], k)]))
            v = clean(v)
            if v is None:
                return None
            vs.append(v)
        if not all(same(v, vs[0]) for v in vs):
            if not gok:
                return None
            u = self.by_path(guards, vs, self.merge2)
        else:
            u = vs[0]
        return (pos, self.subst(u, [(k, f[pos])]), f[pos])

    def own_pos(self, c, k):
        idxs = [idx for d, idx in self.pass_log if d == c]
        f = self.fams[c[0]].formals
        for i in range(len(f)):
            if all(z3.eq(to_z3(x[i]), k) for x in idxs):
                return i
        raise Unsupported("family access pattern")

    # arrays ---------------------------------------------------------------
    def derive_array(self, c, start, vals, guards, gok, clean, k, t, n):
        stores = []
        todo = list(zip(guards, vals))
        while todo:
            g, v = todo.pop(0)
            if v is start or same(v, start):
                continue
            if isinstance(v, Choice):
                more = self.split_choice(v, start, g)
                if more is None:
                    return None
                todo += more
                continue
            if not isinstance(v, StoreV) or not same(v.base, start if isinstance(start, ArrV) else start.base):
                return None
            st = v.stores
            if isinstance(start, StoreV):
                if not all(same(a, b) for a, b in zip(start.stores, st)):
                    return None
                st = st[len(start.stores):]
            if g is None:
                return None
            for s in st:
                gg = land(g, s[0])
                gg = True if gg is True else clean(gg)
                idx = tuple(clean(i) for i in s[1])
                val = clean(s[2])
                if gg is None or any(i is None for i in idx) or val is None:
                    return None
                stores.append((gg, idx, val))
        if not stores:
            return ()
        out = []
        for g, idx, val in stores:
            # iteration number as a function of the stored index: candidates t = idx[d] - off
            sols = self.inverse(g, idx, k, n)
            if sols is None:
                return None
            out.append((self.subst(num.boolz(g), [(k, t)]), self.subst(tuple(idx), [(k, t)]), self.subst(val, [(k, t)]), tuple(sols)))
        if len(out) > 1 and not self.disjoint(out, k, t, n):
            axes = {d for o in out for d, off in o[3]}
            if len(axes) > 1:
                return None
        return tuple(out)

    def split_choice(self, v, start, g):
        """the alternatives of a member-dependent array value, each under its own condition"""
        if g is None:
            return None
        out, no = [], []
        for c, x in v.alts:
            out.append((land(g, *no, c), x))
            no.append(lnot(c))
        return out

    def inverse(self, g, idx, k, n):
        for d, i in enumerate(idx):
            if not is_z3(i) or not mentions(i, k):
                continue
            offs = []
            with Saved(self):
                self.facts += [k >= 0] + ([k < to_z3(n)] if n is not None else [])
                if g is not True:
                    self.facts.append(num.boolz(g))
                for off in (0, 1, -1, 2, -2):
                    if self.feasible(i == k + off):
                        offs.append(off)
                        if self.holds(z3.Or(*[i == k + o for o in offs])):
                            return [(d, o) for o in sorted(offs)]
                # symbolic offset: idx = k + c with c free of k
                off = z3.simplify(i - k)
                if not mentions(off, k):
                    return [(d, off)]
        return None

    def disjoint(self, out, k, t, n):
        """no two (iteration, store) pairs write one element"""
        a, b = z3.Int("$i1"), z3.Int("$i2")
        for i, x in enumerate(out):
            for y in out[:i + 1]:
                gx, ix = self.subst((x[0], x[1]), [(t, a)])
                gy, iy = self.subst((y[0], y[1]), [(t, b)])
                with Saved(self):
                    self.facts += [a >= 0, b >= 0, num.boolz(gx), num.boolz(gy)] + ([a < to_z3(n), b < to_z3(n)] if n is not None else [])
                    self.facts += [to_z3(p) == to_z3(q) for p, q in zip(ix, iy)]
                    if x is y:
                        self.facts.append(a != b)
                    if self.feasible(z3.BoolVal(True)):
                        return False
        return True

    def array_at(self, v0, d, j, t):
        base = self.flat(v0)
        if not d:
            return v0
        vs = base.vars
        body = base.body
        cands = []
        for si, (g, idx, val, sols) in enumerate(d):
            for dim, off in sols:
                cands.append((dim, off, si, g, idx, val))
        # later iterations win: t = v - off grows as off falls; apply in increasing order of t
        try:
            cands.sort(key=lambda c: (c[0], -c[1] if isinstance(c[1], int) else 0, c[2]))
        except z3.Z3Exception:
            pass
        for dim, off, si, g, idx, val in cands:
            tt = num.sub(vs[dim], off)
            cond = [to_z3(tt) >= 0, to_z3(tt) < to_z3(j)]
            gg, ii, vv = self.subst((g, tuple(idx), val), [(t, tt)])
            cond.append(num.boolz(gg))
            cond += [to_z3(i) == v for i, v in zip(ii, vs)]
            cond = [c for c in cond if not z3.is_true(z3.simplify(c))]
            body = num.ite(z3.And(*cond) if cond else True, vv, body)
        return ArrV(base.shape, vs, body)

    def flat(self, v):
        if isinstance(v, ArrV):
            return v
        b = self.flat(v.base)
        body = b.body
        for g, idx, val in v.stores:
            cond = land(g, *[to_z3(i) == x for i, x in zip(idx, b.vars)])
            body = num.ite(cond, val, body)
        return ArrV(b.shape, b.vars, body)

    # no closed form -------------------------------------------------------
    def havoc_form(self, key, c, kind, v0, k):
        if kind not in ("int", "real"):
            return ("poison", None) if kind != "bool" else ("poison", None)
        g = self.gvars()
        name = f"H!{key}!{c[0]}!{c[1]}"
        self.havoc.add(name)
        f = z3.Function(name, *([z3.IntSort()] * (len(g) + 1)), z3.RealSort() if kind == "real" else z3.IntSort())
        return ("havoc", (lambda j: f(*g, j), v0, name))

    def havoc_step(self, H, k, cont, c, marks):
        u = self.by_path([land(*p.guard) for p in cont], [p.heap[c] for p in cont], num.ite)
        h = H(k + 1)
        return h == (num.real(u) if h.is_real() else to_z3(u))

    # candidate invariants ---------------------------------------------------
    def invariants(self, S, k, n, cont, sol, hint):
        cands, seen = [], set()

        def add(a):
            a = z3.simplify(a)
            if a.get_id() not in seen and not z3.is_true(a) and not z3.is_false(a):
                seen.add(a.get_id())
                cands.append(a)

        def atoms(e):
            if z3.is_and(e) or z3.is_or(e) or z3.is_not(e) or z3.is_implies(e):
                for x in e.children():
                    atoms(x)
            elif z3.is_bool(e) and len(cands) < 16 and z3.is_app(e) and e.num_args() and (mentions(e, k)):
                add(e)
                add(z3.Not(e))
                if z3.is_ge(e) or z3.is_gt(e) or z3.is_le(e) or z3.is_lt(e):
                    x, y = e.children()
                    add(x <= y)
                    add(x >= y)
        if S.exit is not False and S.exit is not True:
            atoms(S.exit)
        for p in cont:
            if p.guard:
                atoms(self.subst(land(*p.guard), sol))
        for c in S.W:
            cf = S.closed.get(c)
            if cf and cf[0] == "havoc" and S.h0.get(c) is not None and is_num(S.h0[c]):
                h = cf[1][0](k)
                v0 = S.h0[c]
                if not num.is_inf(v0):
                    add(h >= (num.real(v0) if h.is_real() else to_z3(v0)))
        if hint:
            for h in hint(self, S, k):
                add(h)
        if not cands:
            return []
        nb = n if n is not None else None
        ok = []
        for a in cands:
            with Saved(self):
                for st in S.steps:
                    self.assume_all((k,), st)
                self.base_facts(S)
                if self.prove(z3.substitute(a, (k, z3.IntVal(0))), 1, 1000) == "proved":
                    ok.append(a)
        while ok:
            with Saved(self):
                self.facts += [k >= 0] + ([k < to_z3(n)] if n is not None else [])
                for st in S.steps:
                    self.facts.append(st)
                for f in S.ifacts:
                    self.facts.append(f)
                if S.exit is not False and S.exit is not True:
                    self.facts.append(z3.Not(S.exit))
                self.facts += ok
                bad = [a for a in ok if self.prove(z3.substitute(a, (k, k + 1)), 1, 1500) != "proved"]
            if not bad:
                break
            ok = [a for a in ok if not any(a is b for b in bad)]
        return ok

    def base_facts(self, S):
        for c in S.W:
            cf = S.closed.get(c)
            if cf and cf[0] == "havoc":
                h = cf[1][0](z3.IntVal(0))
                v0 = S.h0[c]
                self.facts.append(h == (num.real(v0) if h.is_real() else to_z3(v0)))

    # ------------------------------------------------------------------ use
    def install(self, S, j):
        for c in S.W:
            cf = S.closed.get(c)
            if cf is None:
                self.heap[c] = Poison("loop")
            else:
                self.heap[c] = self.form_at(cf, S.h0[c], j, S.t)
        for c, idx, pf in S.mine:
            v = self.heap.pop((pf, c[1]), MISSING)
            if v is not MISSING:
                conds = [f == to_z3(i) for f, i in zip(self.fams[c[0]].formals, idx) if not z3.eq(f, to_z3(i))]
                self.heap[c] = self.merge2(z3.And(*conds) if len(conds) > 1 else conds[0], v, self.heap[c])
        for c, v in S.cells.items():
            self.heap[c] = v
        for c, idx in S.log:
            if self.gstack:
                self.alog.append((c, idx))
        k, jz = S.k, to_z3(j)
        rng = z3.And(k >= 0, k < jz)
        for f in S.ifacts:
            self.assume_all((k,), z3.Implies(rng, f))
        for vs, f in S.iq:
            self.assume_all((k,) + tuple(vs), z3.Implies(rng, f))
        for f in S.steps:
            self.assume_all((k,), z3.Implies(rng, f))
        self.base_facts(S)
        for f in S.inv:
            self.assume_all((k,), z3.Implies(z3.And(k >= 0, k <= jz), f))
            self.facts.append(z3.substitute(f, (k, jz)))

    def apply(self, S, body, n):
        if S.exit is False:
            if n is None:
                raise Unsupported("loop without exit")
            self.install(S, n)
            return
        if S.nocont:
            if n is not None and not self.decide(to_z3(n) > 0):
                self.install(S, 0)
                return
            body(0)
            raise PathAbort()
        if n is not None:
            b = z3.Bool(f"noexit!{self.ctx()}")
            if self.decide(b):
                self.install(S, n)
                self.assume_all((S.k,), z3.Implies(z3.And(S.k >= 0, S.k < to_z3(n)), z3.Not(S.exit)))
                if not self.feasible(z3.BoolVal(True)):
                    raise PathAbort()
                return
        e = self.fresh("exit", z3.IntSort())
        self.facts.append(e >= 0)
        if n is not None:
            self.facts.append(e < to_z3(n))
        if S.exit is not True:
            self.install(S, e)
            at = lambda x: collapse_bool(z3.substitute(S.exit, (S.k, to_z3(x))))
            self.assume_all((S.k,), z3.Implies(z3.And(S.k >= 0, S.k < e), z3.Not(S.exit)))
            self.facts.append(at(e))
            self.facts.append(z3.Or(e == 0, z3.Not(at(e - 1))))
            self.facts.append(z3.Implies(at(0), e == 0))
        else:
            self.facts.append(e == 0)
            self.install(S, e)
        if not self.feasible(z3.BoolVal(True)):
            raise PathAbort()
        body(e)
        raise PathAbort()


def leaves(v):
    if isinstance(v, Choice):
        return [y for _, x in v.alts for y in leaves(x)]
    return [v]


def mentions_v(v, k):
    hit = []
    walk(v, lambda t: hit.append(1) if mentions(t, k) else None)
    return bool(hit)


def collapse_bool(e):
    s = z3.simplify(e)
    return s if z3.is_true(s) or z3.is_false(s) else e


def static(v):
    """drop alternatives that are decided syntactically"""
    if isinstance(v, Choice):
        alts = []
        for g, x in v.alts:
            if g is not True:
                s = z3.simplify(g)
                if z3.is_false(s):
                    continue
                if z3.is_true(s):
                    g = True
            alts.append((g, static(x)))
            if g is True:
                break
        return alts[0][1] if alts and alts[0][0] is True else Choice(alts)
    return v
