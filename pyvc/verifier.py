"""the verifier: symbolic interpreter + library contracts + specification primitives + the record of obligations"""
import ast
import itertools
import math
import os
import sys
import time
import z3
from . import num, cyfront
from .engine import *
from .interp import *
from .loops import arrvar
from .models import Arrays, Library, NAMED, OPAQUE
from . import models, refute
from .num import land, lor, lnot, to_z3, real, INF
from .values import *

sys.setrecursionlimit(40000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


SMALL = [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)]      # sizes used by the bounded mode


class QForm:
    """for all i0 < n0, ...: fn(i0, ...)   (a specification formula, usable in check and assume only)"""
    __slots__ = ("bounds", "fn")

    def __init__(self, bounds, fn):
        self.bounds, self.fn = bounds, fn


class _Unknown:
    """a formula that can be neither proved nor refuted"""


UNKNOWN = _Unknown()


class Imp:
    """c implies a specification formula"""
    __slots__ = ("c", "q")

    def __init__(self, c, q):
        self.c, self.q = c, q


class Obl:
    __slots__ = ("name", "status", "where", "text", "paths")


class Verifier(Arrays, Library, Interp):
    def __init__(self, root):
        Interp.__init__(self, root)
        self.keep = []
        self.facts.append(z3.And(num.PI > z3.RealVal('3.14159'), num.PI < z3.RealVal('3.1416')))
        self.libmods = None
        self.builtins = dict(NAMED)
        self.builtins.update(EXC)
        self.builtins.update({"NotImplemented": NOTIMPL, "Ellipsis": Ellipsis, "__name__": "x"})
        self.libmods = self.libs()
        self.libmods["verif"] = spec_module()
        for i in range(6):
            v = arrvar(i)
            self.generic[v.get_id()] = v
        self.rng = self.new(LIST)
        self.heap[(self.rng.fam, "list")] = SeqV(())
        self.obl = {}
        self.covers = {}
        self.under_set = set()
        self.pcache = {}
        self.pure_ids = {}
        self.opaque = {}             # symbols for functions of whole arrays: two of one name may be equal
        self.proof_name = ""
        self.callsites = {}
        self.used_contracts = set()
        self.assumptions = set()
        self.small = None

    def small_integer(self, name, lo, hi, v):
        """bounded mode: one of a few values instead of any integer"""
        lo = num.conc(lo) if lo is not None else None
        hi = num.conc(hi) if hi is not None else None
        if hi is not None and (not isinstance(hi, int) or not isinstance(lo, int)) or lo is not None and not isinstance(lo, int):
            self.assume_between(v, lo, hi)
            return v
        lo = lo if lo is not None else 0
        r = max(lo, SMALL[self.small][sum(map(ord, name)) % 3])
        return r if hi is None else min(r, hi)

    def assume_between(self, v, lo, hi):
        if lo is not None:
            self.assume(v >= to_z3(lo))
        if hi is not None:
            self.assume(v <= to_z3(hi))

    # ------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.libmods:
            self.mods[name] = self.libmods[name]
            return self.mods[name]
        if name.split(".")[0] == "bayesbay":
            p = os.path.join(self.root, "src", *name.split("."))
            if os.path.isdir(p):
                f, pkg = os.path.join(p, "__init__.py"), name
            else:
                f, pkg = p + ".py", name.rpartition(".")[0]
            if os.path.exists(f):
                with open(f) as fh:
                    return self.exec_module(name, ast.parse(fh.read(), f), pkg)
            if os.path.exists(p + ".pyx"):
                with open(p + ".pyx") as fh:
                    tree, types = cyfront.parse(fh.read())
                m = self.exec_module(name, tree, pkg)
                cyfront.attach(self, m, types)
                return m
        if name.split(".")[0] == "contracts":
            f = os.path.join(ROOT, *name.split(".")) + ".py"
            if os.path.exists(f):
                with open(f) as fh:
                    return self.exec_module(name, ast.parse(fh.read(), f), "contracts")
        if name.split(".")[0] in ("matplotlib", "tqdm", "arviz"):
            return models.OpaqueMod(name)
        raise Unsupported("module " + name)

    # ------------------------------------------------------------- native attributes
    def native_attr(self, o, name):
        if isinstance(o, Ref) and o.cls is NDARRAY:
            return models.arr_attr(self, o, name)
        if isinstance(o, (str, SStr)):
            return models.str_method(self, o, name)
        if isinstance(o, Tup):
            return models.tup_method(self, o, name)
        if is_num(o) or z3.is_bool(o):
            if name in ("item", "tolist"):
                return Bi(name, lambda e, a, k: o)
            if name == "shape":
                return Tup(())
            if name == "ndim":
                return 0
            if name in ("copy",):
                return Bi(name, lambda e, a, k: o)
            if name == "is_integer":
                return Bi(name, lambda e, a, k: True if (isinstance(o, int) or is_z3(o) and o.is_int()) else z3.IsInt(real(o)))
        return MISSING

    def bi_attr(self, o, name):
        if name == "__name__":
            return o.name.split(".")[-1]
        return MISSING

    # ------------------------------------------------------------- cached solving
    def qkey(self):
        return (tuple(f.get_id() for f in self.facts), tuple((q.fact.get_id(), tuple(v.get_id() for v in q.vars)) for q in self.qfacts))

    def feasible(self, c):
        k = ("f", c.get_id(), self.qkey())
        h = self.pcache.get(k)
        if h is None:
            h = self.pcache[k] = (Interp.feasible(self, c), c, list(self.facts), list(self.qfacts))
        return h[0]

    def under(self, qual):
        return qual in self.under_set

    # ------------------------------------------------------------- obligations
    def record(self, name, status, text=""):
        if not self.recording:
            return
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = Obl()
            o.name, o.status, o.where, o.text, o.paths = name, "proved", self.where, "", 0
        o.paths += 1
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if status != "proved" and os.environ.get("PYVC_FACTS"):
            print("UNPROVED", name, *[str(z3.simplify(f) if is_z3(f) else f)[:300] for f in self.facts], text[:600], sep="\n    ", file=sys.stderr)
        if rank[status] > rank[o.status]:
            o.status, o.text, o.where = status, text, self.where

    def check(self, name, f):
        """obligation: the formula follows from what is known on this path"""
        if not self.recording:
            return
        t0 = time.time()
        key = None
        try:
            r = self.check_f(f)
        except PathAbort:
            r = "proved"
        text = ""
        if r != "proved":
            text = self.describe(f)
        self.record(name, r, text)
        if os.environ.get("PYVC_TRACE"):
            print(f"      [{time.time()-t0:6.2f}s] {r:8s} {name}  ({self.where})", file=sys.stderr)

    def check_f(self, f):
        if f is UNKNOWN:
            return "unknown"
        if isinstance(f, Imp):
            with Saved(self):
                c = self.formula(f.c)
                if c is False:
                    return "proved"
                if c is not True:
                    self.facts.append(c)
                return self.check_f(f.q)
        if isinstance(f, QForm):
            vs = [z3.Int(f"q{len(self.generic)}_{i}") for i in range(len(f.bounds))]
            for v in vs:
                self.generic[v.get_id()] = v
            with Saved(self):
                self.facts += self.ranges(vs, f.bounds)
                if not self.feasible(z3.BoolVal(True)):
                    return "proved"
                paths = self.explore(("q", self.ctx()), lambda: self.call(f.fn, vs))
                worst = "proved"
                for p in paths:
                    if p.kind == "raise":
                        with Saved(self):
                            self.facts += p.guard + p.facts
                            self.qfacts += p.qfacts
                            r = self.prove_cached(False)
                    elif p.kind != "ok":
                        raise Unsupported("control flow in a quantified formula")
                    else:
                        h = self.heap
                        with Saved(self):
                            self.facts += p.guard + p.facts
                            self.qfacts += p.qfacts
                            self.heap = p.heap
                            try:
                                r = self.check_f(p.val)
                            finally:
                                self.heap = h
                    if r != "proved":
                        worst = r if worst != "refuted" else worst
                return worst
        if isinstance(f, Tup) or isinstance(f, Ref) and f.cls is LIST:
            worst = "proved"
            for x in self.unpack(f):
                r = self.check_f(x)
                if r != "proved":
                    worst = r if worst != "refuted" else worst
            return worst
        c = self.formula(f)
        return self.prove_cached(c)

    def prove_cached(self, c):
        if c is True:
            return "proved"
        z = z3.BoolVal(False) if c is False else c
        k = ("p", z.get_id(), self.qkey())
        h = self.pcache.get(k)
        if h is None:
            r = self.prove(z)
            if r == "refuted":
                t = time.time()
                self.model = refute.confirm(self, z)
                self.stats.solver_s += time.time() - t
                if self.model is None:
                    r = "unknown"
            h = self.pcache[k] = (r, z, list(self.facts), list(self.qfacts), self.model if r == "refuted" else None)
        if h[0] == "refuted":
            self.model = h[4]
        return h[0]

    def ranges(self, vs, bounds):
        out = []
        for v, b in zip(vs, bounds):
            if b is None:
                continue
            lo, hi = b
            out += [v >= to_z3(lo)] + ([v < to_z3(hi)] if hi is not None else [])
        return out

    def formula(self, f):
        """specification value -> python bool or z3 bool"""
        f = self.resolve(f)
        if isinstance(f, bool):
            return f
        if is_z3(f) and z3.is_bool(f):
            return f
        t = self.truth_c(f)
        return t

    def suppose(self, f):
        if isinstance(f, Imp):
            c = self.formula(f.c)
            if c is True:
                return self.suppose(f.q)
            if c is False:
                return
            if isinstance(f.q, QForm):
                return self.suppose_q(f.q, c)
            raise Unsupported("assumed implication")
        if isinstance(f, QForm):
            return self.suppose_q(f, None)
        if isinstance(f, Tup) or isinstance(f, Ref) and f.cls is LIST:
            for x in self.unpack(f):
                self.suppose(x)
            return
        self.assume(self.formula(f))
        if not self.feasible(z3.BoolVal(True)):
            raise PathAbort()

    def suppose_q(self, f, cond):
        key = self.ctx()
        vs = [z3.Int(f"a!{key}_{i}") for i in range(len(f.bounds))]
        for v in vs:
            self.generic[v.get_id()] = v
        rng = self.ranges(vs, f.bounds)
        with Saved(self):
            self.facts += rng + ([cond] if cond is not None else [])
            if not self.feasible(z3.BoolVal(True)):
                return
            body = self.merged(lambda: self.to_bool(self.call(f.fn, vs)))
        pre = land(*rng, *([cond] if cond is not None else []))
        self.assume_all(vs, num.boolz(body) if pre is True else z3.Implies(pre, num.boolz(body)))

    def to_bool(self, v):
        if isinstance(v, (QForm, Imp)):
            raise Unsupported("nested quantifier in an assumption")
        return self.formula(v)

    def describe(self, f):
        t = ""
        try:
            if is_z3(f):
                t = str(z3.simplify(f))[:1500]
        except Exception:
            pass
        m = getattr(self, "model", None)
        return (t + ("\ncounterexample: " + m if m else ""))[:4000]

    def tb(self):
        if os.environ.get("PYVC_DEBUG"):
            import traceback
            lines = traceback.format_exc().strip().split("\n")
            print("\n".join(lines[-int(os.environ["PYVC_DEBUG"]):]), file=sys.stderr)

    # ------------------------------------------------------------- one proof
    def run_proof(self, name, thunk, budget=60, allow=()):
        """execute a specification thunk along every path; returns the record"""
        t0 = time.time()
        self.deadline = t0 + budget
        self.obl, self.covers = {}, {}
        self.proof_name = name
        self.where = ""
        self.inlined = {}
        self.used_contracts = set()
        self.stats = Stats()
        self.recording = True
        self.memo = {}
        self.peels = {}
        err = None
        npaths = 0
        try:
            paths = self.explore(("proof", name), thunk, limit=3000)
            for p in paths:
                npaths += 1
                if p.kind == "raise":
                    x = p.val
                    en = x.exc.cls.name
                    msg = ""
                    try:
                        msg = repr(p.heap.get((x.exc.fam, "args")))[:200]
                    except Exception:
                        pass
                    with Saved(self):
                        self.facts += p.guard + p.facts
                        self.qfacts += p.qfacts
                        self.where = x.where or ""
                        self.deadline = max(self.deadline, time.time() + 5)
                        self.record(f"no {en} escapes", self.prove_cached(False), f"{en} {msg} raised at {x.where}")
        except Unsupported as x:
            self.tb()
            err = f"unsupported: {x} (at {self.where})"
        except z3.Z3Exception as x:
            self.tb()
            err = f"solver: {x} (at {self.where})"
        except RecursionError:
            err = "recursion limit"
        except (PyRaise, BrkX, ContX, RetX, PathAbort) as x:
            err = f"internal control flow {type(x).__name__}"
        except Exception as x:
            self.tb()
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            err = f"internal error {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno}; at {self.where})"
        st = self.stats
        return dict(name=name, error=err, paths=npaths, time=round(time.time() - t0, 2), solver_s=round(st.solver_s, 2), by=dict(st.by),
                    obligations=[dict(name=o.name, status=o.status, where=o.where, text=o.text, paths=o.paths) for o in self.obl.values()],
                    covers={k: v for k, v in self.covers.items()},
                    inlined=sorted(q for q in self.inlined if q.startswith("bayesbay.")),
                    contracts=sorted(self.used_contracts))


# ----------------------------------------------------------------------------- specification primitives
def spec_module():
    m = Mod("verif")

    def d(name):
        def g(f):
            m.ns[name] = Bi("verif." + name, f)
            return f
        return g

    @d("real")
    def _(e, a, k):
        return e.fresh(a[0] if a else "r")

    @d("integer")
    def _(e, a, k):
        v = e.fresh(a[0] if a else "i", z3.IntSort())
        if e.small is not None and k.get("size", True):
            return e.small_integer(a[0] if a else "i", k.get("lo"), k.get("hi"), v)
        if "lo" in k:
            e.assume(v >= to_z3(k["lo"]))
        if "hi" in k:
            e.assume(v <= to_z3(k["hi"]))
        lo, hi = (num.conc(k.get(x)) for x in ("lo", "hi"))
        if e.small is not None and isinstance(lo, int) and isinstance(hi, int) and hi - lo < 4:
            for c in range(lo, hi):
                if e.decide(v == c):
                    return c
            return hi
        return v

    @d("nat")
    def _(e, a, k):
        v = e.fresh(a[0] if a else "n", z3.IntSort())
        if e.small is not None:
            return e.small_integer(a[0] if a else "n", 0, None, v)
        e.assume(v >= 0)
        return v

    @d("boolean")
    def _(e, a, k):
        return e.fresh(a[0] if a else "b", z3.BoolSort())

    @d("array")
    def _(e, a, k):
        """array(name, n, [m]): array of unknown reals"""
        shape = [num.norm(x) for x in a[1:]]
        sort = z3.IntSort() if k.get("dtype") == "int" else z3.RealSort()
        f = e.fresh_fun(a[0], len(shape), sort)
        r = e.new(NDARRAY)
        vs = [arrvar(i) for i in range(len(shape))]
        e.heap[(r.fam, "data")] = ArrV(shape, vs, f(*vs))
        return r

    @d("array_of")
    def _(e, a, k):
        """array_of(n, lambda i: value)"""
        shape, fn = a[:-1], a[-1]
        vs = [arrvar(i) for i in range(len(shape))]
        with Saved(e):
            e.facts += [z3.And(v >= 0, v < to_z3(n)) for v, n in zip(vs, shape)]
            body = e.merged(lambda: e.scalar(e.call(fn, vs)))
        r = e.new(NDARRAY)
        e.heap[(r.fam, "data")] = ArrV([num.norm(x) for x in shape], vs, body)
        return r

    @d("reals")
    def _(e, a, k):
        """reals(name, n): list of unknown reals"""
        n = num.norm(a[1])
        f = e.fresh_fun(a[0], 1)
        t = e.fresh_index("t")
        return e.mklist([Seg(n, t, f(t))])

    @d("uf")
    def _(e, a, k):
        """uf(name, nargs): an unknown real function"""
        f = e.fresh_fun(a[0], a[1], argsort=z3.RealSort())
        return Bi("uf:" + a[0], lambda e, x, kk: f(*[real(e.need(v)) for v in x]))

    @d("ufi")
    def _(e, a, k):
        """ufi(name, nargs): an unknown real function of integers"""
        f = e.fresh_fun(a[0], a[1])
        return Bi("uf:" + a[0], lambda e, x, kk: f(*[to_z3(e.need(v)) for v in x]))

    @d("ufn")
    def _(e, a, k):
        """ufn(name, nargs): an unknown integer function of integers"""
        f = e.fresh_fun(a[0], a[1], sort=z3.IntSort())
        return Bi("uf:" + a[0], lambda e, x, kk: f(*[to_z3(e.need(v)) for v in x]))

    @d("ufb")
    def _(e, a, k):
        f = e.fresh_fun(a[0], a[1], sort=z3.BoolSort())
        return Bi("uf:" + a[0], lambda e, x, kk: f(*[to_z3(e.need(v)) for v in x]))

    @d("name_of")
    def _(e, a, k):
        """name_of(family, i): the i-th of a family of distinct names"""
        return SStr([("N:" + a[0], tuple(e.need(x) for x in a[1:]))])

    @d("assume")
    def _(e, a, k):
        for x in a:
            e.suppose(x)

    @d("check")
    def _(e, a, k):
        e.check(a[0], a[1])

    @d("forall")
    def _(e, a, k):
        """forall(n, fn) or forall(lo, hi, fn) or forall(fn, k) ; forall2(n, m, fn)"""
        if len(a) == 2:
            return QForm([(0, a[0])], a[1])
        return QForm([(a[0], a[1])], a[2])

    @d("forall2")
    def _(e, a, k):
        return QForm([(0, a[0]), (0, a[1])], a[2])

    @d("forall3")
    def _(e, a, k):
        return QForm([(0, a[0]), (0, a[1]), (0, a[2])], a[3])

    @d("implies")
    def _(e, a, k):
        if isinstance(a[1], (QForm, Imp)) or isinstance(a[1], Ref):
            return Imp(a[0], a[1])
        return lor(lnot(e.formula(a[0])), e.formula(a[1]))

    @d("iff")
    def _(e, a, k):
        x, y = num.boolz(e.formula(a[0])), num.boolz(e.formula(a[1]))
        return x == y

    @d("both")
    def _(e, a, k):
        return land(*[e.formula(x) for x in a])

    @d("either")
    def _(e, a, k):
        return lor(*[e.formula(x) for x in a])

    @d("neg")
    def _(e, a, k):
        return lnot(e.formula(a[0]))

    @d("ite")
    def _(e, a, k):
        c = e.formula(a[0])
        if c is True:
            return a[1]
        if c is False:
            return a[2]
        return e.merge2(c, a[1], a[2])

    @d("total")
    def _(e, a, k):
        """total(n, lambda i: term): the finite sum over i < n"""
        t = e.fresh_index("t")
        with Saved(e):
            e.facts += [t >= 0, t < to_z3(a[0])]
            if not e.feasible(z3.BoolVal(True)):
                return 0
            b = e.merged(lambda: e.scalar(e.call(a[1], [t])))
        return e.mk_sum(a[0], t, real(b))

    @d("some")
    def _(e, a, k):
        """some(n, lambda i: cond): there is i < n"""
        t = e.fresh_index("t")
        with Saved(e):
            e.facts += [t >= 0, t < to_z3(a[0])]
            if not e.feasible(z3.BoolVal(True)):
                return False
            b = e.merged(lambda: e.formula(e.call(a[1], [t])))
        if isinstance(b, bool):
            return land(to_z3(a[0]) > 0, b)
        return e.mk_any(a[0], t, b)

    @d("decide")
    def _(e, a, k):
        return e.truth(a[0])

    @d("cover")
    def _(e, a, k):
        """this point is reachable (guards against vacuous proofs)"""
        if e.recording:
            if not e.covers.get(a[0]):
                t = time.time()
                r = e.quick()
                e.covers[a[0]] = r == z3.sat or (r == z3.unknown and e.covers.get(a[0], True))
        return None

    @d("raises")
    def _(e, a, k):
        """raises(thunk, exc...): the exception class name if thunk raises one of them, else None"""
        try:
            e.call(a[0], [])
        except PyRaise as x:
            for c in a[1:]:
                if x.exc.cls.sub(c):
                    return x.exc.cls.name
            raise
        return None

    @d("draws")
    def _(e, a, k):
        return e.rng

    @d("draw")
    def _(e, a, k):
        """draw(j): (kind, parameters..., value) of the j-th random draw so far"""
        return e.seq_at(e.segments(e.rng), e.norm_index(e.py_index(a[0]), e.length(e.rng)))

    @d("last_draw")
    def _(e, a, k):
        """last_draw(): the most recent random draw"""
        segs = e.segments(e.rng)
        if segs and isinstance(segs[-1], El):
            return segs[-1].v
        return e.seq_at(segs, num.sub(e.length(e.rng), 1))

    @d("unit")
    def _(e, a, k):
        v = e.fresh(a[0] if a else "u")
        e.assume(z3.And(v > 0, v < 1))
        return v

    @d("snapshot")
    def _(e, a, k):
        return Snap(e, a)

    @d("unchanged")
    def _(e, a, k):
        return a[0].unchanged(e)

    @d("havoc")
    def _(e, a, k):
        """havoc(obj, attr, value): set an attribute without running property code"""
        e.put(a[0], a[1], a[2])

    @d("fresh_object")
    def _(e, a, k):
        """fresh_object(cls, attr=value, ...): an instance made without running __init__"""
        r = e.new(a[0])
        for n, v in k.items():
            e.heap[(r.fam, n)] = v
        return r

    @d("is_same")
    def _(e, a, k):
        return e.identical(a[0], a[1])

    @d("log")
    def _(e, a, k):
        return LOG(real(e.need(a[0])))

    @d("exp")
    def _(e, a, k):
        return EXP(real(e.need(a[0])))

    @d("sqrt")
    def _(e, a, k):
        return SQRT(real(e.need(a[0])))

    @d("pure")
    def _(e, a, k):
        """pure(name, sort, args...): the result of a deterministic computation from the contents of its arguments"""
        r = pure(e, a[0], {"int": z3.IntSort(), "real": z3.RealSort(), "positive": z3.RealSort(), "bool": z3.BoolSort()}[a[1]], a[2:])
        if a[1] == "positive":
            e.posfuns.add(r.decl().name())
        return r

    @d("trust")
    def _(e, a, k):
        e.assumptions.add(a[0])
    m.ns["PI"] = PI
    m.ns["INF"] = INF

    @d("contract")
    def _(e, a, k):
        return Bi("contract-deco", lambda e, b, kk: e.reg_contract(a[0], k, b[0]))

    @d("proof")
    def _(e, a, k):
        return Bi("proof-deco", lambda e, b, kk: e.reg_proof(a, k, b[0]))

    @d("show")
    def _(e, a, k):
        if e.recording:
            print("SHOW", e.where, *[e.show(x) for x in a], file=sys.stderr)
    return m


def pure(e, name, sort, args):
    consts, seen = [], set()

    def free(x):
        todo, done = [x], set()
        while todo:
            t = todo.pop()
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if z3.is_app(t):
                if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if not t.decl().name().startswith("$v") and t.get_id() not in seen:
                        seen.add(t.get_id())
                        consts.append(t)
                todo.extend(reversed(t.children()))

    def norm(x):
        return z3.simplify(to_z3(x) if not z3.is_bool(x) and not isinstance(x, bool) else num.boolz(x))

    def norm_s(x):
        return z3.simplify(num.real(x)) if not z3.is_bool(x) and not isinstance(x, bool) else num.boolz(x)
    key, scal = [], []
    for x in args:
        if x is None or isinstance(x, str):
            key.append(repr(x))
        elif isinstance(x, Ref) and x.cls is NDARRAY and e.arr(x).shape != (1,):
            v = e.flat(e.arr(x))
            if all(isinstance(n, int) for n in v.shape) and math.prod(v.shape) <= 64:
                for at in itertools.product(*map(range, v.shape)):
                    scal.append(norm_s(e.subst(v.body, list(zip(v.vars, map(z3.IntVal, at))))))
                key.append("a%r" % (v.shape,))
                continue
            vs = [arrvar(i) for i in range(len(v.shape))]
            parts = [norm(n) for n in v.shape] + [norm(e.subst(v.body, list(zip(v.vars, vs))))]
            for q in parts:
                free(q)
            key.append(parts)
        else:
            scal.append(norm_s(e.scalar(e.elem(e.arr(x), [0]) if isinstance(x, Ref) and x.cls is NDARRAY else x)))
            key.append("s")
    place = [(c, z3.Const(f"$p{i}", c.sort())) for i, c in enumerate(consts)]
    txt = []
    for x in key:
        txt.append(x if isinstance(x, str) else tuple(z3.substitute(q, *place).sexpr() if place else q.sexpr() for q in x))
    sorts = tuple(str(c.sort()) for c in consts) + tuple(str(c.sort()) for c in scal)
    ident = e.pure_ids.setdefault((name, tuple(txt), sorts), len(e.pure_ids))
    if any(not isinstance(x, str) for x in key):
        e.opaque[f"{name}!pure{ident}"] = name
    f = z3.Function(f"{name}!pure{ident}", *[c.sort() for c in consts + scal], sort)
    return f(*consts, *scal) if consts or scal else z3.Const(f"{name}!pure{ident}", sort)


def same_value(e, a, b):
    """specification formula: the two values are equal"""
    if isinstance(a, Ref) and a.cls is NDARRAY and isinstance(b, Ref) and b.cls is NDARRAY:
        x, y = e.flat(e.arr(a)), e.flat(e.arr(b))
        if len(x.shape) != len(y.shape):
            return False
        fs = [num.cmp("==", p, q) for p, q in zip(x.shape, y.shape)]
        body = Bi("same", lambda e, i, k: num.cmp("==", e.subst(x.body, list(zip(x.vars, i))), e.subst(y.body, list(zip(y.vars, i)))))
        return e.mklist([El(land(*fs)), El(QForm([(0, n) for n in x.shape], body))])
    return e.equal_v(a, b)


def show(self, x, depth=0):
    if isinstance(x, Ref):
        if x.cls is NDARRAY:
            return "array" + repr(self.heap.get((x.fam, "data")))
        if x.cls in (LIST, SET):
            return "list" + repr(self.heap.get((x.fam, "list")))
        if x.cls is DICT:
            return "dict" + repr(self.heap.get((x.fam, "dict"))) + repr({c: self.heap[c] for c in self.heap if c[0] == x.fam and c[1] != "dict"})
        return f"<{x.cls.name} #{x.fam}{x.idx} " + repr({c[1]: v for c, v in self.heap.items() if c[0] == x.fam}) + ">"
    return repr(x)


def need(self, v):
    v = self.scalar(v)
    if not is_num(v) and not z3.is_bool(v):
        raise Unsupported("number expected in a specification")
    return v


def reg_contract(self, qual, opts, cls):
    self.contract_defs[qual] = (cls, opts)
    return cls


def reg_proof(self, props, opts, f):
    self.proof_defs.append((f.qual, tuple(props), opts, f))
    return f


Verifier.show = show
Verifier.same_value = same_value
Verifier.need = need
Verifier.reg_contract = reg_contract
Verifier.reg_proof = reg_proof


class Snap:
    """the part of the heap reachable from some objects, as it was"""

    def __init__(self, e, roots):
        self.roots = list(roots)
        self.heap = {}
        todo, seen = list(roots), set()
        fams = set()
        while todo:
            v = todo.pop()
            for r in refs(v):
                if r.fam in fams:
                    continue
                fams.add(r.fam)
                for c in [c for c in e.heap if c[0] == r.fam]:
                    self.heap[c] = e.heap[c]
                    todo.append(e.heap[c])

    def unchanged(self, e):
        out = []
        for c, v in self.heap.items():
            w = e.heap.get(c, MISSING)
            if w is v or same(w, v):
                continue
            if w is MISSING:
                return False
            d = differ_free(e, c, v, w)
            if d is False:
                return False
            out.append(El(d))
        # no attribute added
        fams = {c[0] for c in self.heap}
        for c in e.heap:
            if c[0] in fams and c not in self.heap:
                return False
        return e.mklist(out)


def differ_free(e, c, v, w):
    """condition under which the contents v and w of one cell are equal"""
    if isinstance(v, Choice) or isinstance(w, Choice):
        return differ_free(e, c, e.resolve(v), e.resolve(w)) if not e.fams[c[0]].formals else (True if same(v, w) else UNKNOWN)
    if isinstance(v, (ArrV, StoreV)) and isinstance(w, (ArrV, StoreV)):
        a, b = e.flat(v), e.flat(w)
        if not same(tuple(a.shape), tuple(b.shape)):
            if len(a.shape) != len(b.shape) or not all(e.holds(num.boolz(num.cmp("==", x, y))) for x, y in zip(a.shape, b.shape)):
                return False
        rng = [z3.And(x >= 0, x < to_z3(n)) for x, n in zip(a.vars, a.shape)]
        f = e.fams[c[0]].formals
        bb = e.subst(b.body, list(zip(b.vars, a.vars)))
        eq = num.boolz(num.cmp("==", a.body, bb))
        with Saved(e):
            e.facts += rng
            if e.prove(eq) == "proved":
                return True
        fam = e.fams[c[0]]
        vs = list(a.vars) + list(fam.formals)
        if any(n is None for n in fam.bounds):
            return UNKNOWN
        return QForm([(0, n) for n in list(a.shape) + list(fam.bounds)], Bi("same", lambda e, i, k: e.subst(eq, list(zip(vs, i)))))
    if (is_num(v) or z3.is_bool(v)) and (is_num(w) or z3.is_bool(w)):
        if num.is_inf(v) or num.is_inf(w):
            return v == w
        return num.cmp("==", v, w) if not (isinstance(v, bool) or z3.is_bool(v)) else num.boolz(v) == num.boolz(w)
    if isinstance(v, SeqV) and isinstance(w, SeqV):
        A, B = e.new(LIST), e.new(LIST)
        e.heap[(A.fam, "list")], e.heap[(B.fam, "list")] = v, w
        return e.seq_equal(A, B)
    if isinstance(v, Ref) and isinstance(w, Ref):
        return e.identical(v, w) if not e.fams[c[0]].formals else UNKNOWN
    return False if not e.fams[c[0]].formals else UNKNOWN


def refs(v):
    out = []

    def go(v):
        if isinstance(v, Ref):
            out.append(v)
        elif isinstance(v, El):
            go(v.v)
        elif isinstance(v, Seg):
            go(v.v)
        elif isinstance(v, Cat):
            for s in v.segs:
                go(s)
        elif isinstance(v, SeqV):
            for s in v.segs:
                go(s)
        elif isinstance(v, (Item,)):
            pass
        elif isinstance(v, SymItem):
            go(v.v)
        elif isinstance(v, Grp):
            go(v.v)
        elif isinstance(v, DictV):
            for s in v.ents:
                go(s)
        elif isinstance(v, Choice):
            for _, x in v.alts:
                go(x)
        elif isinstance(v, Tup):
            for x in v.items:
                go(x)
        elif isinstance(v, BoundV):
            go(v.obj)
        elif isinstance(v, PartialV):
            for x in list(v.args) + list(v.kw.values()) + [v.f]:
                go(x)
    go(v)
    return out


# ----------------------------------------------------------------------------- C functions
def c_args(self, f, ref, b):
    for n, t in f.ctypes_["args"].items():
        self.heap[(ref.fam, n)] = cyfront.coerce(self, t, b[n])


def c_result(self, f, r):
    t = f.ctypes_["ret"]
    return r if t is None or r is None else cyfront.coerce(self, t, r)


def c_fallthrough(self, f):
    if f.ctypes_["ret"] not in (None, "object", "void"):
        raise RetX(0)


def store(self, name, v):
    fr = self.fr
    if fr.func is not None and fr.func.ctypes_ and name in fr.names:
        t = fr.func.ctypes_["vars"].get(name) or fr.func.ctypes_["args"].get(name)
        if t:
            v = cyfront.coerce(self, t, v)
    Interp.store(self, name, v)


def in_c(self):
    return self.fr is not None and self.fr.func is not None and bool(self.fr.func.ctypes_)


Verifier.c_args, Verifier.c_result, Verifier.c_fallthrough, Verifier.store, Verifier.in_c = c_args, c_result, c_fallthrough, store, in_c
