"""symbolic interpreter for the repository's Python source (and for the contract files)"""
import ast
import time
import os
import z3
from fractions import Fraction
from . import num
from .engine import *
from .loops import Loops
from .num import land, lor, lnot, to_z3, real
from .values import *

TYPE = PyClass("type", (), {})
OBJECT = PyClass("object", (), {}, native="object")


def ncls(name, bases=(OBJECT,)):
    return PyClass(name, bases, {}, native=name)


LIST, DICT, NDARRAY, SET = ncls("list"), ncls("dict"), ncls("ndarray"), ncls("set")
NUMBER = ncls("Number")
FLOAT, STR, TUPLE, NONETYPE, FUNC, MODULE = ncls("float", (NUMBER,)), ncls("str"), ncls("tuple"), ncls("NoneType"), ncls("function"), ncls("module")
COMPLEX = ncls("complex", (NUMBER,))
INT = ncls("int", (NUMBER,))
BOOL = ncls("bool", (INT,))
EXC = {}


def exc(name, *bases):
    EXC[name] = PyClass(name, tuple(EXC[b] for b in bases) or (OBJECT,), {}, native="exception")


exc("BaseException")
exc("Exception", "BaseException")
exc("KeyboardInterrupt", "BaseException")
exc("SystemExit", "BaseException")
exc("StopIteration", "Exception")
exc("ArithmeticError", "Exception")
exc("ZeroDivisionError", "ArithmeticError")
exc("OverflowError", "ArithmeticError")
exc("FloatingPointError", "ArithmeticError")
exc("AssertionError", "Exception")
exc("AttributeError", "Exception")
exc("LookupError", "Exception")
exc("IndexError", "LookupError")
exc("KeyError", "LookupError")
exc("NameError", "Exception")
exc("UnboundLocalError", "NameError")
exc("RuntimeError", "Exception")
exc("NotImplementedError", "RuntimeError")
exc("RecursionError", "RuntimeError")
exc("TypeError", "Exception")
exc("ValueError", "Exception")
exc("ImportError", "Exception")
exc("ModuleNotFoundError", "ImportError")
exc("OSError", "Exception")
exc("FileNotFoundError", "OSError")
exc("Warning", "Exception")
exc("UserWarning", "Warning")
exc("DeprecationWarning", "Warning")
exc("FutureWarning", "Warning")
exc("RuntimeWarning", "Warning")

FRAME = PyClass("frame", (), {})
NOTIMPL = object()


class Frame:
    __slots__ = ("ref", "ns", "names", "mod", "env", "func", "captured", "globals_")

    def __init__(self, ref, ns, names, mod, env, func):
        self.ref, self.ns, self.names, self.mod, self.env, self.func = ref, ns, names, mod, env, func
        self.captured = False


def local_names(node):
    out, glob = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            raise Unsupported("nonlocal")
        for c in ast.iter_child_nodes(n):
            go(c)
    if isinstance(node, ast.Lambda):
        pass
    else:
        for s in node.body:
            go(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    return frozenset(out - glob)


class Interp(Loops, Base):
    def __init__(self, root):
        Base.__init__(self)
        self.root = root
        self.mods = {}
        self.builtins = {}
        self.fr = None
        self.contracts = {}
        self.depth = 0
        self.handling = []
        self.inlined = {}
        self.steps = 0
        self.exs = [Explorer(("top",), [])]

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = self.load_module(name)
        return m

    def load_module(self, name):
        raise Unsupported("module " + name)

    def exec_module(self, name, tree, package):
        m = Mod(name)
        m.ns["__name__"] = name
        m.package = package
        self.mods[name] = m
        old = self.fr
        self.fr = Frame(None, m.ns, (), m, (), None)
        try:
            for s in tree.body:
                self.stmt(s)
        finally:
            self.fr = old
        return m

    # ------------------------------------------------------------- errors
    def throw(self, name, msg=""):
        cls = EXC[name] if isinstance(name, str) else name
        r = self.new(cls)
        self.heap[(r.fam, "args")] = Tup((msg,))
        raise PyRaise(r, self.where)

    # ------------------------------------------------------------- names
    def load(self, name):
        fr = self.fr
        if fr.ns is not None:
            if name in fr.ns:
                return fr.ns[name]
        elif name in fr.names:
            return self.local(fr.ref, name)
        for ref, names in reversed(fr.env):
            if ref is None:
                if name in names:
                    return names[name]
            elif name in names:
                return self.local(ref, name)
        if name in fr.mod.ns:
            return fr.mod.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw("NameError", name)

    def local(self, ref, name):
        v = self.rd(ref, name)
        if v is UNBOUND or v is MISSING:
            self.throw("UnboundLocalError", name)
        return v

    def rd(self, ref, cell):
        v = self.get(ref, cell)
        if isinstance(v, Poison):
            if not self.recording and isinstance(v.why, tuple):
                raise Unsupported(f"value of {v.why[1]} carried by a loop")
            raise Unsupported(f"value of {cell} after a loop")
        return v

    def store(self, name, v):
        fr = self.fr
        if fr.ns is not None:
            fr.ns[name] = v
        elif name in fr.names:
            self.put(fr.ref, name, v)
        else:
            raise Unsupported("assignment to global " + name)

    # ------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.where = f"{self.fr.mod.name}:{getattr(s, 'lineno', 0)}"
        self.steps += 1
        getattr(self, "s_" + type(s).__name__, self.s_bad)(s)

    def s_bad(self, s):
        raise Unsupported("statement " + type(s).__name__)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    def s_Expr(self, s):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value)

    def s_Return(self, s):
        raise RetX(None if s.value is None else self.ev(s.value))

    def s_Break(self, s):
        raise BrkX()

    def s_Continue(self, s):
        raise ContX()

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if self.fr.ns is not None and isinstance(s.target, ast.Name):
            self.fr.ns.setdefault("__annotations__", {})[s.target.id] = None
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id)
            self.store(t.id, self.aug(s.op, old, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, old, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value), self.index(t.slice)
            old = self.getitem(o, i)
            self.setitem(o, i, self.aug(s.op, old, self.ev(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, old, v):
        if isinstance(old, Ref) and old.cls is LIST and isinstance(op, ast.Add):
            self.call(self.getattr(old, "extend"), [v])
            return old
        if isinstance(old, Ref) and old.cls is NDARRAY:
            r = self.binop(op, old, v)
            self.arr_assign(old, r)
            return old
        return self.binop(op, old, v)

    def arr_assign(self, ref, v):
        raise Unsupported("in-place array operation")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            xs = self.unpack(v, None if star else len(t.elts))
            if star:
                i = star[0]
                rest = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    self.throw("ValueError", "unpack")
                mid = self.mklist([El(x) for x in xs[i:len(xs) - rest]])
                xs = xs[:i] + [mid] + xs[len(xs) - rest:]
                for a, b in zip(t.elts, xs):
                    self.assign(a.value if isinstance(a, ast.Starred) else a, b)
                return
            if len(xs) != len(t.elts):
                self.throw("ValueError", "unpack")
            for a, b in zip(t.elts, xs):
                self.assign(a, b)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n=None):
        segs = self.segments(v)
        out = []
        for s in segs:
            if isinstance(s, El):
                out.append(s.v)
            elif isinstance(s, Seg) and s.cond is None:
                m = s.n
                if not isinstance(m, int):
                    if n is None or not self.decide(to_z3(m) == n - len(out)):
                        raise Unsupported("unpacking a collection of symbolic size")
                    m = n - len(out)
                out += [self.resolve(self.subst(s.v, [(s.k, i)])) for i in range(m)]
            else:
                raise Unsupported("unpacking a collection of symbolic size")
        return out

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                self.heap[(o.fam, t.attr)] = UNBOUND
            else:
                raise Unsupported("del")

    def s_If(self, s):
        self.block(s.body if self.truth(self.ev(s.test)) else s.orelse)

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            self.throw("AssertionError")

    def s_Raise(self, s):
        if s.exc is None:
            if not self.handling:
                self.throw("RuntimeError", "no active exception")
            raise PyRaise(self.handling[-1], self.where)
        v = self.ev(s.exc)
        if isinstance(v, PyClass):
            v = self.instantiate(v, [], {})
        if not isinstance(v, Ref) or not v.cls.sub(EXC["BaseException"]):
            self.throw("TypeError", "exceptions must derive from BaseException")
        if s.cause is not None:
            self.ev(s.cause)
        raise PyRaise(v, self.where)

    def s_Try(self, s):
        fr, nh, depth = self.fr, len(self.handling), self.depth
        try:
            try:
                self.block(s.body)
            except PyRaise as p:
                self.fr, self.depth = fr, depth
                for h in s.handlers:
                    if self.matches(p.exc, h.type):
                        if h.name:
                            self.store(h.name, p.exc)
                        self.handling.append(p.exc)
                        try:
                            self.block(h.body)
                        finally:
                            del self.handling[nh:]
                        if h.name:
                            self.store(h.name, UNBOUND)
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (PyRaise, RetX, BrkX, ContX):
            self.fr, self.depth = fr, depth
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    def matches(self, e, t):
        if t is None:
            return True
        t = self.ev(t)
        ts = self.unpack(t) if isinstance(t, (Tup, Ref)) else [t]
        return any(e.cls.sub(x) for x in ts)

    def s_With(self, s):
        for i in s.items:
            c = self.ev(i.context_expr)
            if not (isinstance(c, Ref) and c.cls.native == "nullcontext"):
                raise Unsupported("with statement")
            if i.optional_vars is not None:
                self.assign(i.optional_vars, c)
        self.block(s.body)

    def s_For(self, s):
        it = self.ev(s.iter)
        try:
            self.loop_over(it, lambda v: (self.assign(s.target, v), self.block(s.body)), f"{self.fr.mod.name}:{s.lineno}")
        except BrkX:
            return
        self.block(s.orelse)

    def loop_over(self, it, body, label="loop"):
        fr = self.fr

        def once(v):
            self.fr = fr
            try:
                body(self.resolve(v))
            except ContX:
                pass
        segs = self.segments(it)
        src = it if isinstance(it, Ref) else None
        done = ()
        for _ in range(64):
            for s in segs[len(done):]:
                self.each(s, once, label)
            if src is None or src.cls is not LIST:
                return
            done, segs = tuple(segs), tuple(getattr(self.rd(src, "list"), "segs", ()))
            if len(segs) == len(done):
                return
            if len(segs) < len(done) or not same(SeqV(segs[:len(done)]), SeqV(done)):
                raise Unsupported("list changed while it is iterated")
        raise Unsupported("list that grows while it is iterated")

    def each(self, s, once, label):
        if isinstance(s, El):
            once(s.v)
        elif isinstance(s, Seg):
            if s.cond is None:
                f = lambda j: once(self.subst(s.v, [(s.k, j)]))
            else:
                def f(j):
                    if self.decide(self.subst(s.cond, [(s.k, j)])):
                        once(self.subst(s.v, [(s.k, j)]))
            self.repeat(f, s.n, label)
        elif isinstance(s, Cat):
            def g(j):
                if s.cond is None or self.decide(self.subst(s.cond, [(s.k, j)])):
                    for x in s.segs:
                        self.each(self.subst(x, [(s.k, j)]), once, label)
            self.repeat(g, s.n, label)
        else:
            raise Unsupported("iteration over a collection the loop itself extends")

    def repeat(self, f, n, label, peel=True):
        if is_z3(n):
            n = num.conc(z3.simplify(n))
        if isinstance(n, int) and n <= 8:
            for j in range(n):
                f(j)
        else:
            self.loop_or_first(f, n, label, peel)

    def loop_or_first(self, f, n, label, peel):
        """the generic rule; where it does not apply, the first iteration apart from the others"""
        ex = self.exs[-1]
        at = (ex.base, ex.bits, ex.count, label)
        if at in self.peels:
            err, ex.count, cut = self.peels[at]
        else:
            keep = dict(self.heap), list(self.facts), list(self.qfacts), list(self.gstack), self.recording, self.alog, dict(self.pins), self.fr, ex.count, ex.pos
            exs = list(self.exs)
            found, key = [], self.ctx()
            self.watch.append((z3.Int(f"k!{key}"), found))
            ex.count = keep[-2]
            try:
                return self.generic_loop(f, n, label, self.hint_for(label))
            except Unsupported as x:
                if not peel or ex.pos != keep[-1] or self.deadline and time.time() > self.deadline:
                    raise
                err = x
            finally:
                self.watch.pop()
            self.exs[:] = exs
            self.heap, self.facts, self.qfacts, self.gstack, self.recording, self.alog, self.pins, self.fr, _, _ = keep
            ex.count += 1
            cut = None
            if n is not None:
                found = [self.cut_at(x, e, key) for x, e in found]
                known = [e for e in found if e is not None and self.known_here(e)]
                cut = known[0] if known else None
            self.peels[at] = err, ex.count, cut
        try:
            if cut is not None and not self.decide(z3.And(cut >= 0, cut < to_z3(n))):
                self.repeat(f, n, label, False)
            elif cut is not None:
                self.repeat(f, num.norm(cut), label, False)
                f(num.norm(cut))
                self.repeat(lambda j: f(num.add(num.add(j, 1), cut)), num.sub(num.sub(n, 1), cut), label, False)
            else:
                if not self.decide(to_z3(n) > 0):
                    return
                f(0)
                self.repeat(lambda j: f(num.add(j, 1)), num.sub(n, 1), label, False)
        except Unsupported as x:
            raise Unsupported(f"{err}; {'the index apart at which it differs' if cut is not None else 'after the first iteration'}: {x}")

    def cut_at(self, x, e, key):
        """the iteration at which x == e, for x the loop index or a counter"""
        if str(x).startswith("k!"):
            return e
        closed, h0 = self.loop_state.get(key, ({}, {}))
        for c, (kind, form) in closed.items():
            if str(x) == f"m!{key}!{c[0]}!{c[1]}" and isinstance(form, tuple) and form[0] == "sum" and is_num(form[1]) and is_num(form[1]) and num.conc(to_z3(form[1])) == 1 and is_num(h0[c]):
                return z3.simplify(e - to_z3(h0[c]))
        return None

    def known_here(self, e):
        """a term over values that exist before the loop"""
        todo = [e]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[:2] in ("k!", "t!"):
                if not any(z3.eq(x, g[0]) for g in self.gstack):
                    return False
            todo.extend(x.children())
        return True

    def hint_for(self, label):
        return None

    def s_While(self, s):
        fr = self.fr
        label = f"{self.fr.mod.name}:{s.lineno}"
        static = isinstance(s.test, ast.Constant) and s.test.value
        if self.is_queue(s):
            return self.drain(s, fr, label)
        if not static:
            for _ in range(64):
                c = self.static_truth(self.ev(s.test))
                if c is None:
                    break
                if not c:
                    self.block(s.orelse)
                    return
                try:
                    self.block(s.body)
                except ContX:
                    self.fr = fr
                except BrkX:
                    self.fr = fr
                    return
            else:
                raise Unsupported("while loop of unknown length")

        class Done(Exception):
            pass

        def body(j):
            self.fr = fr
            if not static and not self.truth(self.ev(s.test)):
                self.heap[flag] = True
                raise BrkX()
            try:
                self.block(s.body)
            except ContX:
                self.fr = fr
        flag = ("while", self.ctx())
        self.fams.setdefault(flag[0], Fam("while", (), FRAME, "while"))
        try:
            self.generic_loop(body, None, label, self.hint_for(label))
        except BrkX:
            self.fr = fr
            if self.heap.pop(flag, False):
                self.block(s.orelse)

    def is_queue(self, s):
        """while Q [and condition]: x = Q.pop(0); ...   for a list Q"""
        q = s.test.values[0] if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else s.test
        a = s.body[0]
        if not isinstance(q, ast.Name) or not isinstance(a, ast.Assign) or not isinstance(a.value, ast.Call):
            return False
        f, x = a.value.func, a.value.args
        if not (isinstance(f, ast.Attribute) and f.attr == "pop" and isinstance(f.value, ast.Name) and f.value.id == q.id and len(x) == 1
                and isinstance(x[0], ast.Constant) and x[0].value == 0):
            return False
        v = self.ev(q)
        return isinstance(v, Ref) and v.cls is LIST

    def drain(self, s, fr, label):
        """a queue is emptied run by run: whatever an iteration appends comes after everything that was there"""
        q = self.ev(s.test.values[0] if isinstance(s.test, ast.BoolOp) else s.test)
        rest = s.test.values[1:] if isinstance(s.test, ast.BoolOp) else []
        flag = ("while", self.ctx())
        self.fams.setdefault(flag[0], Fam("while", (), FRAME, "while"))

        def once(v):
            self.fr = fr
            if not all(self.truth(self.ev(c)) for c in rest):
                self.heap[flag] = True
                raise BrkX()
            self.put(q, "list", SeqV((El(v),) + self.rd(q, "list").segs))
            try:
                self.block(s.body)
            except ContX:
                self.fr = fr
        try:
            for _ in range(64):
                segs = self.rd(q, "list").segs
                if not segs:
                    self.block(s.orelse)
                    return
                self.put(q, "list", SeqV(segs[1:]))
                self.each(segs[0], once, label)
            raise Unsupported("while loop of unknown length")
        except BrkX:
            self.fr = fr
            if self.heap.pop(flag, False):
                self.block(s.orelse)

    def static_truth(self, v):
        """truth value if it is decided without forking, else None"""
        if isinstance(v, (bool, int, Fraction, float, str)) or v is None:
            return bool(v)
        if isinstance(v, Ref) and v.cls in (LIST, DICT):
            v = num.cmp("!=", self.length(v), 0)
            if isinstance(v, bool):
                return v
        if isinstance(v, Tup):
            return bool(v.items)
        if is_z3(v):
            c = z3.simplify(v if z3.is_bool(v) else v != 0)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        return None

    def s_FunctionDef(self, s):
        f = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f)
        self.store(s.name, f)

    def decorate(self, d, f):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter"):
            p = self.ev(d.value)
            return PropertyV(p.get, f) if d.attr == "setter" else PropertyV(f, p.set)
        return self.call(self.ev(d), [f])

    def mkfunc(self, node, name):
        fr = self.fr
        ds = [self.ev(d) for d in node.args.defaults]
        kds = [None if d is None else (self.ev(d),) for d in node.args.kw_defaults]
        env = fr.env
        if fr.ns is None:
            env = env + ((fr.ref, fr.names),)
            fr.captured = True
        qual = (fr.func.qual + "." if fr.func is not None and fr.ns is None else fr.mod.name + ".") + name
        f = Func(node, name, fr.mod, env, ds, kds, qual)
        f.locals_ = local_names(node)
        return f

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            b = self.ev(b)
            if isinstance(b, PyClass):
                bases.append(b)
        if not bases:
            bases = [OBJECT]
        bases = [b for b in bases if b is not OBJECT] or [OBJECT]
        fr = self.fr
        ns = {}
        env = fr.env + (((fr.ref, fr.names),) if fr.ns is None else ())
        self.fr = Frame(None, ns, (), fr.mod, env, None)
        try:
            for x in s.body:
                self.stmt(x)
        finally:
            self.fr = fr
        ann = list(ns.pop("__annotations__", {}))
        c = PyClass(s.name, bases, ns, fr.mod)
        c.ann = ann
        c.qual = fr.mod.name + "." + s.name
        for k, v in ns.items():
            for f in (v, getattr(v, "f", None), getattr(v, "get", None), getattr(v, "set", None)):
                if isinstance(f, Func) and f.owner is None:
                    f.owner = c
                    f.qual = c.qual + "." + f.name
        nat = next((b.native for b in c.mro if b.native and b.native != "object"), None)
        c.native = nat
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d), [c])
        self.store(s.name, c)

    def s_Import(self, s):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.store(a.asname, m)
            else:
                self.store(a.name.split(".")[0], self.module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            p = self.fr.mod.package.split(".")
            base = p[:len(p) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.module(name)
        for a in s.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.store(k, v)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                v = self.module(name + "." + a.name)
            self.store(a.asname or a.name, v)

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        return getattr(self, "e_" + type(e).__name__, self.e_bad)(e)

    def e_bad(self, e):
        raise Unsupported("expression " + type(e).__name__)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return num.norm(v)
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            return v
        return v

    def e_Name(self, e):
        return self.load(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.index(e.slice))

    def index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return Tup([self.index(x) for x in s.elts])
        return self.ev(s)

    def e_Tuple(self, e):
        return Tup(self.exprs(e.elts))

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.segments(self.ev(x.value))
            else:
                segs.append(El(self.ev(x)))
        return self.mklist(segs)

    def e_Set(self, e):
        r = self.new(SET)
        self.heap[(r.fam, "list")] = SeqV(())
        for v in self.exprs(e.elts):
            self.call(self.getattr(r, "add"), [v])
        return r

    def exprs(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def few(self, segs):
        """bounded mode: runs of a few elements written out"""
        out = []
        for s in segs:
            n = getattr(s, "n", None)
            n = num.conc(z3.simplify(n)) if is_z3(n) else n
            if isinstance(s, (Seg, Cat)) and isinstance(n, int) and n <= 4:
                for j in range(n):
                    c = True if s.cond is None else self.subst(s.cond, [(s.k, z3.IntVal(j))])
                    c = num.conc(z3.simplify(c)) if is_z3(c) else c
                    c = True if is_z3(c) and z3.is_true(c) else False if is_z3(c) and z3.is_false(c) else c
                    if c is False:
                        continue
                    if c is not True:
                        break
                    if isinstance(s, Seg):
                        out.append(El(self.subst(s.v, [(s.k, z3.IntVal(j))])))
                    else:
                        out += self.few([self.subst(x, [(s.k, z3.IntVal(j))]) for x in s.segs])
                else:
                    continue
                if j:
                    raise Unsupported("filtered run in bounded mode")
                out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def mklist(self, segs):
        if self.small is not None:
            segs = self.few(segs)
        r = self.new(LIST)
        self.heap[(r.fam, "list")] = SeqV(segs)
        return r

    def mkdict(self):
        r = self.new(DICT)
        self.heap[(r.fam, "dict")] = DictV(())
        return r

    def e_Dict(self, e):
        r = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v))
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                parts += self.strparts(x)
        return mkstr(parts)

    def strparts(self, x):
        if isinstance(x, str):
            return [x]
        if isinstance(x, SStr):
            return list(x.parts)
        if isinstance(x, bool) or isinstance(x, int) or x is None:
            return [str(x)]
        if is_z3(x):
            return [("#", (x,))]
        if isinstance(x, Ref):
            m = x.cls.lookup("__str__")
            if m is not None and not isinstance(m, Bi):
                return self.strparts(self.call(m, [x]))
            if x.cls.native == "exception" or any(b.native == "exception" for b in x.cls.mro):
                a = self.rd(x, "args") if (x.fam, "args") in self.heap else None
                if isinstance(a, Tup) and len(a.items) <= 1:
                    return self.strparts(a.items[0]) if a.items else [""]
        return ["<?>"]

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if z3.is_bool(v):
                return z3.Not(v)
            return not self.truth(v)
        return self.unary(e.op, v)

    def unary(self, op, v):
        if isinstance(v, Ref) and v.cls is NDARRAY:
            return self.arr_map(lambda x: self.unary(op, x), v)
        if isinstance(op, ast.USub):
            self.need_num(v)
            return num.neg(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and (z3.is_bool(v) or isinstance(v, bool)):
            return lnot(v)
        raise Unsupported("unary operator")

    def need_num(self, v):
        if not (is_num(v) or z3.is_bool(v)):
            if v is None or isinstance(v, (str, SStr, Tup)) or isinstance(v, Ref):
                self.throw("TypeError", "unsupported operand")
            raise Unsupported(f"arithmetic on {type(v).__name__}")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        return self.binop(e.op, a, self.ev(e.right))

    def scalar(self, v):
        """value of a size-1 array where a number is needed"""
        return v

    def binop(self, op, a, b):
        o = type(op).__name__
        if o == "MatMult":
            return self.matmul(a, b)
        if isinstance(a, Ref) and a.cls is NDARRAY or isinstance(b, Ref) and b.cls is NDARRAY:
            return self.arr_bin(lambda x, y: self.binop_s(o, x, y, True), a, b)
        if isinstance(a, Ref) and a.cls is LIST:
            if o == "Add" and isinstance(b, Ref) and b.cls is LIST:
                return self.mklist(self.rd(a, "list").segs + self.rd(b, "list").segs)
            if o == "Mult":
                segs = self.rd(a, "list").segs
                if isinstance(b, int):
                    return self.mklist(segs * max(b, 0))
                if is_z3(b) and len(segs) == 1 and isinstance(segs[0], El):
                    n = num.ite(b >= 0, b, 0)
                    n = b if self.holds(b >= 0) else n
                    return self.mklist([Seg(n, self.fresh_index(), segs[0].v)])
            if o == "Add":
                self.throw("TypeError", "can only concatenate list")
            raise Unsupported("list operator")
        if isinstance(b, Ref) and b.cls is LIST and o == "Mult":
            return self.binop(op, b, a)
        if isinstance(a, Tup) and isinstance(b, Tup) and o == "Add":
            return Tup(a.items + b.items)
        if isinstance(a, (str, SStr)):
            if o == "Mod":
                return "<formatted>"
            if o == "Add" and isinstance(b, (str, SStr)):
                return mkstr(self.strparts(a) + self.strparts(b))
            if o == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            self.throw("TypeError", "string operand")
        for x, y, m in ((a, b, DUNDER.get(o)), (b, a, DUNDER.get(o) and "__r" + DUNDER[o][2:])):
            if m and isinstance(x, Ref) and x.cls.native is None and x.cls.has(m):
                return self.call(self.getattr(x, m), [y])
        if o == "BitOr" and (isinstance(a, PyClass) or isinstance(b, PyClass)):
            return a
        if o == "BitOr" and isinstance(a, Ref) and a.cls is DICT:
            r = self.dict_copy(a)
            self.dict_update(r, b)
            return r
        if isinstance(a, Ref) and a.cls is DICT or isinstance(b, Ref) and b.cls is DICT:
            self.throw("TypeError", "dict operand")
        return self.binop_s(o, a, b)

    def binop_s(self, o, a, b, arr=False):
        self.need_num(a)
        self.need_num(b)
        if o == "Add":
            return num.add(a, b)
        if o == "Sub":
            return num.sub(a, b)
        if o == "Mult":
            for x, y in ((a, b), (b, a)):
                if num.is_inf(num.norm(x)) and is_z3(y):
                    if x != x:
                        return x
                    if self.decide(y > 0):
                        return x
                    if self.decide(y < 0):
                        return -x
                    return float("nan")
            return num.mul(a, b)
        if o == "Div":
            b = num.norm(b)
            a = num.norm(a)
            if arr and is_z3(b) and mentions_arrvar(b):
                return num.rdiv(a, b)
            z = num.cmp("==", b, 0)
            if z is True or (z is not False and self.decide(z)):
                if arr:
                    raise Unsupported("array division by zero")
                self.throw("ZeroDivisionError")
            if num.is_inf(a) and is_z3(b):
                return a if self.decide(b > 0) else -a
            return num.rdiv(a, b)
        if o == "Pow":
            if is_z3(b):
                b = num.conc(z3.simplify(b))
            if is_z3(b):
                if b.is_int() and self.holds(b >= 0):
                    return z3.Function("ipow", z3.RealSort(), z3.IntSort(), z3.RealSort())(real(a), b)
                return z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(real(a), real(b))
            if is_z3(a) and not (isinstance(b, int) and b >= 0) and not isinstance(b, float):
                if isinstance(b, Fraction) and b != Fraction(1, 2):
                    if b == 2:
                        return num.power(a, 2)
                    return z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(real(a), real(b))
                if isinstance(b, int) and self.decide(a == 0):
                    self.throw("ZeroDivisionError")
            if isinstance(b, Fraction) and num.is_const(a) and b.denominator != 1 and b != Fraction(1, 2):
                return z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(real(a), real(b))
            return num.power(a, b)
        if o in ("FloorDiv", "Mod"):
            a, b = num.norm(a), num.norm(b)
            if num.is_inf(a) or num.is_inf(b):
                raise Unsupported("floor division of infinity")
            if num.is_const(a) and num.is_const(b):
                if b == 0:
                    self.throw("ZeroDivisionError")
                return a // b if o == "FloorDiv" else a % b
            az, bz = to_z3(a), to_z3(b)
            if az.is_int() and bz.is_int():
                if num.is_const(b) and b == 0 or not num.is_const(b) and self.decide(bz == 0):
                    self.throw("ZeroDivisionError")
                if num.is_const(b) and b > 0 or not num.is_const(b) and self.decide(bz > 0):
                    if o == "Mod":
                        r = az % bz
                        if not z3.is_int_value(bz):
                            self.assume(z3.And(r >= 0, r < bz))
                        return r
                    return az / bz
            raise Unsupported("floor division")
        if o in ("BitAnd", "BitOr", "BitXor"):
            if all(isinstance(x, bool) or z3.is_bool(x) for x in (a, b)):
                if o == "BitXor":
                    return num.boolz(a) != num.boolz(b)
                return land(a, b) if o == "BitAnd" else lor(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if o == "BitAnd" else a | b if o == "BitOr" else a ^ b
        raise Unsupported("operator " + o)

    def e_Compare(self, e):
        a = self.ev(e.left)
        out = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r)
            c = self.compare(type(op).__name__, a, b)
            if len(e.ops) == 1:
                return c
            if i < len(e.ops) - 1:
                if isinstance(c, bool):
                    if not c:
                        return False
                elif z3.is_bool(c):
                    out = land(out, c)
                    a = b
                    continue
                elif not self.truth(c):
                    return c
                a = b
            else:
                return land(out, c) if out is not None and (isinstance(c, bool) or z3.is_bool(c)) else c
        return out

    def compare(self, o, a, b):
        if o in ("Is", "IsNot"):
            c = self.identical(a, b)
            return c if o == "Is" else lnot(c)
        if o in ("In", "NotIn"):
            c = self.contains(b, a)
            return c if o == "In" else lnot(c)
        sym = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[o]
        if isinstance(a, Ref) and a.cls is NDARRAY or isinstance(b, Ref) and b.cls is NDARRAY:
            return self.arr_bin(lambda x, y: num.cmp(sym, x, y), a, b)
        if sym in ("==", "!="):
            c = self.equal_v(a, b)
            return c if sym == "==" else lnot(c)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        self.need_num(a)
        self.need_num(b)
        return num.cmp(sym, a, b)

    def identical(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.fam != b.fam:
                return False
            return self.idx_eq(a.idx, b.idx)
        if a is None or b is None or isinstance(a, (PyClass, bool)) or isinstance(b, (PyClass, bool)):
            if (isinstance(a, bool) and z3.is_bool(b)) or (isinstance(b, bool) and z3.is_bool(a)):
                return num.boolz(a) == num.boolz(b)
            return a is b
        if isinstance(a, (Func, Bi, Mod)):
            return a is b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return False
        if type(a) is not type(b) and not (is_num(a) and is_num(b)):
            return False
        if is_num(a) and is_num(b):
            return num.cmp("==", a, b)
        return self.equal_v(a, b)

    def idx_eq(self, x, y):
        cs = [to_z3(i) == to_z3(j) for i, j in zip(x, y) if not same(i, j)]
        return land(*[c if not z3.is_false(z3.simplify(c)) else False for c in cs])

    def equal_v(self, a, b):
        if (is_num(a) or z3.is_bool(a)) and (is_num(b) or z3.is_bool(b)):
            if z3.is_bool(a) and z3.is_bool(b):
                return a == b
            return num.cmp("==", a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return land(*[self.equal_v(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if x.cls.native is None and x.cls.has("__eq__"):
                    return self.call(self.getattr(x, "__eq__"), [y])
            c = self.identical(a, b)
            if c is True:
                return True
            if a.cls is LIST and b.cls is LIST:
                x, y = self.rd(a, "list").segs, self.rd(b, "list").segs
                if all(isinstance(s, El) for s in x + y):
                    return len(x) == len(y) and land(*[self.equal_v(p.v, q.v) for p, q in zip(x, y)])
                return self.seq_equal(a, b)
            if a.cls is DICT and b.cls is DICT:
                return self.dict_equal(a, b)
            if a.cls.fields is not None and a.cls is b.cls:
                return land(*[self.equal_v(self.rd(a, f), self.rd(b, f)) for f in a.cls.fields])
            return c
        if a is None or b is None or type(a) is not type(b):
            return False
        return same(a, b)

    def alike(self, s, o):
        """the same segment up to the names of its indices?"""
        if type(s) is not type(o):
            return False
        if isinstance(s, El):
            return self.alike_v(s.v, o.v)
        if isinstance(s, Seg):
            return self.alike_v(s.n, o.n) and self.alike_v(s.cond, self.subst(o.cond, [(o.k, s.k)])) and self.alike_v(s.v, self.subst(o.v, [(o.k, s.k)]))
        if isinstance(s, Cat):
            return self.alike_v(s.n, o.n) and self.alike_v(s.cond, self.subst(o.cond, [(o.k, s.k)])) and len(s.segs) == len(o.segs) and all(
                self.alike(x, self.subst(y, [(o.k, s.k)])) for x, y in zip(s.segs, o.segs))
        return False

    def alike_v(self, v, w):
        if v is None or w is None:
            return v is w
        if is_z3(v) or is_z3(w):
            v, w = to_z3(v) if not is_z3(v) else v, to_z3(w) if not is_z3(w) else w
            return v.sort().eq(w.sort()) and z3.eq(z3.simplify(v), z3.simplify(w))
        return same(v, w)

    def folded(self, segs):
        """first iterations that were taken apart from the others, put back"""
        out = []
        for s in segs:
            while out:
                if isinstance(s, Seg) and isinstance(out[-1], El) and is_z3(s.k):
                    first, m = [El(self.subst(s.v, [(s.k, -1)]))], 1
                elif isinstance(s, Cat) and len(out) >= len(s.segs):
                    first, m = [self.subst(x, [(s.k, -1)]) for x in s.segs], len(s.segs)
                else:
                    break
                if s.cond is not None and not z3.is_true(z3.simplify(num.boolz(self.subst(s.cond, [(s.k, -1)])))) or \
                        not all(self.alike(x, y) for x, y in zip(first, out[-m:])):
                    break
                del out[-m:]
                sh = [(s.k, s.k - 1)]
                n = num.add(s.n, 1)
                cond = None if s.cond is None else self.subst(s.cond, sh)
                s = Seg(n, s.k, self.subst(s.v, sh), cond) if isinstance(s, Seg) else Cat(n, s.k, [self.subst(x, sh) for x in s.segs], cond)
            out.append(s)
        return out

    def seq_equal(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cls is LIST and b.cls is LIST:
            x, y = self.folded(self.segments(a)), self.folded(self.segments(b))
            if len(x) == len(y) and all(self.alike(s, o) for s, o in zip(x, y)):
                return True
        n, m = self.length(a), self.length(b)
        if not self.decide(num.boolz(num.cmp("==", n, m))):
            return False
        k = self.fresh_index("q")
        with_k = [k >= 0, k < to_z3(n)]
        r = self.merged(lambda: ([self.facts.append(f) for f in with_k], self.equal_v(self.getitem(a, k), self.getitem(b, k)))[1])
        return lnot(self.mk_any(n, k, num.boolz(lnot(r))))

    def str_eq(self, a, b):
        pa, pb = self.strparts(a), self.strparts(b)
        if any(isinstance(x, str) and "<?>" in x for x in pa + pb):
            raise Unsupported("comparison of unknown text")
        ka, kb = SStr(pa).key(), SStr(pb).key()
        if ka != kb:
            return False
        cs = []
        for x, y in zip(SStr(pa).parts, SStr(pb).parts):
            if not isinstance(x, str):
                cs.append(self.idx_eq(x[1], y[1]))
        return land(*cs)

    def contains(self, c, x):
        if isinstance(c, Ref) and c.cls is DICT:
            return self.dict_has(c, x)
        if isinstance(c, str) and isinstance(x, str):
            if x not in c and "<?>" in c:
                raise Unsupported("membership in unknown text")
            return x in c
        if isinstance(c, SStr) and isinstance(x, str):
            return any(isinstance(p, str) and x in p for p in c.parts)     # names do not contain what the library adds
        if isinstance(c, Ref) and c.cls.native is None and c.cls.has("__contains__"):
            return self.call(self.getattr(c, "__contains__"), [x])
        r = False
        for s in self.segments(c):
            r = lor(r, self.seg_has(s, x))
            if r is True:
                return True
        return r

    def seg_has(self, s, x):
        if isinstance(s, El):
            return self.equal_v(s.v, x)
        if isinstance(s, Seg):
            c = self.equal_v(self.resolve(s.v), x)
            if c is False:
                return False
            return self.mk_any(s.n, s.k, num.boolz(land(s.cond, c)))
        raise Unsupported("membership test")

    def truth(self, v):
        t = self.truth_c(v)
        return t if isinstance(t, bool) else self.decide(t)

    def truth_c(self, v):
        """truth value as a bool or z3 condition"""
        if isinstance(v, (bool, int, float, Fraction, str)) or v is None:
            return bool(v)
        if z3.is_bool(v):
            return v
        if is_z3(v):
            return v != 0
        if isinstance(v, SStr):
            return True
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Ref):
            if v.cls in (LIST, DICT, SET):
                return num.cmp("!=", self.length(v), 0)
            if v.cls is NDARRAY:
                return self.truth_c(self.arr_scalar(v))
            if v.cls.native is None:
                if v.cls.has("__bool__"):
                    return self.truth(self.call(self.getattr(v, "__bool__"), []))
                if v.cls.has("__len__"):
                    return num.cmp("!=", self.call(self.getattr(v, "__len__"), []), 0)
            return True
        if isinstance(v, IterV):
            return True
        return True

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_Lambda(self, e):
        f = self.mkfunc(e, "<lambda>")
        f.kind = "lambda"
        return f

    # ------------------------------------------------------------- comprehensions
    def comp(self, e, elt):
        """run elt() once per element in a nested scope"""
        fr = self.fr
        names = set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            else:
                for c in ast.iter_child_nodes(t):
                    if isinstance(c, (ast.Name, ast.Tuple, ast.List, ast.Starred)):
                        tgt(c)
        for g in e.generators:
            tgt(g.target)
        first = self.ev(e.generators[0].iter)
        ref = self.new(FRAME)
        for n in names:
            self.heap[(ref.fam, n)] = UNBOUND
        env = fr.env + (((fr.ref, fr.names),) if fr.ns is None else ((None, fr.ns),))
        nf = Frame(ref, None, frozenset(names), fr.mod, env, fr.func)
        self.fr = nf

        def level(i):
            if i == len(e.generators):
                elt()
                return
            g = e.generators[i]
            it = first if i == 0 else self.ev(g.iter)

            def body(v):
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.truth(self.ev(c)):
                        return
                level(i + 1)
            self.loop_over(it, body, f"{fr.mod.name}:{e.lineno}")
        try:
            level(0)
        finally:
            self.fr = fr
            if nf.captured:
                fr.captured = True
            else:
                self.drop_frame(ref, names)

    def drop_frame(self, ref, names):
        for n in names:
            self.heap.pop((ref.fam, n), None)

    def e_ListComp(self, e):
        r = self.mklist(())
        self.comp(e, lambda: self.append(r, self.ev(e.elt)))
        return r

    def append(self, r, v):
        cur = self.rd(r, "list")
        self.put(r, "list", SeqV(cur.segs + (El(v),)))

    def e_GeneratorExp(self, e):
        r = self.e_ListComp(e)
        return IterV(self.rd(r, "list").segs)

    def e_SetComp(self, e):
        r = self.new(SET)
        self.heap[(r.fam, "list")] = SeqV(())
        self.comp(e, lambda: self.call(self.getattr(r, "add"), [self.ev(e.elt)]))
        return r

    def e_DictComp(self, e):
        r = self.mkdict()

        def elt():
            k = self.ev(e.key)
            self.setitem(r, k, self.ev(e.value))
        self.comp(e, elt)
        return r

    # ------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            for ref, names in ((self.fr.ref, self.fr.names),) + tuple(reversed(self.fr.env)):
                if ref is not None and self.fr.func is not None:
                    f = self.fr.func
                    a = f.node.args
                    first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                    if first in names:
                        return SuperV(f.owner, self.local(ref, first))
            raise Unsupported("super()")
        f = self.ev(e.func)
        args, kw = self.call_args(e)
        w = self.where
        r = self.call(f, args, kw)
        self.where = w
        return r

    def call_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                segs = self.segments(v)
                if all(isinstance(x, El) or isinstance(x, Seg) and x.cond is None and isinstance(x.n, int) for x in segs):
                    args += self.unpack(v)
                else:
                    args.append(Many(segs))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                kw.update(self.literal_items(d))
            else:
                kw[k.arg] = self.ev(k.value)
        return args, kw

    def literal_items(self, d):
        out = {}
        for x in self.rd(d, "dict").ents:
            if not isinstance(x, Item):
                raise Unsupported("** of a dictionary with symbolic keys")
            out[x.key] = self.rd(d, ("it", x.key))
        return out

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bi):
            if any(isinstance(x, Many) for x in args):
                raise Unsupported("unpacking a collection of symbolic size")
            return f.fn(self, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.obj] + args, kw)
        if isinstance(f, PartialV):
            return self.call(f.f, list(f.args) + args, {**f.kw, **kw})
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Ref):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + args, kw)
            self.throw("TypeError", "not callable")
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if f is None or is_num(f) or isinstance(f, (str, SStr, Tup)):
            self.throw("TypeError", "not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if any(isinstance(x, Many) for x in args):
            if not a.vararg or any(isinstance(x, Many) for x in args[:len(pos)]):
                raise Unsupported("unpacking a collection of symbolic size")
            out = dict(zip(pos, args))
            segs = []
            for x in args[len(pos):]:
                segs += x.segs if isinstance(x, Many) else [El(x)]
            out[a.vararg.arg] = self.mklist(segs)
        else:
            out = dict(zip(pos, args))
        if a.vararg and a.vararg.arg in out:
            pass
        elif len(args) > len(pos):
            if not a.vararg:
                self.throw("TypeError", f"{f.name}() takes {len(pos)} positional arguments")
            out[a.vararg.arg] = Tup(args[len(pos):])
        elif a.vararg:
            out[a.vararg.arg] = Tup(())
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    self.throw("TypeError", f"{f.name}() got multiple values for {k}")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw("TypeError", f"{f.name}() got an unexpected keyword argument {k}")
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            out.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in out:
                if d is None:
                    self.throw("TypeError", f"missing {x.arg}")
                out[x.arg] = d[0]
        for n in pos:
            if n not in out:
                self.throw("TypeError", f"{f.name}() missing argument {n}")
        if a.kwarg:
            d = self.mkdict()
            for k, v in extra.items():
                self.setitem(d, k, v)
            out[a.kwarg.arg] = d
        return out

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None and not self.under(f.qual):
            return c(self, f, args, kw)
        return self.run_func(f, args, kw)

    def under(self, qual):
        return False

    def run_func(self, f, args, kw):
        b = self.bind(f, args, kw)
        if self.depth > 60:
            raise Unsupported("recursion")
        self.tick()
        self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        if f.locals_ is None:
            f.locals_ = local_names(f.node)
        ref = self.new(FRAME)
        for n in f.locals_:
            self.heap[(ref.fam, n)] = b.get(n, UNBOUND)
        if f.ctypes_:
            self.c_args(f, ref, b)
        old, ow = self.fr, self.where
        fr = self.fr = Frame(ref, None, f.locals_, f.mod, f.env, f)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
            else:
                try:
                    self.block(f.node.body)
                    r = None
                    if f.ctypes_:
                        self.c_fallthrough(f)
                except RetX as x:
                    r = x.v
                if f.ctypes_:
                    r = self.c_result(f, r)
        finally:
            self.depth -= 1
            self.fr, self.where = old, ow
        if not fr.captured:
            self.drop_frame(ref, f.locals_)
        return r

    # ------------------------------------------------------------- objects
    def instantiate(self, c, args, kw):
        if getattr(c, "make", None):
            return c.make(self, c, args, kw)
        for b in c.mro:
            if getattr(b, "nt", None):
                vals = self.nt_bind(b.nt, args, kw)
                return Tup(vals, c)
        if c.native and c.native not in ("object", "exception"):
            return self.native_new(c, args, kw)
        r = self.new(c)
        if c.native == "exception":
            self.heap[(r.fam, "args")] = Tup(args)
        init = c.lookup("__init__")
        if c.fields is not None and (init is None or getattr(c, "dc_init", False)):
            self.dc_init(r, c, args, kw)
            return r
        if init is not None:
            self.call(init, [r] + args, kw)
        elif (args or kw) and c.native != "exception":
            self.throw("TypeError", f"{c.name}() takes no arguments")
        return r

    def nt_bind(self, spec, args, kw):
        fields, defaults = spec
        out = dict(zip(fields, args))
        for k, v in kw.items():
            if k not in fields or k in out:
                self.throw("TypeError", "namedtuple arguments")
            out[k] = v
        for k, d in defaults.items():
            out.setdefault(k, d)
        if len(out) != len(fields) or len(args) > len(fields):
            self.throw("TypeError", "namedtuple arguments")
        return [out[k] for k in fields]

    def dc_init(self, r, c, args, kw):
        out = dict(zip(c.fields, args))
        if len(args) > len(c.fields):
            self.throw("TypeError", "too many arguments")
        for k, v in kw.items():
            if k not in c.fields or k in out:
                self.throw("TypeError", f"unexpected argument {k}")
            out[k] = v
        for k, (has, d) in c.fields.items():
            if k not in out:
                if has == "factory":
                    out[k] = self.call(d, [])
                elif has == "value":
                    out[k] = d
                else:
                    self.throw("TypeError", f"missing argument {k}")
        for k in c.fields:
            self.heap[(r.fam, k)] = out[k]
        if c.has("__post_init__"):
            self.call(self.getattr(r, "__post_init__"), [])

    def native_new(self, c, args, kw):
        raise Unsupported("instance of " + c.name)

    def type_of(self, v):
        if isinstance(v, Ref):
            return v.cls
        if isinstance(v, bool) or z3.is_bool(v):
            return BOOL
        if isinstance(v, int):
            return INT
        if is_z3(v):
            return INT if v.is_int() else FLOAT
        if isinstance(v, (float, Fraction)):
            return FLOAT
        if isinstance(v, (str, SStr)):
            return STR
        if isinstance(v, Tup):
            return v.cls or TUPLE
        if v is None:
            return NONETYPE
        if isinstance(v, PyClass):
            return TYPE
        if isinstance(v, (Func, Bi, BoundV, PartialV)):
            return FUNC
        if isinstance(v, Mod):
            return MODULE
        return OBJECT

    def isinstance(self, v, c):
        if isinstance(c, Tup):
            return any(self.isinstance(v, x) for x in c.items)
        if not isinstance(c, PyClass):
            raise Unsupported("isinstance of a non-class")
        if c.name == "Callable" and c.native == "typing":
            return self.call(self.builtins["callable"], [v])
        t = self.type_of(v)
        return c is OBJECT or c in t.mro or (isinstance(v, Tup) and c is TUPLE) or (isinstance(v, PyClass) and c is TYPE)

    def getattr(self, o, name, default=MISSING):
        if isinstance(o, Ref):
            v = self.rd(o, name) if not isinstance(name, SStr) else MISSING
            if v is not MISSING and v is not UNBOUND:
                return v
            if isinstance(name, SStr):
                d = self.heap.get((o.fam, "__dyn__"), MISSING)
                if d is not MISSING:
                    v = self.dict_find(o, "__dyn__", name)
                    if v is not MISSING:
                        return v
                if default is not MISSING:
                    return default
                self.throw("AttributeError", "symbolic name")
            m = o.cls.lookup(name)
            if m is not None or o.cls.has(name):
                return self.bindm(m, o, o.cls)
            f = self.native_attr(o, name)
            if f is not MISSING:
                return f
            g = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(g, [o, name])
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if default is not MISSING:
                return default
            self.throw("AttributeError", f"{o.cls.name}.{name}")
        if isinstance(o, Tup):
            if o.cls is not None:
                for b in o.cls.mro:
                    if getattr(b, "nt", None) and name in b.nt[0]:
                        return o.items[b.nt[0].index(name)]
                m = o.cls.lookup(name)
                if m is not None:
                    return self.bindm(m, o, o.cls)
                if name == "__class__":
                    return o.cls
            f = self.native_attr(o, name)
            if f is not MISSING:
                return f
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            full = o.name + "." + name
            if full in self.mods:
                return self.mods[full]
            if default is not MISSING:
                return default
            raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, PyClass):
            if o.has(name):
                m = o.lookup(name)
                if isinstance(m, StaticV):
                    return m.f
                if isinstance(m, ClassMV):
                    return BoundV(m.f, o)
                return m
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return Tup(o.mro)
            if default is not MISSING:
                return default
            if name == "__init__":
                return Bi("object.__init__", lambda e, a, k: None)
            raise Unsupported(f"attribute {name} of class {o.name}")
        if isinstance(o, SuperV):
            obj = o.obj
            mro = (obj.cls if isinstance(obj, (Ref, Tup)) else obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bindm(c.ns[name], obj, c)
            if name == "__init__":
                return Bi("object.__init__", lambda e, a, k: None)
            v = self.native_attr(obj, name)
            if v is not MISSING:
                return v
            self.throw("AttributeError", name)
        if isinstance(o, (Func, Bi)):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in ("__doc__", "__module__"):
                return None
            if isinstance(o, Bi):
                x = self.bi_attr(o, name)
                if x is not MISSING:
                    return x
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.f
            return self.getattr(o.f, name, default)
        if isinstance(o, PartialV):
            if name == "func":
                return o.f
            if name == "args":
                return Tup(o.args)
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        f = self.native_attr(o, name)
        if f is not MISSING:
            return f
        if default is not MISSING:
            return default
        if o is None or is_num(o) or isinstance(o, (str, SStr)) or z3.is_bool(o):
            self.throw("AttributeError", name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def bi_attr(self, o, name):
        return MISSING

    def native_attr(self, o, name):
        return MISSING

    def bindm(self, m, o, cls):
        if isinstance(m, PropertyV):
            return self.call(m.get, [o])
        if isinstance(m, StaticV):
            return m.f
        if isinstance(m, ClassMV):
            return BoundV(m.f, o.cls if isinstance(o, (Ref, Tup)) else o)
        if isinstance(m, (Func, Bi)):
            return BoundV(m, o)
        return m

    def setattr(self, o, name, v):
        if not isinstance(o, Ref):
            if isinstance(o, PyClass):
                raise Unsupported("class attribute assignment")
            if isinstance(o, Tup) or o is None or is_num(o):
                self.throw("AttributeError", "can't set attribute")
            raise Unsupported("attribute assignment")
        if isinstance(name, SStr):
            cur = self.get(o, "__dyn__")
            if cur is MISSING:
                self.heap[(o.fam, "__dyn__")] = DictV(())
            self.dict_set(o, "__dyn__", name, v)
            return
        m = o.cls.lookup(name)
        if isinstance(m, PropertyV):
            if m.set is None:
                self.throw("AttributeError", f"property {name} has no setter")
            self.call(m.set, [o, v])
            return
        if o.cls in (LIST, DICT, NDARRAY):
            raise Unsupported("attribute of a native object")
        self.put(o, name, v)

    # ------------------------------------------------------------- dictionaries
    def dict_find(self, o, cell, key, guard=None):
        """value for key or MISSING (forks)"""
        d = self.rd(o, cell)
        if isinstance(key, str):
            if "<?>" in key:
                raise Unsupported("unknown text as a key")
            for x in d.ents:
                if isinstance(x, Item) and x.key == key:
                    return self.rd(o, ("it", key) if cell == "dict" else ("itd", key))
                if isinstance(x, BaseD):
                    pass
            for x in d.ents:
                if isinstance(x, (SymItem, Grp)) and isinstance(x.key, str):
                    raise Unsupported("literal group key")
            return MISSING
        if isinstance(key, SStr) or isinstance(key, (int, Fraction, Tup, PyClass, bool)) or key is None or is_z3(key) or isinstance(key, Ref):
            # entries earlier iterations may have added (BaseD) are taken as absent; such a pass is never the accepted one,
            # which has a closed form for them
            for x in reversed(d.ents):
                if isinstance(x, Item):
                    c = self.key_eq(x.key, key)
                    if c is True or c is not False and self.decide(c):
                        return self.rd(o, ("it", x.key))
                    continue
                if isinstance(x, BaseD):
                    continue
                if isinstance(x, SymItem):
                    c = self.key_eq(x.key, key)
                    if c is True or c is not False and self.decide(c):
                        return self.resolve(x.v)
                else:
                    idx = self.grp_index(x, key)
                    if idx is None:
                        continue
                    i, c = idx
                    if c is True or self.decide(c):
                        return self.resolve(self.subst(x.v, [(x.k, i)]))
            return MISSING
        raise Unsupported("dictionary key")

    def key_eq(self, a, b):
        return self.equal_v(a, b) if not (isinstance(a, str) and isinstance(b, str)) else a == b

    def grp_index(self, g, key):
        """(index, condition) with which group entry index has this key"""
        if isinstance(g.key, SStr) and isinstance(key, SStr):
            if g.key.key() != key.key():
                return None
            for x, y in zip(g.key.parts, key.parts):
                if isinstance(x, str):
                    continue
                for a, b in zip(x[1], y[1]):
                    if not is_z3(a) or not mentions(a, g.k):
                        continue
                    rest = num.sub(a, g.k)
                    if not (is_z3(rest) and mentions(rest, g.k)):
                        i = num.sub(b, rest)
                        c = self.str_eq(self.subst(g.key, [(g.k, i)]), key)
                        rng = land(to_z3(i) >= 0, to_z3(i) < to_z3(g.n))
                        cond = True if g.cond is None else self.subst(g.cond, [(g.k, i)])
                        full = land(c, rng, cond)
                        return i, (full if isinstance(full, bool) else num.boolz(full))
            raise Unsupported("group key")
        if isinstance(g.key, (str, SStr)) != isinstance(key, (str, SStr)):
            return None
        if isinstance(g.key, Ref) and isinstance(key, Ref):
            if g.key.fam != key.fam:
                return None
            for a, b in zip(g.key.idx, key.idx):
                if is_z3(a) and z3.eq(a, g.k):
                    rng = land(to_z3(b) >= 0, to_z3(b) < to_z3(g.n), self.idx_eq(self.subst(g.key, [(g.k, b)]).idx, key.idx),
                               True if g.cond is None else self.subst(g.cond, [(g.k, b)]))
                    return b, rng
        if is_num(g.key) and is_num(key) and z3.eq(to_z3(g.key), g.k):
            rng = land(to_z3(key) >= 0, to_z3(key) < to_z3(g.n), True if g.cond is None else self.subst(g.cond, [(g.k, key)]))
            return key, rng
        raise Unsupported("group key")

    def dict_set(self, o, cell, key, v):
        d = self.rd(o, cell)
        it = "it" if cell == "dict" else "itd"
        if isinstance(key, str):
            if not any(isinstance(x, Item) and x.key == key for x in d.ents):
                self.put(o, cell, DictV(d.ents + (Item(key),)))
            elif same(self.heap.get((o.fam, (it, key))), v):
                return
            self.put(o, (it, key), v)
            return
        out, done = list(d.ents), False
        for i, x in reversed(list(enumerate(out))):
            if isinstance(x, Item):
                c = False if isinstance(x.key, str) else self.key_eq(x.key, key)
                if c is True or c is not False and self.decide(c):
                    self.put(o, (it, x.key), v)
                    return
                continue
            if isinstance(x, BaseD):
                continue
            if isinstance(x, SymItem):
                c = self.key_eq(x.key, key)
                if c is True or c is not False and self.decide(c):
                    if self.same_now(x.v, v):
                        return
                    out[i] = SymItem(x.key, v)
                    done = True
                    break
            else:
                r = self.grp_index(x, key)
                if r is None:
                    continue
                j, c = r
                if c is True or self.decide(c):
                    if self.same_now(self.subst(x.v, [(x.k, j)]), v):
                        return
                    out[i] = Grp(x.n, x.k, x.key, v if z3.eq(x.k, to_z3(j)) else self.merge2(x.k == to_z3(j), v, x.v), x.cond)
                    done = True
                    break
        if not done:
            if isinstance(key, (int, bool)) or key is None:
                self.put(o, cell, DictV(tuple(out) + (Item(key),)))
                self.put(o, (it, key), v)
                return
            out.append(SymItem(key, v))
        self.put(o, cell, DictV(out))

    def same_now(self, old, v):
        """is the stored value the new one on this path"""
        return same(old, v) or isinstance(old, Choice) and not isinstance(v, Choice) and same(self.resolve(old), v)

    def dict_has(self, o, key):
        v = self.dict_find(o, "dict", key)
        return v is not MISSING

    def dict_update(self, r, d):
        if not (isinstance(d, Ref) and d.cls is DICT):
            if isinstance(d, Ref) and d.cls is LIST or isinstance(d, (IterV, Tup)):
                self.loop_over(d, lambda v: self.setitem(r, *self.unpack(v)))
                return
            raise Unsupported("update from a non-dictionary")
        for x in self.rd(d, "dict").ents:
            if isinstance(x, Item):
                self.setitem(r, x.key, self.rd(d, ("it", x.key)))
            elif isinstance(x, SymItem):
                self.setitem(r, x.key, x.v)
            elif isinstance(x, Grp):
                cur = self.rd(r, "dict")
                clash = [y for y in cur.ents if isinstance(y, (Grp, SymItem)) and self.may_clash(y.key, x.key)]
                if not clash:
                    self.put(r, "dict", DictV(cur.ents + (x,)))
                elif any(same(y, x) for y in clash):
                    continue
                elif all(isinstance(y, Grp) and same(self.subst(y.key, [(y.k, x.k)]), x.key) and same(y.n, x.n) and same(
                        y.cond, None) and x.cond is None for y in clash) and len(clash) == 1:
                    y = clash[0]
                    out = tuple(Grp(y.n, y.k, y.key, self.subst(x.v, [(x.k, y.k)]), None) if z is y else z for z in cur.ents)
                    self.put(r, "dict", DictV(out))
                else:
                    raise Unsupported("update with overlapping symbolic keys")
            else:
                raise Unsupported("update from a dictionary under construction")

    def may_clash(self, a, b):
        if isinstance(a, SStr) and isinstance(b, SStr):
            return a.key() == b.key()
        if isinstance(a, str) or isinstance(b, str):
            return False
        return True

    def dict_copy(self, d, cls=None):
        r = self.mkdict()
        v = self.rd(d, "dict")
        for x in v.ents:
            if isinstance(x, BaseD):
                raise Unsupported("copy of a dictionary under construction")
            if isinstance(x, Item):
                self.heap[(r.fam, ("it", x.key))] = self.rd(d, ("it", x.key))
        self.heap[(r.fam, "dict")] = v
        return r

    def dict_segs(self, d, what):
        out = []
        for x in self.rd(d, "dict").ents:
            if isinstance(x, Item):
                k = x.key
                v = self.rd(d, ("it", k))
                out.append(El(k if what == "k" else v if what == "v" else Tup((k, v))))
            elif isinstance(x, SymItem):
                out.append(El(x.key if what == "k" else x.v if what == "v" else Tup((x.key, x.v))))
            elif isinstance(x, Grp):
                out.append(Seg(x.n, x.k, x.key if what == "k" else x.v if what == "v" else Tup((x.key, x.v)), x.cond))
            else:
                raise Unsupported("iteration over a dictionary the loop builds")
        return out

    def dict_equal(self, a, b):
        x, y = self.rd(a, "dict").ents, self.rd(b, "dict").ents
        if all(isinstance(e, Item) for e in x + y):
            if {e.key for e in x} != {e.key for e in y}:
                return False
            return land(*[self.equal_v(self.rd(a, ("it", e.key)), self.rd(b, ("it", e.key))) for e in x])
        raise Unsupported("comparison of dictionaries with symbolic keys")

    # ------------------------------------------------------------- sequences
    def segments(self, v):
        if isinstance(v, IterV):
            return v.segs
        if isinstance(v, Tup):
            return tuple(El(x) for x in v.items)
        if isinstance(v, str):
            return tuple(El(c) for c in v)
        if isinstance(v, Ref):
            if v.cls in (LIST, SET):
                return self.rd(v, "list").segs
            if v.cls is DICT:
                return self.dict_segs(v, "k")
            if v.cls is NDARRAY:
                return self.arr_segs(v)
            if v.cls.has("__iter__"):
                return self.segments(self.call(self.getattr(v, "__iter__"), []))
        if v is None or is_num(v):
            self.throw("TypeError", "not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    def seg_len(self, s):
        if isinstance(s, El):
            return 1
        if isinstance(s, Seg):
            if s.cond is None:
                return s.n
            return self.count_of(s)
        if isinstance(s, Grp):
            return s.n if s.cond is None else self.count_of(s)
        if isinstance(s, (Item, SymItem)):
            return 1
        if isinstance(s, Cat):
            m = 0
            for x in s.segs:
                m = num.add(m, self.seg_len(x))
            return self.mk_sum(s.n, s.k, to_z3(m if s.cond is None else num.ite(s.cond, m, 0)))
        raise Unsupported("length of a collection under construction")

    def count_of(self, s):
        """how often s.cond holds among s.n"""
        m = self.mk_sum(s.n, s.k, num.ite(s.cond, 1, 0))
        if is_z3(m):
            f = z3.And(m >= 0, m <= to_z3(s.n))
            if not any(z3.eq(f, x) for x in self.facts):
                self.facts.append(f)
        return m

    def length(self, v):
        if isinstance(v, Ref):
            if v.cls in (LIST, SET):
                segs = self.rd(v, "list").segs
            elif v.cls is DICT:
                segs = self.rd(v, "dict").ents
            elif v.cls is NDARRAY:
                sh = self.arr(v).shape
                if not sh:
                    self.throw("TypeError", "len() of unsized object")
                return sh[0]
            elif v.cls.has("__len__"):
                return self.call(self.getattr(v, "__len__"), [])
            else:
                self.throw("TypeError", "object has no len()")
            n = 0
            for s in segs:
                n = num.add(n, self.seg_len(s))
            return n
        if isinstance(v, Tup):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, IterV):
            n = 0
            for s in v.segs:
                n = num.add(n, self.seg_len(s))
            return n
        if is_num(v) or v is None or z3.is_bool(v):
            self.throw("TypeError", "object has no len()")
        raise Unsupported("len")

    def norm_index(self, i, n):
        """0 <= i < n or IndexError"""
        i = num.norm(i)
        if isinstance(i, Fraction) or is_z3(i) and not i.is_int():
            self.throw("TypeError", "indices must be integers")
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                self.throw("IndexError")
            return i
        if self.truth(num.cmp("<", i, 0)):
            i = num.add(i, n)
            if self.truth(num.cmp("<", i, 0)):
                self.throw("IndexError")
        if self.truth(num.cmp(">=", i, n)):
            self.throw("IndexError")
        return i

    def seq_at(self, segs, i):
        """element i (already normalised)"""
        off = 0
        for s in segs:
            if isinstance(s, Cat) and s.cond is None:
                lens = [self.seg_len(x) for x in s.segs]
                if all(isinstance(m, int) for m in lens):
                    m = sum(lens)
                    end = num.add(off, num.mul(m, s.n))
                    if m and self.truth(num.cmp("<", i, end)):
                        j = z3.simplify(to_z3(num.sub(i, off)), som=True)
                        c = 0
                        while c < m - 1 and not self.truth(num.cmp("==", z3.simplify(j % m), c)):
                            c += 1
                        t = z3.simplify(z3.simplify(j - c, som=True) / m)
                        return self.seq_at([self.subst(x, [(s.k, t)]) for x in s.segs], c)
                    off = end
                    continue
                if len(s.segs) == 1 and isinstance(s.segs[0], Seg) and s.segs[0].cond is None and is_z3(lens[0]) and not mentions(lens[0], s.k):
                    m = lens[0]
                    end = num.add(off, num.mul(m, s.n))
                    if self.truth(num.cmp("<", i, end)):
                        q, r = self.divided(num.sub(i, off), m)
                        return self.seq_at([self.subst(s.segs[0], [(s.k, q)])], r)
                    off = end
                    continue
            if isinstance(s, Seg) and s.cond is not None or not isinstance(s, (El, Seg)):
                if all(isinstance(x, (El, Seg)) for x in segs):
                    # some element of some part that satisfies the part's condition
                    for x in segs[:-1]:
                        b = self.fresh("part", z3.BoolSort())
                        self.havoc.add(str(b))
                        if self.decide(b):
                            break
                    else:
                        x = segs[-1]
                    if isinstance(x, El):
                        return self.resolve(x.v)
                    f = self.fresh("at", z3.IntSort())
                    self.havoc.add(str(f))
                    self.assume(z3.And(f >= 0, f < to_z3(x.n)))
                    if x.cond is not None:
                        self.assume(num.boolz(self.subst(x.cond, [(x.k, f)])))
                    return self.resolve(self.subst(x.v, [(x.k, f)]))
                raise Unsupported("index into a composite sequence")
            m = self.seg_len(s)
            end = num.add(off, m)
            if self.truth(num.cmp("<", i, end)):
                return self.resolve(s.v if isinstance(s, El) else self.subst(s.v, [(s.k, num.sub(i, off))]))
            off = end
        raise PathAbort()

    def divided(self, d, m):
        """(q, r) with d = q m + r and 0 <= r < m, for m > 0 (as 0 <= d < m n implies)"""
        q, r = [], []
        d = z3.simplify(to_z3(d), som=True)
        for t in d.children() if z3.is_add(d) else [d]:
            fs = list(t.children()) if z3.is_mul(t) else [t]
            at = next((x for x, f in enumerate(fs) if f.eq(m)), None)
            if at is None:
                r.append(t)
            else:
                del fs[at]
                q.append(z3.Product(*fs) if len(fs) > 1 else fs[0] if fs else z3.IntVal(1))
        Q, R = z3.simplify(z3.Sum(*q) if q else z3.IntVal(0)), z3.simplify(z3.Sum(*r) if r else z3.IntVal(0))
        if self.holds(z3.And(R >= 0, R < m)):
            return Q, R
        Q, R = self.fresh("quotient", z3.IntSort()), self.fresh("remainder", z3.IntSort())
        self.assume(z3.And(d == Q * m + R, R >= 0, R < m))
        return Q, R

    def seq_slice(self, segs, lo, hi):
        """segments of [lo, hi) with 0 <= lo <= hi <= len"""
        if lo == 0 and isinstance(lo, int):
            pass
        out, off = [], 0
        for s in segs:
            if isinstance(s, Seg) and s.cond is not None or not isinstance(s, (El, Seg)):
                raise Unsupported("slice of a composite sequence")
            m = self.seg_len(s)
            end = num.add(off, m)
            if isinstance(s, El):
                if self.truth(land(num.cmp("<=", lo, off), num.cmp(">", hi, off))):
                    out.append(s)
            else:
                a = lo if self.truth(num.cmp(">", lo, off)) else off
                b = hi if self.truth(num.cmp("<", hi, end)) else end
                if self.truth(num.cmp("<", a, b)):
                    sh = num.sub(a, off)
                    out.append(s if sh == 0 and isinstance(sh, int) and same(b, end) else
                               Seg(num.sub(b, a), s.k, self.subst(s.v, [(s.k, num.add(s.k, sh))])))
            off = end
        return tuple(out)

    def slice_bounds(self, sl, n):
        if sl.step is not None and sl.step != 1:
            raise Unsupported("slice step")

        def b(x, d):
            if x is None:
                return d
            x = num.norm(x)
            if self.truth(num.cmp("<", x, 0)):
                x = num.add(x, n)
                if self.truth(num.cmp("<", x, 0)):
                    return 0
                return x
            if self.truth(num.cmp(">", x, n)):
                return n
            return x
        lo, hi = b(sl.start, 0), b(sl.stop, n)
        if self.truth(num.cmp(">", lo, hi)):
            return lo, lo
        return lo, hi

    def getitem(self, o, i):
        if isinstance(o, Ref):
            if o.cls is DICT:
                v = self.dict_find(o, "dict", i)
                if v is MISSING:
                    f = self.get(o, "factory")
                    if f is not MISSING and f is not None:
                        v = self.call(f, [])
                        self.setitem(o, i, v)
                        return v
                    self.throw("KeyError", "key")
                return v
            if o.cls is NDARRAY:
                return self.arr_get(o, i)
            if o.cls is LIST:
                segs = self.rd(o, "list").segs
                if isinstance(i, slice):
                    if i.step == -1 and i.start is None and i.stop is None and all(isinstance(s, El) for s in segs):
                        return self.mklist(segs[::-1])
                    lo, hi = self.slice_bounds(i, self.length(o))
                    return self.mklist(self.seq_slice(segs, lo, hi))
                if isinstance(i, Ref) and i.cls is NDARRAY:
                    i = self.arr_scalar(i)
                if not is_num(i) and not z3.is_bool(i):
                    self.throw("TypeError", "list indices must be integers or slices")
                return self.seq_at(segs, self.norm_index(i, self.length(o)))
            if o.cls.has("__getitem__"):
                return self.call(self.getattr(o, "__getitem__"), [self.py_index(i)])
            self.throw("TypeError", "not subscriptable")
        if isinstance(o, Tup):
            if o.cls is not None and o.cls.has("__getitem__"):
                return self.call(self.getattr(o, "__getitem__"), [i])
            if isinstance(i, slice):
                n = len(o.items)
                lo, hi = self.slice_bounds(i, n)
                return Tup(o.items[lo:hi])
            if isinstance(i, int):
                if not -len(o.items) <= i < len(o.items):
                    self.throw("IndexError")
                return o.items[i]
            return self.seq_at([El(x) for x in o.items], self.norm_index(i, len(o.items)))
        if isinstance(o, PyClass) or isinstance(o, Bi):
            return o            # typing subscripts
        if isinstance(o, str) and isinstance(i, (int, slice)):
            if isinstance(i, slice):
                return o[slice(i.start, i.stop, i.step)]
            return o[i]
        if isinstance(o, SStr):
            if isinstance(i, slice) and i.step is None and i.start in (None, 0) and isinstance(i.stop, int) and i.stop < 0:
                z = o.parts[-1]
                if isinstance(z, str) and len(z) >= -i.stop:
                    return mkstr(o.parts[:-1] + (z[:i.stop],))
            return "<?>"
        if o is None or is_num(o) or z3.is_bool(o):
            self.throw("TypeError", "not subscriptable")
        raise Unsupported("subscript of " + type(o).__name__)

    def py_index(self, i):
        return i

    def setitem(self, o, i, v):
        if isinstance(o, Ref):
            if o.cls is DICT:
                self.dict_set(o, "dict", i, v)
                return
            if o.cls is NDARRAY:
                self.arr_set(o, i, v)
                return
            if o.cls is LIST:
                segs = self.rd(o, "list").segs
                if isinstance(i, slice):
                    raise Unsupported("slice assignment")
                i = self.norm_index(i, self.length(o))
                off, out, done = 0, [], False
                for s in segs:
                    if done:
                        out.append(s)
                        continue
                    m = self.seg_len(s)
                    end = num.add(off, m)
                    if self.truth(num.cmp("<", i, end)):
                        if isinstance(s, El):
                            out.append(El(v))
                        elif isinstance(s, Seg) and s.cond is None:
                            j = num.sub(i, off)
                            out.append(Seg(s.n, s.k, self.merge2(s.k == to_z3(j), v, s.v)))
                        else:
                            raise Unsupported("store into a composite sequence")
                        done = True
                    else:
                        out.append(s)
                    off = end
                self.put(o, "list", SeqV(out))
                return
            if o.cls.has("__setitem__"):
                self.call(self.getattr(o, "__setitem__"), [i, v])
                return
        if isinstance(o, Tup):
            self.throw("TypeError", "tuple assignment")
        raise Unsupported("item assignment")

    def delitem(self, o, i):
        if isinstance(o, Ref) and o.cls is DICT and isinstance(i, str):
            d = self.rd(o, "dict")
            if not any(isinstance(x, Item) and x.key == i for x in d.ents):
                if any(isinstance(x, BaseD) for x in d.ents):
                    raise Unsupported("del in loop")
                self.throw("KeyError", i)
            self.put(o, "dict", DictV([x for x in d.ents if not (isinstance(x, Item) and x.key == i)]))
            return
        if isinstance(o, Ref) and o.cls is LIST:
            self.list_pop(o, i)
            return
        raise Unsupported("del")

    def list_pop(self, o, i):
        segs = self.rd(o, "list").segs
        if isinstance(i, int) and i == 0 and segs and isinstance(segs[0], El):
            self.put(o, "list", SeqV(segs[1:]))
            return segs[0].v
        n = self.length(o)
        i = self.norm_index(i, n)
        v = self.seq_at(segs, i)
        self.put(o, "list", SeqV(self.seq_slice(segs, 0, i) + self.seq_slice(segs, num.add(i, 1), n)))
        return v


DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def mentions_arrvar(t):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("$v"):
            return True
        todo.extend(e.children())
    return False
