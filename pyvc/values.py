"""Value language of the verifier.

Values are concrete Python scalars (int, bool, str, None, Fraction, +-inf/nan floats), z3
expressions (symbolic scalars) and the immutable structures below.  Everything mutable
lives in the engine's heap, keyed by (family, cell); a family is an object created under
zero or more generic loop indices, and `Ref(fam, idx)` is its member at those indices.
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """construct or proof step outside the verifier's reach: the contract is undecided"""


class PathAbort(Exception):
    """current path is infeasible"""


class Ref:
    __slots__ = ("fam", "idx", "cls")

    def __init__(self, fam, idx, cls):
        self.fam, self.idx, self.cls = fam, tuple(idx), cls

    def __eq__(self, o):
        return isinstance(o, Ref) and o.fam == self.fam and len(o.idx) == len(self.idx) and all(
            same(a, b) for a, b in zip(self.idx, o.idx))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.fam)

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}#{self.fam}{list(self.idx) if self.idx else ''}>"


class El:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"El({self.v})"


class Seg:
    """n elements; element k is v (over the z3 constant k); present if cond"""
    __slots__ = ("n", "k", "v", "cond")

    def __init__(self, n, k, v, cond=None):
        self.n, self.k, self.v, self.cond = n, k, v, cond

    def __repr__(self):
        return f"Seg({self.n},{self.k},{self.v},{self.cond})"


class Cat:
    """concatenation for k = 0..n-1 of the segments segs(k)"""
    __slots__ = ("n", "k", "segs", "cond")

    def __init__(self, n, k, segs, cond=None):
        self.n, self.k, self.segs, self.cond = n, k, tuple(segs), cond

    def __repr__(self):
        return f"Cat({self.n},{self.k},{self.segs},{self.cond})"


class BaseSeg:
    """the contents a carried list has at the start of a generic iteration"""
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w


class SeqV:
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"SeqV{self.segs}"


class Item:
    """literal-key entry: the value is in heap cell (fam, ('it', key))"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"Item({self.key})"


class SymItem:
    """entry with a symbolic (structured) key and its value"""
    __slots__ = ("key", "v")

    def __init__(self, key, v):
        self.key, self.v = key, v

    def __repr__(self):
        return f"SymItem({self.key},{self.v})"


class Grp:
    """n entries key(k) -> v(k), present if cond(k)"""
    __slots__ = ("n", "k", "key", "v", "cond")

    def __init__(self, n, k, key, v, cond=None):
        self.n, self.k, self.key, self.v, self.cond = n, k, key, v, cond

    def __repr__(self):
        return f"Grp({self.n},{self.key},{self.v},{self.cond})"


class BaseD:
    """the entries a carried dict has at the start of a generic iteration"""
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w


class DictV:
    __slots__ = ("ents",)

    def __init__(self, ents=()):
        self.ents = tuple(ents)

    def __repr__(self):
        return f"DictV{self.ents}"


class ArrV:
    """array of the given shape; element [vars] is body"""
    __slots__ = ("shape", "vars", "body")

    def __init__(self, shape, vars, body):
        self.shape, self.vars, self.body = tuple(shape), tuple(vars), body

    def __repr__(self):
        return f"ArrV{self.shape}({self.body})"


class StoreV:
    """array value with pending element stores (guard, index tuple, value), oldest first"""
    __slots__ = ("base", "stores")

    def __init__(self, base, stores):
        self.base, self.stores = base, tuple(stores)

    @property
    def shape(self):
        return self.base.shape

    def __repr__(self):
        return f"StoreV({self.base},{self.stores})"


class Choice:
    """first alternative whose guard holds"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f"Choice{self.alts}"


class SStr:
    """structured string: parts are literals or (family, idx) name atoms"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "SStr" + repr(self.parts)

    def key(self):
        return tuple(p if isinstance(p, str) else ("@", p[0], len(p[1])) for p in self.parts)


class Tup:
    """tuple of values, optionally a namedtuple"""
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items, self.cls = tuple(items), cls

    def __repr__(self):
        return f"Tup{self.items}"


class Many:
    """starred argument of unknown length"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class Poison:
    """value of a location the loop rule could not summarise"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class IterV:
    """an iterable: segments, not stored in the heap"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class PartialV:
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), dict(kw)


class BoundV:
    __slots__ = ("f", "obj")

    def __init__(self, f, obj):
        self.f, self.obj = f, obj

    def __repr__(self):
        return f"Bound({self.f},{self.obj})"


class Bi:
    """native model of a library function: fn(engine, args, kw)"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"Bi({self.name})"


class Func:
    __slots__ = ("node", "name", "mod", "env", "defaults", "kwdefaults", "owner", "qual", "locals_", "ctypes_", "kind")

    def __init__(self, node, name, mod, env, defaults, kwdefaults, qual):
        self.node, self.name, self.mod, self.env = node, name, mod, env
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.owner = None
        self.locals_ = None
        self.ctypes_ = None
        self.kind = "def"

    def __repr__(self):
        return f"Func({self.qual})"


class PyClass:
    def __init__(self, name, bases, ns, mod=None, native=None):
        self.name, self.bases, self.ns, self.mod, self.native = name, tuple(bases), dict(ns), mod, native
        self.mro = self._mro()
        self.fields = None

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent class hierarchy")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def sub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"class {self.name}"


class PropertyV:
    __slots__ = ("get", "set")

    def __init__(self, get, set=None):
        self.get, self.set = get, set


class StaticV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassMV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Mod:
    def __init__(self, name):
        self.name, self.ns = name, {}

    def __repr__(self):
        return f"module {self.name}"


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (bool, int, float, Fraction, z3.ArithRef))


def same(a, b):
    """syntactic identity of values"""
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.sort().eq(b.sort()) and z3.eq(a, b)
    if is_z3(a) or is_z3(b):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and a != a:
        return b != b
    if isinstance(a, (Ref,)):
        return a == b
    if isinstance(a, Tup):
        return a.cls is b.cls and len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SStr):
        return len(a.parts) == len(b.parts) and all(
            (x == y if isinstance(x, str) or isinstance(y, str) else x[0] == y[0] and len(x[1]) == len(y[1])
             and all(same(p, q) for p, q in zip(x[1], y[1]))) for x, y in zip(a.parts, b.parts))
    if isinstance(a, SeqV):
        return len(a.segs) == len(b.segs) and all(same(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, El):
        return same(a.v, b.v)
    if isinstance(a, Seg):
        return z3.eq(a.k, b.k) and same(a.n, b.n) and same(a.v, b.v) and same(a.cond, b.cond)
    if isinstance(a, Cat):
        return z3.eq(a.k, b.k) and same(a.n, b.n) and same(a.cond, b.cond) and len(a.segs) == len(b.segs) and all(
            same(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, StoreV):
        return same(a.base, b.base) and same(a.stores, b.stores)
    if isinstance(a, (BaseSeg, BaseD)):
        return a.w == b.w
    if isinstance(a, DictV):
        return len(a.ents) == len(b.ents) and all(same(x, y) for x, y in zip(a.ents, b.ents))
    if isinstance(a, Item):
        return a.key == b.key
    if isinstance(a, SymItem):
        return same(a.key, b.key) and same(a.v, b.v)
    if isinstance(a, Grp):
        return z3.eq(a.k, b.k) and same(a.n, b.n) and same(a.key, b.key) and same(a.v, b.v) and same(a.cond, b.cond)
    if isinstance(a, ArrV):
        return len(a.shape) == len(b.shape) and all(same(x, y) for x, y in zip(a.shape, b.shape)) and \
            all(z3.eq(x, y) for x, y in zip(a.vars, b.vars)) and same(a.body, b.body)
    if isinstance(a, Choice):
        return len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, (PartialV,)):
        return same(a.f, b.f) and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args)) and \
            a.kw.keys() == b.kw.keys() and all(same(a.kw[x], b.kw[x]) for x in a.kw)
    if isinstance(a, BoundV):
        return same(a.f, b.f) and same(a.obj, b.obj)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def walk(v, f):
    """apply f to every z3 term in v"""
    if is_z3(v):
        f(v)
    elif isinstance(v, Ref):
        for i in v.idx:
            walk(i, f)
    elif isinstance(v, (Tup, )):
        for i in v.items:
            walk(i, f)
    elif isinstance(v, SStr):
        for p in v.parts:
            if not isinstance(p, str):
                for i in p[1]:
                    walk(i, f)
    elif isinstance(v, (SeqV, IterV)):
        for s in v.segs:
            walk(s, f)
    elif isinstance(v, El):
        walk(v.v, f)
    elif isinstance(v, Seg):
        walk(v.n, f), walk(v.v, f), walk(v.cond, f)
    elif isinstance(v, Cat):
        walk(v.n, f), walk(v.cond, f)
        for s in v.segs:
            walk(s, f)
    elif isinstance(v, DictV):
        for s in v.ents:
            walk(s, f)
    elif isinstance(v, SymItem):
        walk(v.key, f), walk(v.v, f)
    elif isinstance(v, Grp):
        walk(v.n, f), walk(v.key, f), walk(v.v, f), walk(v.cond, f)
    elif isinstance(v, ArrV):
        for s in v.shape:
            walk(s, f)
        walk(v.body, f)
    elif isinstance(v, StoreV):
        walk(v.base, f), walk(v.stores, f)
    elif isinstance(v, Choice):
        for g, x in v.alts:
            walk(g, f), walk(x, f)
    elif isinstance(v, PartialV):
        walk(v.f, f), walk(v.args, f)
        for a in v.kw.values():
            walk(a, f)
    elif isinstance(v, BoundV):
        walk(v.f, f), walk(v.obj, f)
    elif isinstance(v, Func):
        walk(v.env, f), walk(tuple(v.defaults or ()), f)
    elif isinstance(v, (tuple, list)):
        for a in v:
            walk(a, f)


def vsub(v, f):
    """v with every z3 term t replaced by f(t) (returns v itself when nothing changed)"""
    if is_z3(v):
        return f(v)
    if v is None or isinstance(v, (bool, int, float, str, Fraction)):
        return v
    if isinstance(v, Ref):
        if not v.idx:
            return v
        idx = tuple(vsub(i, f) for i in v.idx)
        return Ref(v.fam, idx, v.cls) if any(a is not b for a, b in zip(idx, v.idx)) else v
    if isinstance(v, Tup):
        t = tuple(vsub(i, f) for i in v.items)
        return Tup(t, v.cls) if any(a is not b for a, b in zip(t, v.items)) else v
    if isinstance(v, SStr):
        ps = tuple(p if isinstance(p, str) else (p[0], tuple(vsub(i, f) for i in p[1])) for p in v.parts)
        return SStr(ps)
    if isinstance(v, SeqV):
        t = tuple(vsub(i, f) for i in v.segs)
        return SeqV(t) if any(a is not b for a, b in zip(t, v.segs)) else v
    if isinstance(v, IterV):
        return IterV(tuple(vsub(i, f) for i in v.segs))
    if isinstance(v, El):
        x = vsub(v.v, f)
        return v if x is v.v else El(x)
    if isinstance(v, Seg):
        n, x, c = vsub(v.n, f), vsub(v.v, f), vsub(v.cond, f)
        return v if n is v.n and x is v.v and c is v.cond else Seg(n, v.k, x, c)
    if isinstance(v, Cat):
        return Cat(vsub(v.n, f), v.k, tuple(vsub(s, f) for s in v.segs), vsub(v.cond, f))
    if isinstance(v, DictV):
        t = tuple(vsub(i, f) for i in v.ents)
        return DictV(t) if any(a is not b for a, b in zip(t, v.ents)) else v
    if isinstance(v, SymItem):
        k, x = vsub(v.key, f), vsub(v.v, f)
        return SymItem(k, x)
    if isinstance(v, Grp):
        n, k, x, c = vsub(v.n, f), vsub(v.key, f), vsub(v.v, f), vsub(v.cond, f)
        return Grp(n, v.k, k, x, c)
    if isinstance(v, ArrV):
        s, b = tuple(vsub(i, f) for i in v.shape), vsub(v.body, f)
        return v if b is v.body and all(x is y for x, y in zip(s, v.shape)) else ArrV(s, v.vars, b)
    if isinstance(v, StoreV):
        return StoreV(vsub(v.base, f), vsub(v.stores, f))
    if isinstance(v, Choice):
        t = tuple((vsub(g, f), vsub(x, f)) for g, x in v.alts)
        return v if all(a[0] is b[0] and a[1] is b[1] for a, b in zip(t, v.alts)) else Choice(t)
    if isinstance(v, PartialV):
        return PartialV(vsub(v.f, f), tuple(vsub(a, f) for a in v.args), {k: vsub(a, f) for k, a in v.kw.items()})
    if isinstance(v, BoundV):
        g, o = vsub(v.f, f), vsub(v.obj, f)
        return v if g is v.f and o is v.obj else BoundV(g, o)
    if isinstance(v, Func):
        e = vsub(v.env, f)
        if e is v.env:
            return v
        w = Func(v.node, v.name, v.mod, e, v.defaults, v.kwdefaults, v.qual)
        w.owner, w.locals_, w.ctypes_, w.kind = v.owner, v.locals_, v.ctypes_, v.kind
        return w
    if isinstance(v, tuple):
        t = tuple(vsub(i, f) for i in v)
        return t if any(a is not b for a, b in zip(t, v)) else v
    return v


def free_names(v):
    """names of the uninterpreted constants and functions in v"""
    acc, seen = set(), set()

    def f(e):
        todo = [e]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
            elif z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(e.decl().name())
                todo.extend(e.children())
    walk(v, f)
    return acc


def bases(v, acc=None):
    """carried-container markers in v"""
    acc = set() if acc is None else acc
    if isinstance(v, (BaseSeg, BaseD)):
        acc.add(v.w)
    elif isinstance(v, Poison):
        acc.add(v.why)
    elif isinstance(v, (SeqV, IterV)):
        for s in v.segs:
            bases(s, acc)
    elif isinstance(v, DictV):
        for s in v.ents:
            bases(s, acc)
    elif isinstance(v, Choice):
        for g, x in v.alts:
            bases(x, acc)
    elif isinstance(v, Tup):
        for x in v.items:
            bases(x, acc)
    return acc
