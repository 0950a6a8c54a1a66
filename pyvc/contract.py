"""function contracts: verified against the body once, used instead of the body at every call"""
from .engine import *
from .values import *
from .interp import *


def field(V, cls, name):
    m = cls.lookup(name)
    return m.f if isinstance(m, StaticV) else m


def install(V):
    """turn @contract classes into call rules and into proofs; @proof functions into proofs"""
    V.proofs = []
    V.optional = {}
    V.bare = ()
    for qual, (cls, opts) in V.contract_defs.items():
        props = tuple(opts.get("props").items) if isinstance(opts.get("props"), Tup) else ()
        (V.optional if opts.get("inline_at_calls") else V.contracts)[qual] = rule(V, qual, cls)
        if opts.get("proved_by"):
            continue
        V.proofs.append(("contract:" + qual, props, {"under": [qual], "qual": qual, "opts": opts}, verify(V, qual, cls, opts)))
    for qual, props, opts, f in V.proof_defs:
        o = dict(opts)
        u = o.get("under")
        o["under"] = [x for x in u.items] if isinstance(u, Tup) else [u] if u else []
        V.proofs.append((f.name, props, o, spec_thunk(V, f, o.get("using"), o.get("bare"))))


def spec_thunk(V, f, using, bare):
    """run a specification function; `using` names the contracts, otherwise not applied at calls, that it may rely on;
    `bare` those of which it needs only that the result is a function of the arguments, not the postconditions"""
    names, bare = [[] if x is None else list(x.items) if isinstance(x, Tup) else [x] for x in (using, bare)]

    def thunk():
        saved = V.contracts
        V.contracts = dict(saved, **{q: V.optional[q] for q in names})
        try:
            V.bare = bare
            V.call(f, [])
        finally:
            V.contracts, V.bare = saved, ()
    return thunk


def conds(V, v):
    """[(name, formula)] from a specification list"""
    if v is None:
        return []
    return [tuple(x.items) for x in V.unpack(v)]


def rule(V, qual, cls):
    def call(e, f, args, kw):
        e.used_contracts.add(qual)
        b = e.bind(f, args, kw)
        order = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        vals = [b[n] for n in order]
        if f.ctypes_:
            from . import cyfront
            vals = [cyfront.coerce(e, f.ctypes_["args"][n], v) if n in f.ctypes_["args"] else v for n, v in zip(order, vals)]
        req = field(e, cls, "requires")
        if req is not None:
            for n, c in conds(e, e.call(req, vals)):
                if e.recording:
                    e.check(f"precondition of {f.name}: {n}", c)
                e.suppose(c)
        r = e.call(field(e, cls, "result"), vals)
        if field(e, cls, "exact") or qual in e.bare:
            return r
        for n, c in conds(e, e.call(field(e, cls, "ensures"), [r] + vals)):
            e.suppose(c)
        return r
    return call


def lookup(V, qual):
    """Func object of a dotted name"""
    parts = qual.split(".")
    for i in range(len(parts), 0, -1):
        n = ".".join(parts[:i])
        if n in V.mods:
            o = V.mods[n]
            for p in parts[i:]:
                if isinstance(o, PyClass):
                    o = o.lookup(p)
                else:
                    o = o.ns.get(p)
                if isinstance(o, (StaticV, ClassMV)):
                    o = o.f
                if o is None:
                    return None
            return o
    return None


def verify(V, qual, cls, opts):
    def thunk():
        f = lookup(V, qual)
        if f is None:
            raise Unsupported(f"{qual} does not exist")
        args = V.unpack(V.call(field(V, cls, "args"), []))
        req = field(V, cls, "requires")
        if req is not None:
            for n, c in conds(V, V.call(req, args)):
                V.suppose(c)
        V.call(V.mods["verif"].ns["cover"], ["precondition satisfiable"])
        r = V.call(f, args)
        V.call(V.mods["verif"].ns["cover"], ["normal return reachable"])
        for n, c in conds(V, V.call(field(V, cls, "ensures"), [r] + args)):
            V.check(n, c)
        if field(V, cls, "exact"):
            V.check("the result is exactly the one specified", V.same_value(r, V.call(field(V, cls, "result"), args)))
    return thunk
