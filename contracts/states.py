"""copies and views of states"""
from verif import *
import numpy as np
from bayesbay._state import State, ParameterSpaceState, DataNoiseState

S = "bayesbay._state.ParameterSpaceState."
G = "bayesbay._state.State."
P = lambda i: name_of("p", i)
Q = lambda j: name_of("s", j)


class World:
    pass


W = World()


def inner(j, k):
    """the nested state k of entry j: an arbitrary number of values"""
    s = ParameterSpaceState(W.size(j, k), {"a": array_of(W.size(j, k), lambda x: W.w(j, k, x))})
    s.save_to_cache("tree", pure("tree", "real", j, k))
    return s


def space_state(sites):
    """m scalar parameters, r nested ones, n entries each; sites of dimension `sites`"""
    W.n, W.m, W.r = integer("n", lo=1), nat("scalars"), nat("nested")
    W.v, W.w, W.size = ufi("v", 2), ufi("w", 3), ufn("size", 2)
    assume(forall2(W.r, W.n, lambda j, k: W.size(j, k) >= 1))
    vals = {P(i): array_of(W.n, lambda k: W.v(i, k)) for i in range(W.m)}
    for j in range(W.r):
        vals[Q(j)] = [inner(j, k) for k in range(W.n)]
    if sites == 1:
        vals["discretization"] = array_of(W.n, lambda k: W.site(k, 0))
    elif sites > 1:
        W.d = integer("d", lo=2)
        vals["discretization"] = array_of(W.n, W.d, lambda k, c: W.site(k, c))
    s = ParameterSpaceState(W.n, vals)
    s.save_to_cache("tree", real("tree"))
    return s


def equal_contents(new, old, sites):
    n, m, r = W.n, W.m, W.r
    check("as many dimensions", both(new.n_dimensions == n, old.n_dimensions == n))
    check("every parameter as long", [forall(m, lambda i: len(new[P(i)]) == n), forall(r, lambda j: len(new[Q(j)]) == n)])
    check("equal values", forall2(m, n, lambda i, k: new[P(i)][k] == W.v(i, k)))
    check("equal nested dimensions", forall2(r, n, lambda j, k: both(new[Q(j)][k].n_dimensions == W.size(j, k), len(new[Q(j)][k]["a"]) == W.size(j, k))))
    check("equal nested values", forall2(r, n, lambda j, k: forall(W.size(j, k), lambda x: new[Q(j)][k]["a"][x] == W.w(j, k, x))))
    if sites == 1:
        check("equal sites", [len(new["discretization"]) == n, forall(n, lambda k: new["discretization"][k] == W.site(k, 0))])
    elif sites > 1:
        check("equal sites", [len(new["discretization"]) == n, forall2(n, W.d, lambda k, c: new["discretization"][k, c] == W.site(k, c))])


def own_containers(new, old, sites):
    n, m, r = W.n, W.m, W.r
    check("another state", neg(is_same(new, old)))
    check("another dictionary of parameters", neg(is_same(new.param_values, old.param_values)))
    check("another cache", neg(is_same(new.cache, old.cache)))
    check("another array", forall(m, lambda i: neg(is_same(new[P(i)], old[P(i)]))))
    check("another list of nested states", forall(r, lambda j: neg(is_same(new[Q(j)], old[Q(j)]))))
    check("other nested states", forall2(r, n, lambda j, k: neg(is_same(new[Q(j)][k], old[Q(j)][k]))))
    check("of other arrays and caches", forall2(r, n, lambda j, k: both(neg(is_same(new[Q(j)][k]["a"], old[Q(j)][k]["a"])), neg(is_same(new[Q(j)][k].cache, old[Q(j)][k].cache)))))
    if sites:
        check("other sites", neg(is_same(new["discretization"], old["discretization"])))


def views_agree(s, sites):
    n, m, r = W.n, W.m, W.r
    check("attributes and names", [forall(m, lambda i: is_same(getattr(s, P(i)), s[P(i)])), forall(r, lambda j: is_same(getattr(s, Q(j)), s[Q(j)]))])
    check("attributes and names of nested states", forall2(r, n, lambda j, k: is_same(s[Q(j)][k].a, s[Q(j)][k]["a"])))
    d = s.todict("x")
    check("exported dimensions", d["x.n_dimensions"] == s.n_dimensions)
    check("exported values", forall(m, lambda i: is_same(d[f"x.{P(i)}"], s[P(i)])))
    check("exported nested values", forall2(r, n, lambda j, k: both(is_same(d[f"x.{Q(j)}"][k][f"x.{Q(j)}.a"], s[Q(j)][k]["a"]), d[f"x.{Q(j)}"][k][f"x.{Q(j)}.n_dimensions"] == s[Q(j)][k].n_dimensions)))
    check("and nothing else", len(d) == 1 + m + r + (1 if sites else 0))
    if sites:
        check("sites", both(is_same(s.discretization, s["discretization"]), is_same(d["x.discretization"], s["discretization"])))


def overwrite(s, sites):
    """write into every kind of array, nested state and entry of s"""
    if W.m > 0:
        i, k = integer("i", lo=0, hi=W.m - 1, size=False), integer("k", lo=0, hi=W.n - 1, size=False)
        s[P(i)][k] = real("written")
        replacement = np.zeros(W.n)
        s.set_param_values(P(i), replacement)
        check("a replaced entry is seen by attribute, name and in the exported dictionary",
              [is_same(s[P(i)], replacement), is_same(getattr(s, P(i)), replacement), is_same(s.todict("x")[f"x.{P(i)}"], replacement)])
    if W.r > 0:
        j, k = integer("j", lo=0, hi=W.r - 1, size=False), integer("k", lo=0, hi=W.n - 1, size=False)
        s[Q(j)][k]["a"][0] = real("written")
        s[Q(j)][k].save_to_cache("tree", 0)
        s[Q(j)][k] = ParameterSpaceState(1, {"a": np.zeros(1)})
    if sites == 1:
        s["discretization"][0] = real("written")
    elif sites > 1:
        s["discretization"][0, 0] = real("written")
    s.save_to_cache("tree", 1)
    s.save_to_cache("more", 1)


def copied(sites):
    W.site = ufi("site", 2)
    old = space_state(sites)
    before = snapshot(old)
    new = old.copy()
    cover("copied")
    check("the original is left as it was", unchanged(before))
    equal_contents(new, old, sites)
    own_containers(new, old, sites)
    check("what was cached for the same values", both(new.load_from_cache("tree") == old.load_from_cache("tree"), len(new.cache) == 1))
    views_agree(new, sites)
    overwrite(new, sites)
    check("writing into the copy never shows in the original", unchanged(before))


C = (S + "copy", S + "__post_init__", S + "set_param_values", S + "__getitem__", S + "todict")


@proof("C13", under=C)
def copy_of_a_space_state():
    copied(0)


@proof("C13", under=C)
def copy_of_a_discretization_state_1d():
    copied(1)


@proof("C13", under=C)
def copy_of_a_discretization_state():
    copied(2)


@proof("C13", under=C)
def original_written():
    W.site = ufi("site", 2)
    old = space_state(1)
    new = old.copy()
    before = snapshot(new)
    overwrite(old, 1)
    check("writing into the original never shows in the copy", unchanged(before))
    cover("written")


@proof("C13", under=S + "__post_init__")
def lengths():
    n, m = integer("n", lo=1), integer("parameters", lo=1)
    size = ufn("size", 1)
    assume(forall(m, lambda i: size(i) >= 1))
    vals = {P(i): array_of(size(i), lambda k: 0) for i in range(m)}
    try:
        ParameterSpaceState(n, vals)
    except ValueError:
        cover("refused")
        check("a state of equal lengths is not refused", some(m, lambda i: size(i) != n))
    else:
        cover("made")
        check("a state of unequal lengths cannot be made", forall(m, lambda i: size(i) == n))


@proof("C13", under=S + "__post_init__")
def lengths_of_nested_entries():
    n, k = integer("n", lo=1), integer("k", lo=1, size=False)
    nested = [ParameterSpaceState(1, {"a": np.zeros(1)}) for _ in range(k)]
    try:
        ParameterSpaceState(n, {"s": nested})
    except ValueError:
        cover("refused")
        check("a state of equal lengths is not refused", k != n)
    else:
        cover("made")
        check("a state of unequal lengths cannot be made", k == n)


@proof("C13", under=S + "__getitem__")
def selection():
    W.site = ufi("site", 2)
    s = space_state(1)
    before = snapshot(s)
    c = integer("selected", lo=1)
    at = ufn("at", 1)
    assume(forall(c, lambda x: both(0 <= at(x), at(x) < W.n)))
    new = s[[at(x) for x in range(c)]]
    cover("selected")
    check("as many dimensions as selected", new.n_dimensions == c)
    check("every parameter as long", [forall(W.m, lambda i: len(new[P(i)]) == c), forall(W.r, lambda j: len(new[Q(j)]) == c), len(new["discretization"]) == c])
    check("the selected values", forall2(W.m, c, lambda i, x: new[P(i)][x] == W.v(i, at(x))))
    check("the selected sites", forall(c, lambda x: new["discretization"][x] == W.site(at(x), 0)))
    check("the selected nested states", forall2(W.r, c, lambda j, x: forall(W.size(j, at(x)), lambda y: new[Q(j)][x]["a"][y] == W.w(j, at(x), y))))
    check("the original is left as it was", unchanged(before))


# ------------------------------------------------------------------------------------------------ whole states
def whole_state():
    W.p, W.t = nat("spaces"), nat("targets")
    W.sz, W.val, W.std, W.corr = ufn("size", 1), ufi("value", 2), ufi("std", 1), ufi("corr", 1)
    W.correlated = lambda j: pure("correlated", "bool", j)
    assume(forall(W.p, lambda i: W.sz(i) >= 1))
    vals = {name_of("space", i): ParameterSpaceState(W.sz(i), {"value": array_of(W.sz(i), lambda k: W.val(i, k))}) for i in range(W.p)}
    for j in range(W.t):
        vals[name_of("target", j)] = DataNoiseState(W.std(j), W.corr(j) if W.correlated(j) else None)
    W.T = real("T")
    return State(vals, W.T)


SP = lambda i: name_of("space", i)
TG = lambda j: name_of("target", j)


def state_views(s):
    check("attributes and names", [forall(W.p, lambda i: is_same(getattr(s, SP(i)), s[SP(i)])), forall(W.t, lambda j: getattr(s, TG(j)).std == s[TG(j)].std)])
    d = s._vars()
    check("exported dimensions", forall(W.p, lambda i: d[f"{SP(i)}.n_dimensions"] == s[SP(i)].n_dimensions))
    check("exported values", forall(W.p, lambda i: is_same(d[f"{SP(i)}.value"], s[SP(i)]["value"])))
    check("exported noise", forall(W.t, lambda j: d[f"{TG(j)}.std"] == s[TG(j)].std))
    check("exported correlations, where there are any", forall(W.t, lambda j: both(f"{TG(j)}.correlation" in d, d[f"{TG(j)}.correlation"] == s[TG(j)].correlation) if W.correlated(j) else f"{TG(j)}.correlation" not in d))


@proof("C13", under=(G + "copy", G + "__post_init__", G + "set_param_values", G + "__getitem__", "bayesbay._state.DataNoiseState.copy"))
def copy_of_a_state():
    old = whole_state()
    old.save_to_cache("t.dpred", real("prediction"))
    old.save_to_extra_storage("note", real("note"))
    before = snapshot(old)
    for keep in (True, False):
        new = old.copy(keep_dpred=True) if keep else old.copy()
        cover("copied")
        check("the original is left as it was", unchanged(before))
        check("temperature", new.temperature == W.T)
        check("equal values", forall(W.p, lambda i: both(new[SP(i)].n_dimensions == W.sz(i), len(new[SP(i)]["value"]) == W.sz(i))))
        check("equal values", forall(W.p, lambda i: forall(W.sz(i), lambda k: new[SP(i)]["value"][k] == W.val(i, k))))
        check("equal noise", forall(W.t, lambda j: new[TG(j)].std == W.std(j)))
        check("equal correlations", forall(W.t, lambda j: new[TG(j)].correlation == W.corr(j) if W.correlated(j) else is_same(new[TG(j)].correlation, None)))
        check("another state", neg(is_same(new, old)))
        check("other dictionaries", [neg(is_same(new.param_values, old.param_values)), neg(is_same(new.cache, old.cache)), neg(is_same(new.extra_storage, old.extra_storage))])
        check("other parameter space states", forall(W.p, lambda i: both(neg(is_same(new[SP(i)], old[SP(i)])), neg(is_same(new[SP(i)]["value"], old[SP(i)]["value"])))))
        state_views(new)
        if W.p > 0:
            i = integer("i", lo=0, hi=W.p - 1, size=False)
            new[SP(i)]["value"][0] = real("written")
            new.set_param_values(SP(i), ParameterSpaceState(1, {"value": np.zeros(1)}))
            check("the new entry is seen", is_same(getattr(new, SP(i)), new[SP(i)]))
        if W.t > 0:
            j = integer("j", lo=0, hi=W.t - 1, size=False)
            new.set_param_values(TG(j), DataNoiseState(1, None))
        new.temperature = real("T2")
        new.save_to_cache("t.dpred", 1)
        new.save_to_extra_storage("note", 1)
        check("writing into the copy never shows in the original", unchanged(before))


@proof("C13", under=(G + "_vars", G + "items", G + "__iter__"))
def views_of_a_state():
    s = whole_state()
    cover("made")
    state_views(s)
    check("nothing else is exported", len(s._vars()) == 2 * W.p + W.t + total(W.t, lambda j: ite(W.correlated(j), 1, 0)))
