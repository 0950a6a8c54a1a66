"""Voronoi discretizations in one and more dimensions: moves in dimension, moves of a site, initial states"""
from verif import *
import math
import numpy as np
from bisect import bisect_left
from contracts.stubs import *
from contracts.disc import step, sites_of
from bayesbay.discretization import Voronoi, Voronoi1D, Voronoi2D
import shapely.geometry

V = "bayesbay.discretization._voronoi.Voronoi."
V2 = "bayesbay.discretization._voronoi.Voronoi2D."
D = "bayesbay.discretization._discretization.Discretization."


def cells(d, m, q, r, model, lo, hi, birth_from="neighbour"):
    """a Voronoi discretization of dimension d with m priors, q nested discretizations, r nested spaces"""
    params = any_parameters(m, q, r, model)
    if d == "polygon" or d == "plane":
        s = real("perturb_std")
        assume(s > 0)
        tree = boolean("tree")
        if d == "polygon":
            return Voronoi2D("x", None, None, array("corners", integer("k", lo=3), 2), s, None, lo, hi, 0.3, params, birth_from, tree)
        vmin, vmax = array("vmin", 2), array("vmax", 2)
        assume(vmin[0] < vmax[0], vmin[1] < vmax[1])
        return Voronoi2D("x", vmin, vmax, None, s, None, lo, hi, 0.3, params, birth_from, tree)
    if d == 1:
        vmin, vmax = real("vmin"), real("vmax")
        assume(vmin < vmax)
        s = real("perturb_std")
        assume(s > 0)
        return Voronoi1D("x", vmin, vmax, s, None, lo, hi, 0.3, params, birth_from)
    vmin, vmax = array("vmin", d), array("vmax", d)
    assume(forall(d, lambda k: vmin[k] < vmax[k]))
    s = array("perturb_std", d)
    assume(forall(d, lambda k: s[k] > 0))
    return Voronoi("x", d, vmin, vmax, s, None, lo, hi, 0.3, params, birth_from)


def cell_state(disc, d, n, m, q, r, v, t, w):
    """a state of n cells satisfying the invariants: sites in the domain, in increasing order in one dimension"""
    vals = any_values(n, m, q, r, v, t, w)
    if d == 1:
        sites = array("sites", n)
        assume(forall2(n, n, lambda i, j: implies(i < j, sites[i] < sites[j])))
        assume(forall(n, lambda i: both(sites[i] >= disc.vmin, sites[i] <= disc.vmax)))
    else:
        dd = dims(d)
        sites = array("sites", n, dd)
        if d == "polygon":
            assume(forall(n, lambda i: disc.polygon.contains(shapely.geometry.Point(sites[i]))))
        else:
            assume(forall2(n, dd, lambda i, k: both(sites[i, k] >= disc.vmin[k], sites[i, k] <= disc.vmax[k])))
    vals["discretization"] = sites
    return ParameterSpaceState(n, vals)


def dims(d):
    return 2 if d == "polygon" or d == "plane" else d


def within(disc, d, site):
    if d == "polygon":
        return disc.polygon.contains(shapely.geometry.Point(site))
    return forall(dims(d), lambda k: both(disc.vmin[k] <= site[k], site[k] <= disc.vmax[k]))


def tree_of_own_sites(disc, d, state):
    """the cached tree, if one is asked for, is that of the state's own sites"""
    if d == "polygon" or d == "plane":
        if disc.compute_kdtree:
            check("C12: a state carries the tree of its own sites", state.saved_in_cache("kdtree"))
            t, s = state.load_from_cache("kdtree").data, state["discretization"]
            check("C12: the tree is that of the state's sites", [len(t) == len(s), forall2(len(s), 2, lambda k, c: t[k, c] == s[k, c])])


def kept(disc, d, state):
    """the state without the cache (a tree of the same sites may be put there again)"""
    return snapshot(disc, state.param_values) if d == "polygon" or d == "plane" else snapshot(disc, state)


def one_birth(d, birth_from):
    m, q, r = nat("scalars"), nat("discs"), nat("spaces")
    n, lo, hi = integer("n", lo=1), integer("lo", lo=1, size=False), integer("hi", size=False)
    assume(lo <= n, n <= hi)
    model = Model("m")
    disc = cells(d, m, q, r, model, lo, hi, birth_from)
    v, t, w = ufi("v", 2), ufi("t", 2), ufi("w", 2)
    state = cell_state(disc, d, n, m, q, r, v, t, w)
    sites = state["discretization"]
    before = kept(disc, d, state)
    new, ratio = disc.birth(state)
    check("C07: the current state is left as it was", unchanged(before))
    if n == hi:
        check("C02: ratio at the largest number of dimensions", ratio == -INF)
        cover("largest")
        return
    cover("birth")
    ns = new["discretization"]
    check("C04: one dimension more, still within the limits", [new.n_dimensions == n + 1, len(ns) == n + 1, lo <= n + 1, n + 1 <= hi])
    if d == 1:
        site = draw(0)[3]
        check("C06: the new site is drawn uniformly on the domain", [draw(0)[0] == "uniform", draw(0)[1] == disc.vmin, draw(0)[2] == disc.vmax])
        at = bisect_left(sites, site)
        check("C05: the sites stay in order", forall2(n + 1, n + 1, lambda i, j: implies(i < j, ns[i] <= ns[j])))
        check("C05: the new site is added", ns[at] == site)
        check("C05: the other sites stay", forall(n, lambda k: ns[ite(k < at, k, k + 1)] == sites[k]))
    else:
        at = n
        site = ns[n]
        check("C05: the other sites stay", forall2(n, dims(d), lambda k, c: ns[k, c] == sites[k, c]))
        check("C06: the new site lies in the domain", within(disc, d, site))
    tree_of_own_sites(disc, d, new)
    check("C04: every parameter has one value per site", [
        forall(m, lambda i: len(new[name_of("p", i)]) == n + 1), forall(q, lambda j: len(new[name_of("d", j)]) == n + 1),
        forall(r, lambda j: len(new[name_of("s", j)]) == n + 1)])
    check("C04,C05: values stay with their sites", [
        forall2(m, n, lambda i, k: new[name_of("p", i)][ite(k < at, k, k + 1)] == v(i, k)),
        forall2(q, n, lambda j, k: is_same(new[name_of("d", j)][ite(k < at, k, k + 1)], state[name_of("d", j)][k])),
        forall2(r, n, lambda j, k: is_same(new[name_of("s", j)][ite(k < at, k, k + 1)], state[name_of("s", j)][k]))])
    if birth_from == "prior":
        check("C02: log ratio zero when born from the prior", ratio == 0)
    else:
        near = disc.nearest_neighbour(sites, site)
        check("C02: log prior minus log proposal density over the newborn values",
              ratio == total(m, lambda i: step(model, i, site, new[name_of("p", i)][at], v(i, near)))
              + total(q, lambda j: model.born(j, new[name_of("d", j)][at].tag, t(j, near))))


@proof("C02", "C04", "C05", "C06", "C07", under=(V + "birth", D + "_initialize_newborn_params", D + "_initialize_params_from_neighbour", V + "nearest_neighbour"))
def birth_from_neighbour_1d():
    one_birth(1, "neighbour")


@proof("C02", "C04", "C05", "C06", "C07", under=(V + "birth", D + "_initialize_newborn_params", D + "_initialize_params_from_prior"))
def birth_from_prior_1d():
    one_birth(1, "prior")


@proof("C02", "C04", "C05", "C06", "C07", under=(V + "birth", D + "_initialize_newborn_params", D + "_initialize_params_from_neighbour", V + "nearest_neighbour"))
def birth_from_neighbour():
    one_birth(integer("d", lo=2), "neighbour")


@proof("C02", "C04", "C05", "C06", "C07", under=(V + "birth", D + "_initialize_newborn_params", D + "_initialize_params_from_prior"))
def birth_from_prior():
    one_birth(integer("d", lo=2), "prior")


def one_death(d, birth_from):
    m, q, r = nat("scalars"), nat("discs"), nat("spaces")
    n, lo, hi = integer("n", lo=1), integer("lo", lo=1, size=False), integer("hi", size=False)
    assume(lo <= n, n <= hi)
    model = Model("m")
    disc = cells(d, m, q, r, model, lo, hi, birth_from)
    v, t, w = ufi("v", 2), ufi("t", 2), ufi("w", 2)
    state = cell_state(disc, d, n, m, q, r, v, t, w)
    sites = state["discretization"]
    before = kept(disc, d, state)
    new, ratio = disc.death(state)
    check("C07: the current state is left as it was", unchanged(before))
    if n == lo:
        check("C02: ratio at the smallest number of dimensions", ratio == -INF)
        cover("smallest")
        return
    cover("death")
    ns = new["discretization"]
    at = draw(0)[3]
    check("C04: a uniform draw of the cell to remove", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    check("C04: one dimension less, still within the limits", [new.n_dimensions == n - 1, len(ns) == n - 1, lo <= n - 1, n - 1 <= hi])
    old = lambda k: ite(k < at, k, k + 1)
    if d == 1:
        check("C05: the other sites stay, in order", [forall(n - 1, lambda k: ns[k] == sites[old(k)]),
                                                      forall2(n - 1, n - 1, lambda i, j: implies(i < j, ns[i] < ns[j]))])
        gone = sites[at]
    else:
        check("C05: the other sites stay", forall2(n - 1, dims(d), lambda k, c: ns[k, c] == sites[old(k), c]))
        gone = sites[at]
    tree_of_own_sites(disc, d, new)
    check("C04: every parameter has one value per site", [
        forall(m, lambda i: len(new[name_of("p", i)]) == n - 1), forall(q, lambda j: len(new[name_of("d", j)]) == n - 1),
        forall(r, lambda j: len(new[name_of("s", j)]) == n - 1)])
    check("C04,C05: values stay with their sites", [
        forall2(m, n - 1, lambda i, k: new[name_of("p", i)][k] == v(i, old(k))),
        forall2(q, n - 1, lambda j, k: is_same(new[name_of("d", j)][k], state[name_of("d", j)][old(k)])),
        forall2(r, n - 1, lambda j, k: is_same(new[name_of("s", j)][k], state[name_of("s", j)][old(k)]))])
    if birth_from == "prior":
        check("C02: log ratio zero when born from the prior", ratio == 0)
    else:
        near = disc.nearest_neighbour(ns, gone)
        check("C02: minus the log ratio of the birth that undoes it",
              ratio == -total(m, lambda i: step(model, i, gone, v(i, at), v(i, old(near))))
              - total(q, lambda j: model.born(j, t(j, at), t(j, old(near)))))


@proof("C02", "C04", "C05", "C07", under=(V + "death", D + "_log_prob_death_parameters", V + "nearest_neighbour"))
def death_to_neighbour_1d():
    one_death(1, "neighbour")


@proof("C02", "C04", "C05", "C07", under=(V + "death", D + "_log_prob_death_parameters"))
def death_to_prior_1d():
    one_death(1, "prior")


@proof("C02", "C04", "C05", "C07", under=(V + "death", D + "_log_prob_death_parameters", V + "nearest_neighbour"))
def death_to_neighbour():
    one_death(integer("d", lo=2), "neighbour")


@proof("C02", "C04", "C05", "C07", under=(V + "death", D + "_log_prob_death_parameters"))
def death_to_prior():
    one_death(integer("d", lo=2), "prior")


@proof("C02", "C04", "C05", "C06", "C07", "C12", under=(V2 + "birth", V2 + "sample_site", V2 + "_add_kdtree_to_ps_state", V2 + "__init__"))
def birth_in_the_plane():
    one_birth("plane", "neighbour")
    

@proof("C02", "C04", "C05", "C06", "C07", "C12", under=(V2 + "birth", V2 + "sample_site", V2 + "_add_kdtree_to_ps_state", V2 + "__init__"))
def birth_in_a_polygon():
    one_birth("polygon", "neighbour")


@proof("C02", "C04", "C05", "C07", "C12", under=(V2 + "death", V2 + "_add_kdtree_to_ps_state"))
def death_in_the_plane():
    one_death("plane", "neighbour")


class FreePrior(AnyPrior):
    """an arbitrary prior that is the same at every position"""

    def log_prior(self, value, position=None):
        return self.model.density(self.key, value, None)


def one_move(d):
    m, g, q, r = nat("scalars"), nat("graded"), nat("discs"), nat("spaces")
    n = integer("n", lo=1)
    model, graded = Model("m"), Model("g")
    disc = cells(d, 0, 0, 0, model, 1, n)
    for i in range(m):
        disc.parameters[name_of("p", i)] = FreePrior(name_of("p", i), i, model)
    for i in range(g):
        disc.parameters[name_of("g", i)] = graded_prior(name_of("g", i), i, graded)
    for j in range(q):
        disc.parameters[name_of("d", j)] = AnyDisc(name_of("d", j), j, model)
    for j in range(r):
        disc.parameters[name_of("s", j)] = AnySpace(name_of("s", j), j, model)
    v, t, w, x = ufi("v", 2), ufi("t", 2), ufi("w", 2), ufi("x", 2)
    state = cell_state(disc, d, n, m, q, r, v, t, w)
    for i in range(g):
        state.set_param_values(name_of("g", i), array_of(n, lambda k: x(i, k)))
    sites = state["discretization"]
    isite = integer("isite", lo=0, hi=n - 1, size=False)
    before = kept(disc, d, state)
    new, ratio = disc.perturb_value(state, isite)
    check("C07: the current state is left as it was", unchanged(before))
    if d == 1:
        z = draw(0)[3]
        check("C03: one symmetric normal step of the given width", [draw(0)[0] == "normal", draw(0)[1] == 0, draw(0)[2] == disc.perturb_std])
        site = sites[isite] + z
        inside = both(disc.vmin <= site, site <= disc.vmax)
    elif d == "plane" or d == "polygon":
        for k in range(2):
            check("C03: one symmetric normal step of the given width in every direction",
                  [draw(k)[0] == "normal", draw(k)[1] == 0, draw(k)[2] == disc.perturb_std])
        to = np.array([sites[isite, 0] + draw(0)[3], sites[isite, 1] + draw(1)[3]])
        if d == "polygon":
            inside = disc.polygon.contains(shapely.geometry.Point(to))
        else:
            inside = both(disc.vmin[0] <= to[0], to[0] <= disc.vmax[0], disc.vmin[1] <= to[1], to[1] <= disc.vmax[1])
    else:
        check("C03: one symmetric normal step of the given width in every direction",
              forall(d, lambda k: both(draw(k)[0] == "normal", draw(k)[1] == 0, draw(k)[2] == disc.perturb_std[k])))
        inside = neg(some(d, lambda k: either(sites[isite, k] + draw(k)[3] < disc.vmin[k], sites[isite, k] + draw(k)[3] > disc.vmax[k])))
    if ratio == -INF:
        cover("outside")
        check("C03,C06: refused only when the step leaves the domain", neg(inside))
        return
    cover("moved")
    ns = new["discretization"]
    tree_of_own_sites(disc, d, new)
    check("C04: same number of cells", [new.n_dimensions == n, len(ns) == n])
    check("C03,C06: the new site lies in the domain", inside)
    if d == 1:
        moved = lambda j: ite(j == isite, site, sites[j])
        check("C05: every site comes from an old one", forall(n, lambda k: some(n, lambda j: ns[k] == moved(j))))
        check("C05: every value keeps its site", [
            forall2(m, n, lambda i, k: some(n, lambda j: both(ns[k] == moved(j), new[name_of("p", i)][k] == v(i, j)))),
            forall2(g, n, lambda i, k: some(n, lambda j: both(ns[k] == moved(j), new[name_of("g", i)][k] == x(i, j)))),
            forall2(q, n, lambda i, k: some(n, lambda j: both(ns[k] == moved(j), is_same(new[name_of("d", i)][k], state[name_of("d", i)][j])))),
            forall2(r, n, lambda i, k: some(n, lambda j: both(ns[k] == moved(j), is_same(new[name_of("s", i)][k], state[name_of("s", i)][j]))))])
        check("C05: the sites are in order", forall2(n, n, lambda i, j: implies(i < j, ns[i] <= ns[j])))
    check("C04: every parameter has one value per site", [
        forall(m, lambda i: len(new[name_of("p", i)]) == n), forall(g, lambda i: len(new[name_of("g", i)]) == n),
        forall(q, lambda j: len(new[name_of("d", j)]) == n), forall(r, lambda j: len(new[name_of("s", j)]) == n)])
    if d != 1:
        site = ns[isite]
        check("C03: the site moves by the step", forall(dims(d), lambda k: site[k] == sites[isite, k] + draw(k)[3]))
        check("C05: the other sites stay", forall2(n, dims(d), lambda k, c: implies(k != isite, ns[k, c] == sites[k, c])))
        check("C05: values stay with their sites", [
            forall2(m, n, lambda i, k: new[name_of("p", i)][k] == v(i, k)), forall2(g, n, lambda i, k: new[name_of("g", i)][k] == x(i, k)),
            forall2(q, n, lambda j, k: is_same(new[name_of("d", j)][k], state[name_of("d", j)][k])),
            forall2(r, n, lambda j, k: is_same(new[name_of("s", j)][k], state[name_of("s", j)][k]))])
    check("C03: log prior ratio of the values that depend on the position",
          ratio == total(g, lambda i: graded.density(i, x(i, isite), site) - graded.density(i, x(i, isite), sites[isite])))


def graded_prior(name, key, model):
    p = AnyPrior(name, key, model)
    p.position = np.zeros(2)
    return p


@proof("C03", "C04", "C05", "C06", "C07", under=(V + "perturb_value", V + "_perturb_site", V + "_is_in_domain"))
def move_1d():
    one_move(1)


@proof("C03", "C04", "C05", "C06", "C07", under=(V + "perturb_value", V + "_perturb_site", V + "_is_in_domain"))
def move():
    one_move(integer("d", lo=2))


@proof("C03", "C04", "C05", "C06", "C07", "C12", under=(V2 + "perturb_value", V2 + "_is_in_domain", V2 + "_add_kdtree_to_ps_state"))
def move_in_the_plane():
    one_move("plane")


@proof("C03", "C04", "C05", "C06", "C07", "C12", under=(V2 + "perturb_value", V2 + "_is_in_domain", V2 + "_add_kdtree_to_ps_state"))
def move_in_a_polygon():
    one_move("polygon")


@contract(V2 + "sample_site", props=("C06",), inline_at_calls=True)
class site_of_the_polygon:
    def args():
        return [cells("polygon", nat("scalars"), nat("discs"), nat("spaces"), Model("m"), 1, 2)]

    def result(self):
        return array("site", 2)

    def ensures(r, self):
        return [("C06: the site lies in the polygon", self.polygon.contains(shapely.geometry.Point(r)))]


@proof("C04", "C06", "C12", under=(V2 + "sample_discretization", V2 + "_initialize", V2 + "sample_site", V2 + "_add_kdtree_to_ps_state"))
def initial_states_in_the_plane():
    initial_states("plane")


@proof("C04", "C06", "C12", under=(V2 + "sample_discretization", V2 + "_initialize", V2 + "_add_kdtree_to_ps_state"), using=V2 + "sample_site")
def initial_states_in_a_polygon():
    initial_states("polygon")


@proof("C04", "C05", "C06", under=(V + "sample_discretization", V + "sample_site", V + "_initialize", V + "initialize", D + "sample"))
def initial_states_1d():
    initial_states(1)


@proof("C04", "C05", "C06", under=(V + "sample_discretization", V + "sample_site", V + "_initialize", V + "initialize", D + "sample"))
def initial_states_nd():
    initial_states(integer("d", lo=2))


def initial_states(d):
    m, q, r = nat("scalars"), nat("discs"), nat("spaces")
    model = Model("m")
    for trans in (True, False):
        lo, hi = integer("lo", lo=1, size=False), integer("hi", size=False)
        assume(lo <= hi)
        disc = cells(d, m, q, r, model, lo, hi)
        fix = integer("fix", lo=1)
        if trans:
            f = real("init_range")
            assume(f >= 0, f <= 1)
            disc._n_dimensions_init_range = f
        else:
            disc = fixed(disc, d, fix, m, q, r, model)
        for how in (0, 1, 2, 3):
            if how == 0:
                states = [disc.sample_discretization()]
            elif how == 1:
                states = [disc.sample()]
            elif how == 2:
                states = [disc.initialize()]
            else:
                c = integer("cells", lo=1)
                states = disc.initialize(np.empty(c))
                check("one state per position", len(states) == c)
            for s in states:
                n = s.n_dimensions
                cover("made")
                check("C04: number of dimensions", both(lo <= n, n <= hi) if trans else n == fix)
                sites = s["discretization"]
                check("C04: one site per cell", len(sites) == n)
                if d == 1:
                    check("C05: the sites are in order", forall2(n, n, lambda i, j: implies(i < j, sites[i] <= sites[j])))
                    check("C06: the sites lie in the domain", forall(n, lambda i: both(disc.vmin <= sites[i], sites[i] <= disc.vmax)))
                elif d == "polygon":
                    check("C06: the sites lie in the domain", forall(n, lambda i: within(disc, d, sites[i])))
                else:
                    check("C06: the sites lie in the domain", forall2(n, dims(d), lambda i, k: both(disc.vmin[k] <= sites[i, k], sites[i, k] <= disc.vmax[k])))
                tree_of_own_sites(disc, d, s)
                if how > 0:
                    check("C04: every parameter has one value per site", [
                        forall(m, lambda i: len(s[name_of("p", i)]) == n), forall(q, lambda j: len(s[name_of("d", j)]) == n),
                        forall(r, lambda j: len(s[name_of("s", j)]) == n)])


def fixed(disc, d, n, m, q, r, model):
    params = any_parameters(m, q, r, model)
    if d == "polygon":
        return Voronoi2D("x", None, None, disc.polygon, disc.perturb_std, n, parameters=params, compute_kdtree=disc.compute_kdtree)
    if d == "plane":
        return Voronoi2D("x", disc.vmin, disc.vmax, None, disc.perturb_std, n, parameters=params, compute_kdtree=disc.compute_kdtree)
    if d == 1:
        return Voronoi1D("x", disc.vmin, disc.vmax, disc.perturb_std, n, parameters=params)
    return Voronoi("x", d, disc.vmin, disc.vmax, disc.perturb_std, n, parameters=params)
