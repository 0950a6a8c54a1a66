"""discretizations of any dimension: newborn parameters and the ratios of births and deaths, by induction on nesting"""
from verif import *
import numpy as np
from contracts.stubs import *

D = "bayesbay.discretization._discretization.Discretization."


class Disc(Discretization):
    """the abstract class with an arbitrary nearest-neighbour function"""

    def _init_perturbation_funcs(self):
        self._perturbation_funcs = []
        self._perturbation_weights = []

    def nearest_neighbour(self, discretization, query_point):
        i = pure("nn", "int", discretization, query_point)
        assume(0 <= i, i < len(discretization))
        return i


def step(model, i, site, new, old):
    """log prior of a newborn value minus its log proposal density"""
    s = model.stdb(i, site)
    return model.density(i, new, site) + log(s) + log(2 * PI) / 2 + (new - old) ** 2 / (2 * s ** 2)


def born(disc, model, m, q, new, old):
    """what a whole discretization born from another one must contribute"""
    sites = new["discretization"]
    nn = lambda k: disc.nearest_neighbour(old["discretization"], sites[k])
    return total(len(sites), lambda k: total(m, lambda i: step(model, i, sites[k], new[name_of("p", i)][k], old[name_of("p", i)][nn(k)]))
                 + total(q, lambda j: model.born(j, new[name_of("d", j)][k].tag, old[name_of("d", j)][nn(k)].tag)))


def sites_of(name, n, d):
    return array(name, n) if d is None else array(name, n, d)


@proof("C02", under=D + "_sample_from_neighbour")
def nested_birth():
    m, q, r = nat("scalars"), nat("discs"), nat("spaces")
    n, c = integer("n", lo=1), integer("c", lo=1)
    model = Model("m")
    for d in (None, integer("d", lo=2)):
        disc = Disc("x", 1 if d is None else d, n_dimensions=n, parameters=any_parameters(m, q, r, model))
        vals = any_values(n, m, q, r, ufi("v", 2), ufi("t", 2), ufi("w", 2))
        vals["discretization"] = sites_of("old_sites", n, d)
        old = ParameterSpaceState(n, vals)
        new = ParameterSpaceState(c, {"discretization": sites_of("new_sites", c, d)})
        before = snapshot(old)
        ratio = disc._sample_from_neighbour(old, new)
        cover("born")
        check("C07: the neighbour is left as it was", unchanged(before))
        check("C04: every parameter gets one value per site", [forall(m, lambda i: len(new[name_of("p", i)]) == c),
              forall(q, lambda j: len(new[name_of("d", j)]) == c), forall(r, lambda j: len(new[name_of("s", j)]) == c)])
        check("log prior minus log proposal density over all newborn values", ratio == born(disc, model, m, q, new, old))


@proof("C02", under=D + "_log_prob_death_ps_state")
def nested_death():
    m, q, r = nat("scalars"), nat("discs"), nat("spaces")
    n, c = integer("n", lo=1), integer("c", lo=1)
    model = Model("m")
    for d in (None, integer("d", lo=2)):
        disc = Disc("x", 1 if d is None else d, n_dimensions=n, parameters=any_parameters(m, q, r, model))
        vals = any_values(n, m, q, r, ufi("v", 2), ufi("t", 2), ufi("w", 2))
        vals["discretization"] = sites_of("near_sites", n, d)
        near = ParameterSpaceState(n, vals)
        vals2 = any_values(c, m, q, r, ufi("v2", 2), ufi("t2", 2), ufi("w2", 2))
        vals2["discretization"] = sites_of("removed_sites", c, d)
        removed = ParameterSpaceState(c, vals2)
        before = snapshot(near, removed)
        ratio = disc._log_prob_death_ps_state(removed, near)
        cover("died")
        check("C07: neither state is changed", unchanged(before))
        check("minus the ratio of the birth from that neighbour", ratio == -born(disc, model, m, q, removed, near))
