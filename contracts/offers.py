"""which perturbations are offered, with which weights, and which instance of a space is perturbed"""
from verif import *
import random
import numpy as np
from contracts.stubs import *
from bayesbay.discretization import Voronoi1D, Voronoi2D
from bayesbay.parameterization import Parameterization
from bayesbay.perturbations._birth_death import BirthPerturbation, DeathPerturbation
from bayesbay.perturbations._param_values import ParamPerturbation
from bayesbay.perturbations._param_space import ParamSpacePerturbation

PS = "bayesbay.parameterization._parameter_space.ParameterSpace."
VO = "bayesbay.discretization._voronoi.Voronoi."


class Offered:
    def __init__(self, j, x):
        self.j = j
        self.x = x


class Offering(ParameterSpace):
    """an arbitrary nested space offering c perturbations of arbitrary weights"""

    def __init__(self, j, c, weight):
        self._name = name_of("s", j)
        self._parameters = dict()
        self._perturbation_funcs = [Offered(j, x) for x in range(c)]
        self._perturbation_weights = [weight(j, x) for x in range(c)]


def count(fs, what):
    return sum([1 if what(f) else 0 for f in fs])


def weight_of(own, what):
    return sum([w for f, w in zip(own.perturbation_funcs, own.perturbation_weights) if what(f)])


def is_site(f):
    return isinstance(f, ParamPerturbation) and any([hasattr(p, "trans_d") for p in f.parameters])


def is_value(f):
    return isinstance(f, ParamPerturbation) and not any([hasattr(p, "trans_d") for p in f.parameters])


def offers(ps, name, trans, m, r, c, weight, params, site):
    fs, ws = ps.perturbation_funcs, ps.perturbation_weights
    check("as many weights as perturbations", len(fs) == len(ws))
    check("every perturbation of every nested space is offered, and one of its own", len(fs) == r * c + 1)
    check("with its own weight", forall2(r, c, lambda j, x: both(fs[j * c + x].j == j, fs[j * c + x].x == x, ws[j * c + x] == weight(j, x))))
    own = fs[r * c]
    check("its own perturbation concerns it", both(isinstance(own, ParamSpacePerturbation), own.param_space_name == name))
    birth, death = lambda f: isinstance(f, BirthPerturbation), lambda f: isinstance(f, DeathPerturbation)
    check("births and deaths exactly if the number of dimensions varies", [count(own.perturbation_funcs, birth) == (1 if trans else 0), count(own.perturbation_funcs, death) == (1 if trans else 0)])
    check("births and deaths of equal positive weight", weight_of(own, birth) == weight_of(own, death))
    if trans:
        check("births of this space", [is_same(f.param_space, ps) for f in own.perturbation_funcs if birth(f) or death(f)])
        check("positive weights", weight_of(own, birth) > 0)
    check("site perturbation exactly for discretizations", count(own.perturbation_funcs, is_site) == (1 if site else 0))
    if m > 0:
        cover("scalars")
        check("value perturbation of all scalar parameters", count(own.perturbation_funcs, is_value) == 1)
        f = [f for f in own.perturbation_funcs if is_value(f)][0]
        check("and of these only", both(f.param_space_name == name, len(f.parameters) == m, forall(m, lambda i: is_same(f.parameters[i], params[i]))))
        check("positive value weight", weight_of(own, is_value) > 0)
    else:
        cover("no scalars")
        check("no value perturbation without scalar parameters", count(own.perturbation_funcs, is_value) == 0)
    if site:
        check("the sites of this space", [is_same(p, ps) for f in own.perturbation_funcs if is_site(f) for p in f.parameters])
        check("positive site weight", weight_of(own, is_site) > 0)
    check("nothing else", len(own.perturbation_funcs) == (2 if trans else 0) + (1 if m > 0 else 0) + (1 if site else 0))
    check("the weight of its own perturbations is their sum", ws[r * c] == sum(own.perturbation_weights))


def setting():
    m, r, c = nat("scalars"), nat("nested"), integer("offered", lo=1)
    weight = ufi("weight", 2)
    model = Model("m")
    return m, r, c, weight, [AnyPrior(name_of("p", i), i, model) for i in range(m)], [Offering(j, c, weight) for j in range(r)]


@proof("C18", under=PS + "_init_perturbation_funcs")
def offers_of_a_space():
    m, r, c, weight, params, nested = setting()
    for trans in (True, False):
        ps = ParameterSpace("ps", None, 1, integer("hi", lo=1, size=False), 0.3, params + nested) if trans else ParameterSpace("ps", integer("fix", lo=1), parameters=params + nested)
        offers(ps, "ps", trans, m, r, c, weight, params, False)


@proof("C18", under=VO + "_init_perturbation_funcs")
def offers_of_a_discretization():
    m, r, c, weight, params, nested = setting()
    for trans in (True, False):
        n = None if trans else integer("fix", lo=1)
        vor = Voronoi1D("ps", real("lo"), real("hi"), 1, n_dimensions=n, n_dimensions_min=1, n_dimensions_max=integer("max", lo=1, size=False), parameters=params + nested)
        offers(vor, "ps", trans, m, r, c, weight, params, True)
