"""C18, C19, C20: what an inversion hands to its chains and back"""
from verif import *
import numpy as np
from bayesbay._bayes_inversion import BaseBayesianInversion, BayesianInversion
from bayesbay._markov_chain import BaseMarkovChain
from bayesbay.parameterization import Parameterization, ParameterSpace
from bayesbay.likelihood import LogLikelihood
from bayesbay.perturbations._param_space import ParamSpacePerturbation
from bayesbay.perturbations._birth_death import BirthPerturbation, DeathPerturbation
from bayesbay.perturbations._base_perturbation import Perturbation

I = "bayesbay._bayes_inversion.BaseBayesianInversion."
B = "bayesbay._bayes_inversion.BayesianInversion."
Z = "bayesbay.parameterization._parameterization.Parameterization."


class Space:
    def __init__(self, name):
        self.name = name


class Other(Perturbation):
    def __init__(self, j):
        self.j = j

    def perturb(self, state):
        return state, 0

    @property
    def __name__(self):
        return "Other"


class Chain(BaseMarkovChain):
    def __init__(self):
        self.temperature_ = 1


def inversion(chains):
    inv = fresh_object(BaseBayesianInversion)
    if chains is not None:
        inv._chains = chains
    return inv


def others(k):
    return [Other(j) for j in range(k)]


@proof("C18", under=I + "set_perturbation_funcs")
def death_weight():
    a, b, c = nat("a"), nat("b"), nat("c")
    w = ufi("weight", 1)
    space = Space("ps")
    for birth_first in (True, False):
        birth, death = BirthPerturbation(space), DeathPerturbation(space)
        funcs = others(a) + [birth if birth_first else death] + others(b) + [death if birth_first else birth] + others(c)
        n = a + b + c + 2
        at_birth, at_death = (a, a + b + 1) if birth_first else (a + b + 1, a)
        chain = Chain()
        inv = inversion([chain])
        inv.set_perturbation_funcs(funcs, [w(j) for j in range(n)])
        cover("set")
        for holder in (inv, chain):
            fs, ws = holder.perturbation_funcs, holder.perturbation_weights
            check("every perturbation with a weight", both(len(fs) == n, len(ws) == n))
            check("in the order given", [is_same(fs[at_birth], birth), is_same(fs[at_death], death), forall(n, lambda j: is_same(fs[j], funcs[j]))])
            check("the death has the weight of the birth", both(ws[at_birth] == w(at_birth), ws[at_death] == w(at_birth)))
            check("every other weight as given", forall(n, lambda j: implies(j != at_death, ws[j] == w(j))))


@proof("C18", under=I + "set_perturbation_funcs")
def death_weights_of_two_spaces():
    w = [real("w0"), real("w1"), real("w2"), real("w3"), real("w4")]
    s, t = Space("one"), Space("two")
    f = [BirthPerturbation(s), DeathPerturbation(t), Other(0), DeathPerturbation(s), BirthPerturbation(t)]
    inv = inversion(None)
    inv.set_perturbation_funcs(f, w.copy())
    cover("set")
    check("each death has the weight of the birth of its own space", [inv.perturbation_weights[3] == w[0], inv.perturbation_weights[1] == w[4]])
    check("every other weight as given", [inv.perturbation_weights[0] == w[0], inv.perturbation_weights[2] == w[2], inv.perturbation_weights[4] == w[4]])


@proof("C18", under=I + "set_perturbation_funcs")
def unpaired_births_and_deaths():
    s = Space("one")
    birth, death = lambda: BirthPerturbation(s), lambda: DeathPerturbation(s)
    n = nat("others")
    for fs in ([birth()], [death()], [birth(), birth(), death()], [birth(), death(), death()], [birth(), birth()], [death(), death()]):
        check("refused", raises(lambda: inversion(None).set_perturbation_funcs(others(n) + fs), ValueError))
    check("births and deaths of different spaces are no pair", raises(lambda: inversion(None).set_perturbation_funcs([BirthPerturbation(s), DeathPerturbation(Space("two"))]), ValueError))
    check("one weight for each", raises(lambda: inversion(None).set_perturbation_funcs(others(n), [1 for j in range(n + 1)]), AssertionError))


@proof("C18", under=I + "set_perturbation_funcs")
def equal_weights_by_default():
    n = integer("n", lo=1)
    inv = inversion(None)
    inv.set_perturbation_funcs(others(n))
    check("one weight for each", len(inv.perturbation_weights) == n)
    check("all equal and positive", forall(n, lambda j: both(inv.perturbation_weights[j] == inv.perturbation_weights[0], inv.perturbation_weights[j] > 0)))


class Offers:
    """a parameter space offering c perturbations of weights w(k, .)"""

    def __init__(self, k, c, w):
        self.name = name_of("space", k)
        self.parameters = dict()
        self.trans_d = True
        self.perturbation_funcs = [Other(1000 * k + x) for x in range(c)]
        self.perturbation_weights = [w(k, x) for x in range(c)]
        self._repr_args = dict()


@proof("C18", under=Z + "_init_perturbation_funcs")
def offers_of_a_parameterization():
    p, c = integer("spaces", lo=1), nat("offered")
    w = ufi("weight", 2)
    spaces = [Offers(k, c, w) for k in range(p)]
    prm = Parameterization(spaces)
    fs, ws = prm.perturbation_funcs, prm.perturbation_weights
    cover("made")
    check("every perturbation of every space, and no other", both(len(fs) == p * c, len(ws) == p * c))
    check("with its own weight", forall2(p, c, lambda k, x: both(is_same(fs[k * c + x], spaces[k].perturbation_funcs[x]), ws[k * c + x] == w(k, x))))
    one = Parameterization(Offers(0, c, w))
    check("a single space", [len(one.perturbation_funcs) == c, forall(c, lambda x: one.perturbation_weights[x] == w(0, x))])


class AnySampler:
    def __init__(self, out):
        self.out = out
        self.steps = []
        self.parallel_config = None

    def initialize(self, chains):
        self.steps.append("initialize")
        self.chains = chains

    def run(self, n_iterations=None, burnin_iterations=None, save_every=None, verbose=None, print_every=None):
        self.steps.append("run")
        self.config = self.parallel_config
        self.given = [n_iterations, burnin_iterations, save_every, verbose, print_every]
        return self.out


@proof("C09", "C20", under=I + "run")
def a_run():
    n = integer("chains", lo=1)
    chains, out = [Chain() for i in range(n)], [Chain() for i in range(n)]
    inv = inversion(chains)
    sampler = AnySampler(out)
    a, b, c, d, e = integer("n"), integer("burnin"), integer("every"), boolean("verbose"), integer("print")
    inv.run(sampler, a, b, c, d, e)
    cover("run")
    check("the sampler gets the chains, then runs once", [sampler.steps == ["initialize", "run"], is_same(sampler.chains, chains)])
    check("with the arguments given", sampler.given == [a, b, c, d, e])
    check("a job per chain unless told otherwise", sampler.config["n_jobs"] == n)
    check("the chains are those the sampler returns", is_same(inv.chains, out))
    sampler = AnySampler(chains)
    inv.run(sampler, n_iterations=a, burnin_iterations=b, save_every=c, verbose=d, print_every=e, parallel_config={"n_jobs": 1, "verbose": 3})
    check("again from where they were", [is_same(sampler.chains, out), sampler.given == [a, b, c, d, e], is_same(inv.chains, chains)])
    check("the parallel configuration given wins", [sampler.config["n_jobs"] == 1, sampler.config["verbose"] == 3])


class Saved(BaseMarkovChain):
    def __init__(self, saved):
        self._saved_states = saved


@proof("C19", under=I + "get_results")
def results_of_an_inversion():
    n, m = nat("n"), nat("m")
    v = ufi("v", 2)
    inv = inversion([Saved({"a": [v(0, i) for i in range(n)], "b": [real("b")]}), Saved({"a": [v(1, i) for i in range(m)], "b": [real("b")]})])
    r = inv.get_results("a")
    cover("asked")
    check("concatenated by default, and only what was asked for", [len(r) == 1, len(r["a"]) == n + m, forall(n, lambda i: r["a"][i] == v(0, i)), forall(m, lambda i: r["a"][n + i] == v(1, i))])
    r = inv.get_results(["a"], concatenate_chains=False)
    check("one list per chain otherwise", [len(r) == 1, len(r["a"]) == 2, len(r["a"][0]) == n, len(r["a"][1]) == m])
    check("everything by default", len(inv.get_results()) == 2)


@proof("C19", under=I + "chains")
def chains_replaced():
    n = nat("n")
    inv = inversion([Chain()])
    new = [Chain() for i in range(n)]
    inv.chains = new
    check("replaced and counted", both(is_same(inv.chains, new), inv.n_chains == n))

    def wrong():
        inv.chains = [1]

    def neither():
        inv.chains = Chain()
    check("nothing but lists of chains", both(raises(wrong, TypeError), raises(neither, TypeError)))


class Start:
    def __init__(self, i):
        self.i = i


@proof("C18", "C10", under=I + "__init__")
def chains_of_a_base_inversion():
    c, n = integer("chains", lo=1), integer("n", lo=1)
    starts, fs = [Start(i) for i in range(c)], others(n)
    w = ufi("weight", 1)
    f = lambda s: pure("log_likelihood", "real", s.i)
    g = lambda a, b: pure("log_likelihood_ratio", "real", a.i, b.i)
    t = real("T")
    assume(t > 0)
    a, b = Start(-1), Start(-2)
    for given in (None, [w(j) for j in range(n)]):
        for inv, expected in ((BaseBayesianInversion(starts, fs, given, None, f, c), (f(b) - f(a)) / t),
                              (BaseBayesianInversion(starts, fs, given, g, None, c), g(a, b) / t),
                              (BaseBayesianInversion(starts, fs, given, LogLikelihood(log_like_ratio_func=g), n_chains=c), g(a, b) / t)):
            chains = inv.chains
            cover("made")
            check("C18: as many chains as asked for", len(chains) == c)
            check("C18: every chain from its own start, untempered", forall(c, lambda i: both(is_same(chains[i].current_state, starts[i]), chains[i].temperature == 1)))
            check("C18: every chain has every perturbation", forall(c, lambda i: len(chains[i].perturbation_funcs) == n))
            check("C18: the perturbations given", forall2(c, n, lambda i, j: is_same(chains[i].perturbation_funcs[j], fs[j])))
            check("C18: the weights given", forall2(c, n, lambda i, j: chains[i].perturbation_weights[j] == (1 if given is None else w(j))))
            check("C10: the likelihood given", chains[0].log_likelihood.log_likelihood_ratio(a, b, t) == expected)
            check("C10: the same for every chain", forall(c, lambda i: is_same(chains[i].log_likelihood, chains[0].log_likelihood)))
    check("C18: one start for every chain", raises(lambda: BaseBayesianInversion(starts, fs, None, None, f, c + 1), AssertionError))


@proof("C18", under=("bayesbay.likelihood._log_likelihood.LogLikelihood._init_perturbation_funcs",))
def nothing_to_perturb_in_a_function():
    f = lambda s: pure("log_likelihood", "real", s.i)
    ll = LogLikelihood(log_like_func=f)
    check("a likelihood given as a function offers no perturbation", [len(ll.perturbation_funcs) == 0, len(ll.perturbation_weights) == 0])


@proof("C18", under=("bayesbay.perturbations._param_space.ParamSpacePerturbation.perturbation_funcs", "bayesbay.perturbations._param_space.ParamSpacePerturbation.perturbation_weights"))
def perturbations_replaced():
    n, m = integer("n", lo=1), integer("m", lo=1)
    w, v = ufi("w", 1), ufi("v", 1)
    p = ParamSpacePerturbation("s", others(n), [w(j) for j in range(n)])
    fs, ws = p.perturbation_funcs, p.perturbation_weights
    check("those given", both(len(fs) == n, len(ws) == n, forall(n, lambda j: both(fs[j].j == j, ws[j] == w(j)))))
    new = others(m)
    p.perturbation_funcs = new
    p.perturbation_weights = [v(j) for j in range(m)]
    fs, ws = p.perturbation_funcs, p.perturbation_weights
    check("those set later", both(len(fs) == m, len(ws) == m, forall(m, lambda j: both(is_same(fs[j], new[j]), ws[j] == v(j)))))


@proof("C18", under=(Z + "__init__", Z + "_check_duplicate_param_space_names", Z + "_check_duplicate_param_names"))
def names_of_the_spaces():
    a, b = ParameterSpace("a", n_dimensions=1), ParameterSpace("b", n_dimensions=1)
    check("in the order given", list(Parameterization([a, b]).parameter_spaces) == ["a", "b"])
    check("two spaces of one name are refused", raises(lambda: Parameterization([a, b, ParameterSpace("a", n_dimensions=2)]), ValueError))
