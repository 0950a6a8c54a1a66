"""C19 (with C09, C21): what a chain saves of its current state, and how combined perturbations are counted"""
from verif import *
import numpy as np
from bayesbay._markov_chain import BaseMarkovChain, MarkovChain
from bayesbay._state import State, ParameterSpaceState, DataNoiseState

M = "bayesbay._markov_chain.BaseMarkovChain."


class Chain(MarkovChain):
    """a chain of which only the current state is given"""

    def __init__(self, state, parameterization, save_dpred):
        if parameterization is not None:
            self.parameterization = parameterization
        BaseMarkovChain.__init__(self, 0, state, [], [], None, 1, save_dpred)


class Space:
    def __init__(self, trans_d):
        self.trans_d = trans_d


class Spaces:
    def __init__(self, spaces):
        self.parameter_spaces = spaces


def earlier(chain, keys):
    """arbitrary numbers of samples saved before"""
    for k in keys:
        chain.saved_states[k] = reals("earlier " + k, nat("saved"))
    return {k: len(chain.saved_states[k]) for k in keys}, {k: chain.saved_states[k].copy() for k in keys}


def grown(chain, keys, counts, before):
    """one more sample under each of the keys, after those saved earlier"""
    for k in keys:
        check("C09,C19: one more sample", len(chain.saved_states[k]) == counts[k] + 1)
        check("C19: the earlier samples are kept in order", forall(counts[k], lambda i: chain.saved_states[k][i] == before[k][i]))


def saved(chain, key):
    return chain.saved_states[key][-1]


@proof("C09", "C19", under=(M + "_save_state", "bayesbay._state.State._vars", "bayesbay._state.State.items"))
def what_is_saved():
    n, m, d = integer("n", lo=1), integer("m", lo=1), integer("data", lo=1)
    x, y, s, p = ufi("x", 1), ufi("y", 1), ufi("site", 1), ufi("p", 1)
    std, corr = real("std"), real("corr")
    for moving in (True, False):
        for fixed in (False, True):
            a = ParameterSpaceState(n, {"discretization": array_of(n, lambda i: s(i)), "x": array_of(n, lambda i: x(i))})
            b = ParameterSpaceState(m, {"y": array_of(m, lambda i: y(i))})
            state = State({"a": a, "b": b, "t": DataNoiseState(std, corr)})
            state.save_to_cache("t.dpred", array_of(d, lambda i: p(i)))
            state.save_to_cache("kdtree", real("tree"))
            for keep in (True, False):
                chain = Chain(state, Spaces({"a": Space(moving), "b": Space(fixed)}), keep)
                keys = ["a.discretization", "a.x", "b.y", "t.std", "t.correlation"]
                keys += (["a.n_dimensions"] if moving else []) + (["b.n_dimensions"] if fixed else []) + (["t.dpred"] if keep else [])
                counts, before = earlier(chain, keys)
                chain._save_state()
                cover("saved")
                check("C19: every variable of the state and no other", [len(chain.saved_states) == len(keys), [k in chain.saved_states for k in keys]])
                grown(chain, keys, counts, before)
                check("C19: the current values", both(saved(chain, "t.std") == std, saved(chain, "t.correlation") == corr))
                check("C19: the current arrays", [len(saved(chain, "a.x")) == n, len(saved(chain, "b.y")) == m,
                      forall(n, lambda i: both(saved(chain, "a.x")[i] == x(i), saved(chain, "a.discretization")[i] == s(i))),
                      forall(m, lambda i: saved(chain, "b.y")[i] == y(i))])
                if moving:
                    check("C19: the number of dimensions where it varies", saved(chain, "a.n_dimensions") == n)
                if keep:
                    check("C19: the predicted data", [len(saved(chain, "t.dpred")) == d, forall(d, lambda i: saved(chain, "t.dpred")[i] == p(i))])


@proof("C09", "C19", under=(M + "_save_state", M + "_init_saved_states"))
def first_sample():
    n = integer("n", lo=1)
    x = ufi("x", 1)
    state = State({"a": ParameterSpaceState(n, {"x": array_of(n, lambda i: x(i))})})
    chain = Chain(state, Spaces({"a": Space(True)}), True)
    check("nothing is saved at first", len(chain.saved_states) == 0)
    chain._save_state()
    check("every variable once", [len(chain.saved_states) == 2, len(chain.saved_states["a.x"]) == 1, len(chain.saved_states["a.n_dimensions"]) == 1])
    check("the current values", [saved(chain, "a.n_dimensions") == n, forall(n, lambda i: saved(chain, "a.x")[i] == x(i))])
    cover("saved")


@proof("C09", "C19", under=(M + "_save_state", M + "_init_saved_states"))
def states_of_other_kinds():
    k = nat("keys")
    v = ufi("value", 1)
    state = dict()
    for q in range(k):
        state[name_of("key", q)] = v(q)
    chain = Chain(state, None, True)
    chain._save_state()
    chain._save_state()
    check("every entry of a dictionary", len(chain.saved_states) == k)
    for q in range(k):
        l = chain.saved_states[name_of("key", q)]
        check("in the order of saving", [len(l) == 2, l[0] == v(q), l[1] == v(q)])
    one, two = array("one", 3), array("two", 3)
    chain = Chain(one, None, True)
    chain._save_state()
    chain.current_state = two
    chain._save_state()
    check("other states as they are", [len(chain.saved_states) == 2, forall(3, lambda i: both(chain.saved_states[0][i] == one[i], chain.saved_states[1][i] == two[i]))])
    cover("saved")


class Combined:
    type = "ParamSpacePerturbation(a)"

    def __init__(self, parts):
        self.parts = parts


@proof("C21", under=M + "_save_statistics")
def sub_types():
    k = integer("types", lo=1)
    share, tried, taken = ufi("share", 1), ufi("tried", 1), ufi("taken", 1)
    total_, acc = integer("iterations", lo=0), integer("accepted", lo=0)
    for seen in (True, False):
        for accepted in (True, False):
            chain = Chain(State({}), None, False)
            chain.perturbation_types = ["ParamSpacePerturbation(a)", "other"]
            st = chain.statistics
            st["n_proposed_models_total"], st["n_accepted_models_total"] = total_, acc
            name = "ParamSpacePerturbation(a)"
            if seen:
                for j in range(k):
                    st["n_proposed_models"][name][name_of("type", j)] = tried(j)
                    st["n_accepted_models"][name][name_of("type", j)] = taken(j)
            new = State({})
            stats = dict()
            for j in range(k):
                stats[name_of("type", j)] = share(j)
            new.save_to_cache("perturb_stats", stats)
            chain._save_statistics(0, accepted, new)
            cover("counted")
            one = 1 if accepted else 0
            check("one proposal in total", both(st["n_proposed_models_total"] == total_ + 1, st["n_accepted_models_total"] == acc + one))
            was, had = (tried, taken) if seen else ((lambda j: 0), (lambda j: 0))
            check("every kind of move with its share, and no other", [len(st["n_proposed_models"][name]) == k, forall(k, lambda j: both(
                st["n_proposed_models"][name][name_of("type", j)] == was(j) + share(j),
                st["n_accepted_models"][name][name_of("type", j)] == had(j) + one * share(j)))])
            check("nothing under the other type", "other" not in st["n_proposed_models"])
