"""extraction of results"""
from verif import *
import numpy as np
from collections import defaultdict
from bayesbay._bayes_inversion import BaseBayesianInversion
from bayesbay._markov_chain import BaseMarkovChain

B = "bayesbay._bayes_inversion.BaseBayesianInversion."


class Chain(BaseMarkovChain):
    """a chain with arbitrary saved states"""

    def __init__(self, saved):
        self._saved_states = saved


class Saved:
    """something that was saved"""


class World:
    pass


W = World()


KEYS = ("a", "b")


def saved_by(i, q, n):
    """what chain i saved for key q"""
    return [W.v(i, q, x) for x in range(n)]


def dictionaries(c, optional):
    """chains that saved a and, all of them or only some, b"""
    W.v, W.n = ufi("saved", 3), ufn("n_saved", 2)
    assume(forall2(c, 2, lambda i, q: W.n(i, q) >= 0))
    out = []
    for i in range(c):
        saved = defaultdict(list)
        saved["a"] = saved_by(i, 0, W.n(i, 0))
        if not optional or pure("has", "bool", i):
            saved["b"] = saved_by(i, 1, W.n(i, 1))
        out.append(Chain(saved))
    return out


def concatenated(c, q):
    out = []
    for i in range(c):
        out.extend(saved_by(i, q, W.n(i, q)))
    return out


def result(chains, keys, concatenate):
    before = snapshot(chains)
    r = BaseBayesianInversion.get_results_from_chains(chains, keys, concatenate)
    check("the chains are left as they were", unchanged(before))
    return r


def of_dictionaries(keys, wanted):
    c = integer("chains", lo=1)
    chains = dictionaries(c, False)
    r = result(chains, keys, False)
    cover("extracted")
    check("the requested keys and no other", [len(r) == len(wanted), [KEYS[q] in r for q in wanted]])
    for q in wanted:
        check("one list per chain", len(r[KEYS[q]]) == c)
        check("in the order of the chains", forall(c, lambda i: is_same(r[KEYS[q]][i], chains[i].saved_states[KEYS[q]])))
    r = result(chains, keys, True)
    check("the requested keys and no other", [len(r) == len(wanted), [KEYS[q] in r for q in wanted]])
    for q in wanted:
        check("all values in the order of chains and saving", r[KEYS[q]] == concatenated(c, q))
        check("in a list of its own", forall(c, lambda i: neg(is_same(r[KEYS[q]], chains[i].saved_states[KEYS[q]]))))


E = B + "get_results_from_chains"


@proof("C19", under=E)
def one_key():
    of_dictionaries("a", [0])


@proof("C19", under=E)
def a_list_of_keys():
    of_dictionaries(["b"], [1])


@proof("C19", under=E)
def keys_in_any_order():
    of_dictionaries(["b", "a"], [0, 1])


@proof("C19", under=E)
def keys_nobody_saved():
    of_dictionaries(["b", "nobody saved this"], [1])


@proof("C19", under=E)
def all_keys():
    of_dictionaries(None, [0, 1])


@proof("C19", under=(E, B + "get_results"))
def arbitrary_objects():
    c = integer("chains", lo=1)
    W.v, W.n = ufi("saved", 3), ufn("n_saved", 2)
    assume(forall(c, lambda i: W.n(i, 0) >= 0))
    chains = [Chain(saved_by(i, 0, W.n(i, 0))) for i in range(c)]
    for keys in (None, "a"):
        r = result(chains, keys, False)
        check("one list per chain", len(r) == c)
        check("in the order of the chains", forall(c, lambda i: is_same(r[i], chains[i].saved_states)))
        r = result(chains, keys, True)
        check("all objects in the order of chains and saving", r == concatenated(c, 0))
        check("in a list of its own", forall(c, lambda i: neg(is_same(r, chains[i].saved_states))))
    cover("extracted")


@proof("C19", under=E)
def any_keys_of_one_chain():
    k = integer("keys", lo=0)
    W.v, W.n = ufi("saved", 3), ufn("n_saved", 2)
    assume(forall(k, lambda q: W.n(0, q) >= 0))
    saved = defaultdict(list)
    for q in range(k):
        saved[name_of("key", q)] = saved_by(0, q, W.n(0, q))
    chain = Chain(saved)
    for given in (chain, [chain]):
        for concatenate in (True, False):
            r = result(given, None, concatenate)
            check("every key and no other", [len(r) == k, forall(k, lambda q: name_of("key", q) in r)])
            for q in range(k):
                v = r[name_of("key", q)]
                if concatenate:
                    check("its values in the order of saving", v == saved[name_of("key", q)])
                    check("in a list of its own", neg(is_same(v, saved[name_of("key", q)])))
                else:
                    check("its one list", both(len(v) == 1, is_same(v[0], saved[name_of("key", q)])))
    cover("extracted")


@proof("C19", under=E)
def some_keys_of_one_chain():
    k, w = integer("keys", lo=1), integer("wanted", lo=1)
    W.v, W.n = ufi("saved", 3), ufn("n_saved", 2)
    assume(forall(k, lambda q: W.n(0, q) >= 0), w <= k)
    saved = defaultdict(list)
    for q in range(k):
        saved[name_of("key", q)] = saved_by(0, q, W.n(0, q))
    r = result(Chain(saved), [name_of("key", q) for q in range(w)], True)
    check("the requested keys and no other", [len(r) == w, forall(w, lambda q: name_of("key", q) in r)])
    for q in range(w):
        check("its values in the order of saving", r[name_of("key", q)] == saved[name_of("key", q)])
    cover("extracted")


@proof("C19", under=E)
def not_chains():
    check("only chains have results", raises(lambda: BaseBayesianInversion.get_results_from_chains([Saved()], None, True), TypeError))
