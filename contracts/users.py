"""user functions and their arguments; forward failures; targets added later"""
from verif import *
import random
import numpy as np
from bayesbay._utils import _preprocess_func
from bayesbay._state import State, ParameterSpaceState, DataNoiseState
from bayesbay.exceptions import UserFunctionException, ForwardException
from bayesbay.likelihood import Target, LogLikelihood
from bayesbay.perturbations._data_noise import NoisePerturbation
from bayesbay import BayesianInversion

U = "bayesbay._utils."
T = "bayesbay.likelihood._target.Target."
L = "bayesbay.likelihood._log_likelihood.LogLikelihood."


class World:
    pass


WORLD = World()


class Result:
    pass


class Problem(Exception):
    pass


def recorder(*args, **kwargs):
    WORLD.calls += 1
    WORLD.args, WORLD.kwargs = args, kwargs
    if WORLD.fails:
        raise Problem("quota of disk 17 exceeded")
    WORLD.result = Result()
    return WORLD.result


def called_with(given, extra, keywords, own):
    """the user function `given`, called by the library with arguments own"""
    WORLD.calls = 0
    f = _preprocess_func(given)
    check("not called by the library yet", WORLD.calls == 0)
    for again in (1, 2):
        try:
            r = f(*own)
        except UserFunctionException as e:
            cover("failed")
            check("only a failing function is reported as failing", WORLD.fails)
            check("the message is kept", "quota of disk 17 exceeded" in str(e))
        else:
            cover("returned")
            check("a failing function is reported", neg(WORLD.fails))
            check("its result is returned unchanged", is_same(r, WORLD.result))
        check("called once", WORLD.calls == again)
        check("the library's arguments come first", forall(len(own), lambda i: is_same(WORLD.args[i], own[i])))
        check("then the given ones", [len(WORLD.args) == len(own) + len(extra), forall(len(extra), lambda i: WORLD.args[len(own) + i] == extra[i])])
        check("and exactly the given keywords", [len(WORLD.kwargs) == len(keywords), [k in WORLD.kwargs and WORLD.kwargs[k] == keywords[k] for k in keywords]])


@proof("C23", under=(U + "_preprocess_func", U + "_FunctionWrapper.__call__", U + "_FunctionWrapper.__init__"))
def user_functions():
    n = integer("positional", lo=1)
    v = ufi("v", 1)
    WORLD.fails = boolean("fails")
    args = [v(i) for i in range(n)]
    kwargs = {"a": real("a"), "b": real("b")}
    for own in ([Result()], [Result(), Result()]):
        called_with(recorder, [], {}, own)
        called_with((recorder,), [], {}, own)
        called_with([recorder], [], {}, own)
        called_with((recorder, args), args, {}, own)
        called_with([recorder, args], args, {}, own)
        called_with((recorder, []), [], {}, own)
        called_with((recorder, kwargs), [], kwargs, own)
        called_with((recorder, args, kwargs), args, kwargs, own)
        called_with((recorder, [], kwargs), [], kwargs, own)
    check("what is not a function with arguments is refused", raises(lambda: _preprocess_func((recorder, 1)), TypeError))
    check("nothing stays nothing", is_same(_preprocess_func(None), None))


class Failing:
    """a forward function that may fail"""

    def __init__(self, j):
        self.j = j
        self.__name__ = "forward"

    def __call__(self, state):
        if pure("fails", "bool", self.j):
            raise Problem("quota of disk 17 exceeded")
        return array_of(WORLD.n, lambda i: pure("forward", "real", self.j, i))


def no_noise(j):
    return Target(name_of("target", j), array_of(WORLD.n, lambda i: pure("dobs", "real", j, i)), real("w"))


@proof("C23", "C12", under=(L + "_get_misfit_and_det", U + "_FunctionWrapper.__call__"))
def forward_failure():
    WORLD.n = integer("n", lo=1)
    m = integer("before", lo=0)
    ll = LogLikelihood([no_noise(j) for j in range(m + 1)], [Failing(j) for j in range(m + 1)])
    assume(forall(m, lambda j: neg(pure("fails", "bool", j))))
    state = State({})
    key = lambda j: f"{name_of("target", j)}.dpred"
    try:
        ll.log_likelihood_ratio(state, State({}))
    except ForwardException as e:
        cover("failed")
        check("C23: only a failing forward function is reported", pure("fails", "bool", m))
        check("C23: the message is kept", "quota of disk 17 exceeded" in str(e))
        check("C23: nothing is cached for it", neg(state.saved_in_cache(key(m))))
        check("C12: predictions that were computed before are kept", forall(m, lambda j: state.saved_in_cache(key(j))))
        check("C12: and they are those of the forward functions", forall2(m, WORLD.n, lambda j, i: state.load_from_cache(key(j))[i] == pure("forward", "real", j, i)))
    else:
        cover("fine")
        check("C23: a failure is reported", neg(pure("fails", "bool", m)))


@proof("C06", "C24", under=(T + "initialize", L + "initialize"))
def initial_noise():
    t = integer("targets", lo=1)
    lo, hi, clo, chi = [ufi(x, 1) for x in ("std_min", "std_max", "correlation_min", "correlation_max")]
    assume(forall(t, lambda j: both(0 <= lo(j), lo(j) <= hi(j), 0 <= clo(j), clo(j) <= chi(j), chi(j) <= 1)))
    known, correlated = lambda j: pure("known", "bool", j), lambda j: pure("correlated", "bool", j)
    targets = [Target(name_of("target", j), np.zeros(1), 1 if known(j) else None, correlated(j), lo(j), hi(j), 0.1, clo(j), chi(j), 0.1) for j in range(t)]
    ll = LogLikelihood(targets, [recorder for j in range(t)])
    n = integer("n", lo=1)
    space = ParameterSpaceState(n, {"value": array("value", n)})
    state = State({"space": space})
    ll.initialize(state)
    cover("initialized")
    name = lambda j: name_of("target", j)
    check("C24: noise for every target of unknown noise and for no other", forall(t, lambda j: iff(known(j), name(j) not in state.param_values)))
    check("C06: standard deviations in their range", forall(t, lambda j: True if known(j) else both(lo(j) <= state[name(j)].std, state[name(j)].std <= hi(j))))
    check("C06: correlations in their range, where there are any", forall(t, lambda j: True if known(j) else (
        both(clo(j) <= state[name(j)].correlation, state[name(j)].correlation <= chi(j)) if correlated(j) else is_same(state[name(j)].correlation, None))))
    check("C24: parameters are left alone", [is_same(state["space"], space), len(space["value"]) == n])


class AnyParameterization:
    def __init__(self, k):
        w = ufi("weight", 1)
        self.perturbation_funcs = [Custom(j) for j in range(k)]
        self.perturbation_weights = [w(j) for j in range(k)]
        self.parameter_spaces = {}

    def initialize(self):
        n = integer("n", lo=1)
        return State({"space": ParameterSpaceState(n, {"value": array("value", n)})})


class Custom:
    def __init__(self, j):
        self.__name__ = f"Custom({name_of("perturbation", j)})"
        self.j = j


class Elsewhere:
    """what a chain's likelihood is after a parallel run: another object"""


def some_target(j, known, correlated):
    return Target(name_of("target", j), array_of(WORLD.n, lambda i: pure("dobs", "real", j, i)), 1 if known else None, correlated)


def added(before, after, known):
    """targets `after` are added to a likelihood of targets `before`"""
    correlated = lambda j: pure("correlated", "bool", j)
    c, k = integer("chains", lo=1), integer("perturbations", lo=0)
    a, b = len(before), len(after)
    targets = before + after
    forward = [Failing(j) for j in range(a + b)]
    assume(forall(a + b, lambda j: neg(pure("fails", "bool", j))))
    ll = LogLikelihood(targets[:a], forward[:a])
    par = AnyParameterization(k)
    inv = BayesianInversion(par, ll, c)
    for i in range(c):
        inv.chains[i].log_likelihood = Elsewhere()
    ll.add_targets(targets[a:], forward[a:])
    cover("added")
    name = lambda j: name_of("target", j)
    check("C24: the likelihood has all targets", [len(ll.targets) == a + b, forall(a + b, lambda j: is_same(ll.targets[j], targets[j]))])
    check("C24: with their forward functions", [len(ll.fwd_functions) == a + b, forall(a + b, lambda j: is_same(ll.fwd_functions[j].func, forward[j]))])
    check("C24: every chain uses this likelihood", forall(c, lambda i: is_same(inv.chains[i].log_likelihood, ll)))
    check("C24: every chain's state has noise for every added target of unknown noise, and for no other",
          forall2(c, b, lambda i, j: iff(known(a + j), name(a + j) not in inv.chains[i].current_state.param_values)))
    check("C24: and keeps the noise of the earlier targets", forall2(c, a, lambda i, j: iff(known(j), name(j) not in inv.chains[i].current_state.param_values)))
    check("C18,C24: all perturbations of the parameterization are offered with their weights",
          forall(k, lambda j: both(is_same(inv.perturbation_funcs[j], par.perturbation_funcs[j]), inv.perturbation_weights[j] == par.perturbation_weights[j])))
    check("C18,C24: every chain is offered them", forall(c, lambda i: both(is_same(inv.chains[i].perturbation_funcs, inv.perturbation_funcs), is_same(inv.chains[i].perturbation_weights, inv.perturbation_weights))))
    return inv, k, a + b, targets


def noisy(offered, known, count, parts):
    inv, k, t, targets = offered
    funcs, weights = inv.perturbation_funcs, inv.perturbation_weights
    check("C18,C24: one perturbation of the noise is offered", [len(funcs) == k + 1, len(weights) == k + 1])
    check("C18,C24: a noise perturbation", isinstance(funcs[k], NoisePerturbation))
    check("C18,C24: of positive weight", weights[k] > 0)
    for lo, hi in parts:
        check("C18,C24: of all targets of unknown noise and no other", forall(hi - lo, lambda j: iff(known(lo + j), targets[lo + j] not in funcs[k].targets)))
    check("C18,C24: each once", len(funcs[k].targets) == count)


ADDED = (L + "add_targets", L + "add_targets_observer", L + "_init_perturbation_funcs", L + "_check_duplicate_target_names",
         "bayesbay._bayes_inversion.BayesianInversion.update_log_likelihood_targets", "bayesbay._bayes_inversion.BayesianInversion._init_perturbation_funcs",
         "bayesbay._bayes_inversion.BayesianInversion.__init__", "bayesbay._markov_chain.BaseMarkovChain.update_targets",
         "bayesbay._markov_chain.BaseMarkovChain.set_perturbation_funcs", "bayesbay._markov_chain.MarkovChain.__init__")


def pattern(lo, hi):
    """targets lo .. hi-1, of known or unknown noise"""
    return [some_target(j, pure("known", "bool", j), pure("correlated", "bool", j)) for j in range(lo, hi)]


def unknown(j):
    return some_target(j, False, True)


def unknown_from(first, j):
    return ite(pure("known", "bool", first + j), 0, 1)


def known_noise(lo, hi):
    return [some_target(j, True, False) for j in range(lo, hi)]


@proof("C18", "C24", under=ADDED)
def targets_added_to_noisy_ones():
    WORLD.n = integer("n", lo=1)
    a, b = integer("before", lo=2), integer("added", lo=1)
    known = lambda j: both(j >= 2, pure("known", "bool", j))
    noisy(added([unknown(0), unknown(1)] + pattern(2, a), pattern(a, a + b), known), known, 2 + total(a - 2, lambda j: unknown_from(2, j)) + total(b, lambda j: unknown_from(a, j)), [(0, 1), (1, 2), (2, a), (a, a + b)])


@proof("C18", "C24", under=ADDED)
def noisy_targets_added():
    WORLD.n = integer("n", lo=1)
    a, b = integer("before", lo=1), integer("added", lo=2)
    known = lambda j: either(j < a, both(j >= a + 2, pure("known", "bool", j)))
    noisy(added(known_noise(0, a), [unknown(a), unknown(a + 1)] + pattern(a + 2, a + b), known), known, 2 + total(b - 2, lambda j: unknown_from(a + 2, j)), [(0, a), (a, a + 1), (a + 1, a + 2), (a + 2, a + b)])


@proof("C18", "C24", under=ADDED)
def noisy_target_added():
    WORLD.n = integer("n", lo=1)
    a, b = integer("before", lo=1), integer("added", lo=1)
    known = lambda j: j != a
    noisy(added(known_noise(0, a), [unknown(a)] + known_noise(a + 1, a + b), known), known, 1, [(0, a), (a, a + 1), (a + 1, a + b)])


@proof("C18", "C24", under=ADDED)
def quiet_targets_added():
    WORLD.n = integer("n", lo=1)
    a, b = integer("before", lo=1), integer("added", lo=1)
    inv, k, t, targets = added(known_noise(0, a), known_noise(a, a + b), lambda j: True)
    check("C18,C24: no perturbation of the noise is offered", [len(inv.perturbation_funcs) == k, len(inv.perturbation_weights) == k])


@proof("C24", under=ADDED)
def duplicate_target():
    WORLD.n = integer("n", lo=1)
    a, b = integer("before", lo=1), integer("added", lo=1)
    ll = LogLikelihood(known_noise(0, a), [recorder for j in range(a)])
    p = integer("p", lo=0, hi=a - 1)
    check("C24: a name in use is refused", raises(lambda: ll.add_targets([some_target(p, True, False)], [recorder]), ValueError))
