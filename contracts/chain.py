"""the Metropolis-Hastings step, iteration counts and saved samples of a chain"""
from verif import *
import random
from bayesbay._markov_chain import BaseMarkovChain
from bayesbay.exceptions import UserFunctionException, ForwardException

M = "bayesbay._markov_chain.BaseMarkovChain."


class Proposal:
    """an arbitrary user perturbation: it may fail, else proposes an arbitrary state with an arbitrary log ratio"""

    def __init__(self, j):
        self.__name__ = f"Custom({name_of("perturbation", j)})"
        self.j = j

    def __call__(self, state):
        check("C08: the perturbation is given the current state", is_same(state, WORLD.state))
        WORLD.last = self.j
        WORLD.attempts += 1
        d = last_draw()
        check("C08: the perturbation is drawn with the weights", both(d[0] == "choices", same_weights(d[1]), d[2] == self.j))
        if boolean("perturbation_fails"):
            raise UserFunctionException(ValueError("user"))
        ratio = -INF if boolean("forbidden") else real("ratio")
        WORLD.ratio = ratio
        WORLD.llr = 0
        WORLD.proposed = Thing(real("content"))
        return WORLD.proposed, ratio


class Thing:
    def __init__(self, content):
        self.content = content


class World:
    pass


WORLD = World()
FAILURES = ("UserFunctionException", "ForwardException")


def same_weights(w):
    return both(len(w) == len(WORLD.weights), forall(len(w), lambda j: w[j] == WORLD.weights[j]))


class AnyLikelihood:
    def log_likelihood_ratio(self, old, new, temperature=1):
        check("C08: no likelihood for a forbidden proposal", WORLD.ratio != -INF)
        check("C08: ratio of the proposal to the current state at the chain's temperature", [is_same(old, WORLD.state), is_same(new, WORLD.proposed), temperature == WORLD.temperature])
        if boolean("forward_fails"):
            raise ForwardException(ValueError("forward"))
        if boolean("likelihood_fails"):
            raise UserFunctionException(ValueError("likelihood"))
        WORLD.llr = real("llr")
        return WORLD.llr


def a_chain():
    k = integer("perturbations", lo=1)
    w = array("weights", k)
    assume(forall(k, lambda j: w[j] > 0))
    WORLD.temperature = real("temperature")
    assume(WORLD.temperature >= 1)
    WORLD.state = Thing(real("start"))
    WORLD.weights = [w[j] for j in range(k)]
    WORLD.attempts = 0
    c = BaseMarkovChain(0, WORLD.state, [Proposal(j) for j in range(k)], WORLD.weights, AnyLikelihood(), WORLD.temperature)
    c.save_current_iteration = boolean("save")
    return c


@proof("C08", "C09", "C21", under=(M + "_next_iteration", M + "_save_statistics", M + "_save_state"))
def one_step():
    c = a_chain()
    start = WORLD.state
    n, acc = integer("iterations", lo=0), integer("accepted", lo=0)
    failed = [integer("failures", lo=0) for name in FAILURES]
    for i in range(2):
        c._statistics["exceptions"][FAILURES[i]] = failed[i]
    st = c.statistics
    st["n_proposed_models_total"], st["n_accepted_models_total"] = n, acc
    tried, taken = ufi("tried", 1), ufi("taken", 1)
    st["n_proposed_models"] = {c.perturbation_types[j]: tried(j) for j in range(len(WORLD.weights))}
    st["n_accepted_models"] = {c.perturbation_types[j]: taken(j) for j in range(len(WORLD.weights))}
    try:
        c._next_iteration()
    except RuntimeError:
        cover("gives up")
        check("C08: gives up after 500 failures", WORLD.attempts == 500)
        check("C08: every failure is counted", st["exceptions"][FAILURES[0]] + st["exceptions"][FAILURES[1]] == failed[0] + failed[1] + 500)
        check("C08: after 500 failures the state is as it was", is_same(c.current_state, start))
        check("C08,C21: after 500 failures the counts are as they were", both(st["n_proposed_models_total"] == n, st["n_accepted_models_total"] == acc))
        check("C09: nothing is saved", len(c.saved_states) == 0)
        return
    kind, lo, hi, u = last_draw()
    check("C08: one uniform draw", both(kind == "uniform", lo == 0, hi == 1))
    check("C08: every failure is counted", st["exceptions"][FAILURES[0]] + st["exceptions"][FAILURES[1]] == failed[0] + failed[1] + WORLD.attempts - 1)
    if WORLD.ratio == -INF:
        cover("forbidden")
        accepted = False
    else:
        accepted = WORLD.ratio + WORLD.llr > log(u)
    if accepted:
        cover("accepted")
        check("C08: an accepted proposal becomes the current state", is_same(c.current_state, WORLD.proposed))
    else:
        cover("rejected")
        check("C08: a rejected or forbidden proposal leaves the current state", is_same(c.current_state, start))
    check("C21: one more proposal", st["n_proposed_models_total"] == n + 1)
    check("C21: one more accepted if it was accepted", st["n_accepted_models_total"] == acc + (1 if accepted else 0))
    one = 1 if accepted else 0
    check("C21: counted for the type that was drawn, and for no other", forall(len(WORLD.weights), lambda j: both(
        st["n_proposed_models"][c.perturbation_types[j]] == tried(j) + ite(j == WORLD.last, 1, 0),
        st["n_accepted_models"][c.perturbation_types[j]] == taken(j) + ite(j == WORLD.last, one, 0))))
    if c.save_current_iteration and c.temperature == 1:
        cover("saved")
        check("C09: the state after the iteration is saved", both(len(c.saved_states) == 1, is_same(c.saved_states[0], c.current_state)))
    else:
        cover("not saved")
        check("C09: nothing is saved", len(c.saved_states) == 0)


@proof("C21", under=(M + "_save_statistics",))
def first_counts_of_a_type():
    c = BaseMarkovChain(0, Thing(real("start")), [Proposal(0), Proposal(1)], [1, 1], AnyLikelihood(), 1)
    i = 0 if boolean("which") else 1
    accepted = boolean("accepted")
    c._save_statistics(i, accepted, Thing(real("new")))
    st, name, other = c.statistics, c.perturbation_types[i], c.perturbation_types[1 - i]
    one = 1 if accepted else 0
    check("totals", both(st["n_proposed_models_total"] == 1, st["n_accepted_models_total"] == one))
    check("the type drawn", both(st["n_proposed_models"][name] == 1, st["n_accepted_models"][name] == one))
    check("no other type", both(other not in st["n_proposed_models"], other not in st["n_accepted_models"]))
    cover("counted")


class Stepping(BaseMarkovChain):
    """a chain whose step does what `one_step` proves of the real one: one more proposal"""

    def _next_iteration(self):
        i = self.statistics["n_proposed_models_total"] + 1
        check("C20: the step comes after the begin callback", implies(WORLD.callbacks, WORLD.phase == 1))
        WORLD.phase = 2
        burn, every = WORLD.burnin, WORLD.every
        check("C09: saved exactly after burn-in, every so many iterations", iff(self.save_current_iteration, both(i > burn, (i - burn) % every == 0)))
        self._statistics["n_proposed_models_total"] += 1
        if boolean("taken"):
            self._statistics["n_accepted_models_total"] += 1

    def print_statistics(self):
        pass


def begin(chain):
    check("C20: called with the chain", is_same(chain, WORLD.chain))
    check("C20: begin comes first", WORLD.phase == 0)
    WORLD.phase = 1
    WORLD.begun += 1
    WORLD.chain._temperature = real("T")


def end(chain):
    check("C20: called with the chain", is_same(chain, WORLD.chain))
    check("C20: end comes last", WORLD.phase == 2)
    WORLD.phase = 0
    WORLD.ended += 1


@proof("C09", "C20", "C21", under=(M + "advance_chain",))
def iterations_of_a_chain():
    c = Stepping(0, Thing(real("start")), [], [], AnyLikelihood(), real("temperature"))
    T0, n, A0 = integer("so_far", lo=0), integer("n", lo=0), integer("accepted", lo=0)
    assume(A0 <= T0)
    c._statistics["n_proposed_models_total"], c._statistics["n_accepted_models_total"] = T0, A0
    WORLD.burnin, WORLD.every = integer("burnin", lo=0), integer("save_every", lo=1)
    WORLD.chain = c
    WORLD.phase, WORLD.begun, WORLD.ended = 0, 0, 0
    for calls in (True, False):
        WORLD.callbacks = calls
        done = c.statistics["n_proposed_models_total"]
        verbose = boolean("verbose")
        r = c.advance_chain(n, WORLD.burnin, WORLD.every, verbose, integer("print_every", lo=1), begin if calls else None, end if calls else None)
        cover("advanced")
        check("C20: the chain is returned", is_same(r, c))
        check("C09: exactly n more iterations", c.statistics["n_proposed_models_total"] == done + n)
        check("C21: accepted at most as many as proposed", c.statistics["n_accepted_models_total"] <= c.statistics["n_proposed_models_total"])
        if calls:
            check("C20: one begin and one end per iteration", both(WORLD.begun == n, WORLD.ended == n))
