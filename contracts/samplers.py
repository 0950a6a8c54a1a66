"""samplers: callbacks, temperatures, swaps, iteration counts"""
from verif import *
import math
import random
import numpy as np
from bayesbay._markov_chain import BaseMarkovChain, MarkovChain
from bayesbay._state import State
from bayesbay.samplers import VanillaSampler, ParallelTempering, SimulatedAnnealing, Sampler

S = "bayesbay.samplers._samplers."
M = "bayesbay._markov_chain.BaseMarkovChain."


class World:
    pass


WORLD = World()


class Plain(BaseMarkovChain):
    """a chain in an arbitrary situation; its run over n iterations is what `iterations_of_a_chain` proves"""

    def __init__(self, id, done):
        self.id = id
        self._statistics = {"n_proposed_models_total": done}
        self._temperature = real("T")
        self._current_state = None


class Logged(Sampler):
    """a sampler whose own actions are recorded"""

    def on_initialize(self, chains):
        WORLD.log.append(("own", chains))

    def on_begin_iteration(self, chain):
        WORLD.log.append(("own", chain))

    def on_end_iteration(self, chain):
        WORLD.log.append(("own", chain))

    def on_end_advance_chain(self):
        WORLD.log.append(("own", self))

    def run(self):
        pass


class Callback:
    def __init__(self, j):
        self.j = j

    def __call__(self, sampler, what=None):
        check("C20: called with the sampler", is_same(sampler, WORLD.sampler))
        WORLD.log.append((self.j, sampler if what is None else what))


def in_order(k, what):
    """the own action, then every registered function once, in registration order"""
    log = WORLD.log
    return [len(log) == k + 1, log[0][0] == "own", is_same(log[0][1], what),
            forall(k, lambda j: both(log[j + 1][0] == j, is_same(log[j + 1][1], what)))]


@proof("C20", under=(S + "Sampler.initialize", S + "Sampler.begin_iteration", S + "Sampler.end_iteration", S + "Sampler.end_advance_chain",
                     S + "Sampler.add_on_initialize", S + "Sampler.add_on_begin_iteration", S + "Sampler.add_on_end_iteration",
                     S + "Sampler.add_on_end_advance_chain"))
def callbacks_in_order():
    s = Logged()
    WORLD.sampler = s
    ks = [nat("on_initialize"), nat("on_begin"), nat("on_end"), nat("on_advance")]
    adders = [s.add_on_initialize, s.add_on_begin_iteration, s.add_on_end_iteration, s.add_on_end_advance_chain]
    for i in range(4):
        for j in range(ks[i]):
            adders[i](Callback(j))
    n = integer("chains", lo=1)
    chains = [Plain(i, 0) for i in range(n)]
    WORLD.log = []
    s.initialize(chains)
    cover("initialized")
    check("initialization", in_order(ks[0], chains))
    check("the sampler has the chains", is_same(s.chains, chains))
    c = chains[0]
    WORLD.log = []
    s.begin_iteration(c)
    check("begin of an iteration", in_order(ks[1], c))
    WORLD.log = []
    s.end_iteration(c)
    check("end of an iteration", in_order(ks[2], c))
    WORLD.log = []
    s.end_advance_chain()
    check("after an advance", in_order(ks[3], s))


@contract(M + "advance_chain", props=("C20",), inline_at_calls=True, proved_by="iterations_of_a_chain")
class advanced:
    """n more iterations, with the given callbacks around each; returns the chain (proved by iterations_of_a_chain)"""

    def requires(self, n_iterations, burnin_iterations, save_every, verbose, print_every, begin_iteration, end_iteration):
        w = WORLD
        return [("number of iterations", n_iterations == w.n), ("burn-in", burnin_iterations == w.burnin), ("save every", save_every == w.every),
                ("printing", both(verbose == w.verbose, print_every == w.print_every))]

    def result(self, n_iterations, burnin_iterations, save_every, verbose, print_every, begin_iteration, end_iteration):
        self._statistics["n_proposed_models_total"] += n_iterations
        WORLD.begun = WORLD.ended = None
        begin_iteration(self)
        check("C20: the sampler's own begin of an iteration, with the chain", both(is_same(WORLD.begun, self), is_same(WORLD.ended, None)))
        end_iteration(self)
        check("C20: the sampler's own end of an iteration, with the chain", is_same(WORLD.ended, self))
        return self

    def ensures(r, self, n_iterations, burnin_iterations, save_every, verbose, print_every, begin_iteration, end_iteration):
        return []


class Counting(VanillaSampler):
    def begin_iteration(self, chain):
        WORLD.begun = chain

    def end_iteration(self, chain):
        WORLD.ended = chain

    def end_advance_chain(self):
        WORLD.advances += 1
        check("C20: after the chains have advanced", forall(len(self.chains), lambda i: self.chains[i].ith_iteration == WORLD.done(i) + WORLD.n))


@proof("C09", "C20", under=(S + "Sampler.advance_chain", S + "VanillaSampler.run"), using=(M + "advance_chain",))
def every_chain_advances():
    for jobs in (1, 2):
        s = Counting()
        k = integer("chains", lo=1)
        done = ufi("done", 1)
        chains = [Plain(i, done(i)) for i in range(k)]
        s.initialize(chains)
        s.parallel_config = {"n_jobs": jobs, "backend": "loky"}
        WORLD.sampler, WORLD.n, WORLD.burnin, WORLD.every = s, integer("n", lo=0), integer("burnin", lo=0), integer("every", lo=1)
        WORLD.verbose, WORLD.print_every, WORLD.done, WORLD.advances = boolean("verbose"), integer("print_every", lo=1), done, 0
        r = s.run(WORLD.n, WORLD.burnin, WORLD.every, WORLD.verbose, WORLD.print_every)
        cover("ran")
        check("C20: the chains stay in order", [len(r) == k, forall(k, lambda i: is_same(r[i], chains[i])), len(s.chains) == k,
                                              forall(k, lambda i: is_same(s.chains[i], chains[i]))])
        check("C09: every chain is advanced by n iterations", forall(k, lambda i: r[i].statistics["n_proposed_models_total"] == done(i) + WORLD.n))
        check("C20: one advance", WORLD.advances == 1)


@proof("C16", under=(S + "ParallelTempering.on_initialize",))
def ladder():
    for n in (1, 2, integer("chains", lo=3)):
        frac, top = real("unit_fraction"), real("temperature_max")
        assume(frac >= 0, frac <= 1, top >= 1)
        s = ParallelTempering(top, frac, 500)
        chains = [Plain(i, 0) for i in range(n)]
        s.initialize(chains)
        cover("initialized")
        check("a chain at temperature exactly one", chains[0].temperature == 1)
        check("no temperature outside one to the maximum", forall(n, lambda i: both(chains[i].temperature >= 1, chains[i].temperature <= top)))
        check("the sampler has the chains", is_same(s.chains, chains))


class Rung:
    """a chain on the ladder, at any temperature; only the temperature of the drawn pair may be written, and only to
    exchange them when the condition holds. Each attempt is proved for arbitrary temperatures at its beginning."""

    def __init__(self, i):
        self.i = i
        self.current_state = Content(i)
        self.log_likelihood = LikelihoodOfStates()

    @property
    def temperature(self):
        if WORLD.half and self.i == WORLD.first:
            return WORLD.written
        return at_rung(self.i)

    @temperature.setter
    def temperature(self, value):
        w = WORLD
        check("the swap condition holds", w.edge > log(last_draw()[3]))
        check("only the drawn chains", either(self.i == w.one, self.i == w.two))
        check("exactly the other's temperature", value == at_rung(ite(self.i == w.one, w.two, w.one)))
        if w.half:
            check("each of the two once", self.i != w.first)
            w.half = False
            w.swaps += 1
        else:
            w.first, w.written = self.i, value
            w.half = True


def at_rung(i):
    """temperature of chain i when an attempt begins"""
    return pure("temperature", "positive", i)


class Content:
    def __init__(self, i):
        self.i = i


class LikelihoodOfStates:
    def log_likelihood_ratio(self, old, new, temperature=1):
        w = WORLD
        check("untempered", temperature == 1)
        check("between the states of two different chains", old.i != new.i)
        check("no swap is half done", neg(w.half))
        r = pure("loglike", "real", new.i) - pure("loglike", "real", old.i)
        w.one, w.two = old.i, new.i
        w.edge = (1 / at_rung(old.i) - 1 / at_rung(new.i)) * r
        w.edges.append(w.edge)
        return r


@proof("C16", under=(S + "ParallelTempering.on_end_advance_chain",))
def swaps():
    s = ParallelTempering(real("temperature_max"), 0.4, 500)
    n = integer("chains", lo=2)
    chains = [Rung(i) for i in range(n)]
    s._chains = chains
    w = WORLD
    w.swaps, w.half, w.edges, w.one, w.two, w.edge, w.first, w.written = 0, False, [], -1, -1, real("edge"), -1, real("written")
    n0 = len(draws())
    s.on_end_advance_chain()
    cover("swapped")
    check("no swap is half done", neg(w.half))
    k = len(w.edges)
    check("a pair and a uniform draw per attempt", len(draws()) == n0 + 2 * k)
    check("a swap whenever the condition holds", w.swaps == total(k, lambda t: 1 if w.edges[t] > log(draw(n0 + 2 * t + 1)[3]) else 0))
    check("as many attempts as chains", k == n)
    check("the chains stay in order", forall(n, lambda i: is_same(s.chains[i], chains[i])))


@proof("C16", under=(S + "ParallelTempering.on_end_advance_chain",))
def nothing_to_swap():
    s = ParallelTempering()
    c = Rung(0)
    s._chains = [c]
    WORLD.swaps, WORLD.half = 0, False
    s.on_end_advance_chain()
    check("a single chain keeps its temperature", both(WORLD.swaps == 0, neg(WORLD.half)))


@contract(S + "Sampler.advance_chain", props=("C09", "C20"), inline_at_calls=True, proved_by="every_chain_advances")
class all_advanced:
    """every chain advanced by n iterations with the given burn-in, thinning and printing (proved by every_chain_advances)"""

    def requires(self, n_iterations, burnin_iterations, save_every, verbose, print_every):
        w = WORLD
        return [("a number of iterations", n_iterations >= 0), ("burn-in", burnin_iterations == w.burnin), ("save every", save_every == w.every),
                ("printing", both(verbose == w.verbose, print_every == w.print_every))]

    def result(self, n_iterations, burnin_iterations, save_every, verbose, print_every):
        WORLD.advanced += n_iterations
        return self.chains

    def ensures(r, self, n_iterations, burnin_iterations, save_every, verbose, print_every):
        return []


class Counted:
    """a chain of which only the number of proposals matters"""

    def __init__(self, done):
        self.done = done

    @property
    def statistics(self):
        return {"n_proposed_models_total": self.done + WORLD.advanced}


@proof("C09", under=(S + "ParallelTempering.run",), using=(S + "Sampler.advance_chain",))
def batches():
    every = integer("swap_every", lo=1)
    s = ParallelTempering(5, 0.4, every)
    k = integer("chains", lo=1)
    done = ufi("done", 1)
    s._chains = [Counted(done(i)) for i in range(k)]
    w = WORLD
    w.advanced, w.burnin, w.every, w.verbose, w.print_every = 0, integer("burnin", lo=0), integer("every", lo=1), boolean("verbose"), integer("print_every", lo=1)
    n = nat("n")
    r = s.run(n, w.burnin, w.every, w.verbose, w.print_every)
    cover("ran")
    check("exactly n iterations", w.advanced == n)
    check("all the chains", [len(r) == k, forall(k, lambda i: is_same(r[i], s._chains[i]))])


class Annealed(State):
    """a state of which the temperature is recorded"""

    def __init__(self):
        pass


class Hot(Plain):
    def __init__(self, id, done):
        super().__init__(id, done)
        self._current_state = Annealed()
        self._current_state.temperature = self._temperature

    @property
    def current_state(self):
        return self._current_state


@proof("C17", under=(S + "SimulatedAnnealing.on_initialize", S + "SimulatedAnnealing.run", S + "SimulatedAnnealing.on_begin_iteration", M + "temperature"),
       using=(S + "Sampler.advance_chain",))
def cooling():
    start = real("temperature_start")
    assume(start >= 1)
    s = SimulatedAnnealing(start)
    k = integer("chains", lo=1)
    done = ufi("done", 1)
    chains = [Hot(i, done(i)) for i in range(k)]
    s.initialize(chains)
    check("begins at the starting temperature", forall(k, lambda i: both(chains[i].temperature == start, chains[i].current_state.temperature == start)))
    w = WORLD
    for burnin in (0, integer("burnin", lo=1, size=False)):
        w.advanced, w.burnin, w.every, w.verbose, w.print_every = 0, burnin, integer("every", lo=1), boolean("verbose"), integer("print_every", lo=1)
        n = nat("n")
        s.run(n, w.burnin, w.every, w.verbose, w.print_every)
        check("C09: n iterations", w.advanced == n)
        i = integer("iteration", lo=0, size=False)
        c = Hot(0, i)
        s.begin_iteration(c)
        cover("begun")
        if burnin > i:
            check("start to the power 1 - i/b", both(c.temperature > 0, log(c.temperature) == log(start) * (1 - i / burnin)))
            if i == 0:
                check("the first iteration is at the starting temperature", c.temperature == start)
        else:
            check("exactly one after burn-in", c.temperature == 1)
        check("the state records the chain's temperature", c.current_state.temperature == c.temperature)
