"""arbitrary members of the repository's abstract interfaces, and parameter spaces and states of arbitrary size built
from them with the repository's own constructors"""
from verif import *
import numpy as np
from bayesbay.prior import Prior
from bayesbay.parameterization import ParameterSpace
from bayesbay.discretization import Discretization
from bayesbay._state import State, ParameterSpaceState, DataNoiseState


class AnyPrior(Prior):
    """an arbitrary prior: unknown density, unknown standard deviations, both at every position"""

    def __init__(self, name, key, model):
        self._name = name
        self.position = None
        self.key = key
        self.model = model

    def log_prior(self, value, position=None):
        return self.model.density(self.key, value, position)

    def get_perturb_std(self, position=None):
        return self.model.std(self.key, position)

    def get_perturb_std_birth(self, position=None):
        return self.model.stdb(self.key, position)

    def perturb_value(self, value, position=None, is_birth=False):
        z = np.random.normal(0, self.get_perturb_std_birth(position) if is_birth else self.get_perturb_std(position))
        new = value + z
        return new, self.log_prior(new, position) - self.log_prior(value, position)

    def sample(self, position=None):
        return np.random.normal(self.model.centre(self.key, position), 1)

    def initialize(self, positions=None):
        return np.random.normal(0, 1, len(positions))


class Model:
    """unknown functions of (parameter, value, position)"""

    def __init__(self, label):
        self.label = label

    def density(self, key, value, position):
        return pure(self.label + "_density", "real", position, key, value) if position is None else pure(self.label + "_density", "real", key, value, position)

    def std(self, key, position):
        return pure(self.label + "_std", "positive", key, position)

    def stdb(self, key, position):
        return pure(self.label + "_stdb", "positive", key, position)

    def centre(self, key, position):
        return pure(self.label + "_centre", "real", key, position)

    def nested(self, key, tag):
        """log prior of a nested state"""
        return pure(self.label + "_nested", "real", key, tag)

    def born(self, key, new, old):
        """log ratio with which a nested discretization is born from its neighbour"""
        return pure(self.label + "_born", "real", key, new, old)


class AnySpace(ParameterSpace):
    """an arbitrary nested parameter space: its states are opaque, its log prior an unknown function of them"""

    def __init__(self, name, key, model):
        self._name = name
        self._parameters = dict()
        self._perturbation_funcs = []
        self._perturbation_weights = []
        self.key = key
        self.model = model

    def log_prior(self, state):
        return self.model.nested(self.key, state.tag)

    def sample(self, *args):
        return opaque_state(np.random.normal(0, 1))

    def initialize(self, position=None):
        return [opaque_state(np.random.normal(0, 1)) for _ in position]


def opaque_state(tag):
    s = ParameterSpaceState(1, {})
    havoc(s, "tag", tag)
    return s


class AnyDisc(Discretization):
    """an arbitrary nested discretization: its states are opaque; induction hypothesis of the birth and death ratios:
    what it adds for a birth from a neighbour is an unknown function of the two states, and for a death minus that"""

    def __init__(self, name, key, model):
        self._name = name
        self._parameters = dict()
        self._perturbation_funcs = []
        self._perturbation_weights = []
        self.position = None
        self.key = key
        self.model = model

    def sample(self, *args):
        return opaque_state(np.random.normal(0, 1))

    def sample_discretization(self):
        return opaque_state(np.random.normal(0, 1))

    def initialize(self, position=None):
        return [opaque_state(np.random.normal(0, 1)) for _ in position]

    def log_prob_initialize_discretization(self, ps_state):
        return 0

    def _sample_from_neighbour(self, old_ps_state, new_ps_state):
        havoc(new_ps_state, "tag", np.random.normal(0, 1))
        return self.model.born(self.key, new_ps_state.tag, old_ps_state.tag)

    def _log_prob_death_ps_state(self, old_ps_state, new_ps_state):
        return -self.model.born(self.key, old_ps_state.tag, new_ps_state.tag)


def any_parameters(m, q, r, model):
    """m priors, q nested discretizations and r nested spaces"""
    return [AnyPrior(name_of("p", i), i, model) for i in range(m)] + [AnyDisc(name_of("d", j), j, model) for j in range(q)] + \
        [AnySpace(name_of("s", j), j, model) for j in range(r)]


def any_values(n, m, q, r, v, t, w):
    """n values of each: v(i, k), nested tags t(j, k) and w(j, k)"""
    vals = {name_of("p", i): array_of(n, lambda k: v(i, k)) for i in range(m)}
    for j in range(q):
        vals[name_of("d", j)] = [opaque_state(t(j, k)) for k in range(n)]
    for j in range(r):
        vals[name_of("s", j)] = [opaque_state(w(j, k)) for k in range(n)]
    return vals
