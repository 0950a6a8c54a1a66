"""likelihood: data covariance of a target, Gaussian log likelihood ratio, cached predictions"""
from verif import *
import numpy as np
from bayesbay.likelihood import Target, LogLikelihood
from bayesbay._state import State, DataNoiseState
from contracts.kernels import inverse_entry

T = "bayesbay.likelihood._target.Target."
L = "bayesbay.likelihood._log_likelihood.LogLikelihood."


class World:
    pass


WORLD = World()


def noise(correlated):
    """unknown noise: s > 0, 0 <= r < 1 or none"""
    s, r = real("s"), real("r") if correlated else None
    assume(s > 0)
    if correlated:
        assume(r >= 0, r < 1)
    return s, r


@proof("C11", under=("bayesbay._utils_1d.inverse_covariance",))
def exact_inverse():
    """the tridiagonal matrix of the contract of inverse_covariance times s^2 r^|i-j| is the identity, and it is U^T D U with
    U unit bidiagonal and D = 1/s^2, 1/(s^2 (1-r^2)), ..., so that the determinant of the covariance is s^2n (1-r^2)^(n-1)"""
    s, r = noise(True)
    n = integer("n", lo=1)
    power = lambda d: pure("power", "real", d)
    m = lambda i, j: inverse_entry(i, j, s, r, n)
    c = lambda j, k: ite(j >= k, s**2 * power(j - k), s**2 * power(k - j))
    i, k = integer("i", lo=0, hi=n - 1, size=False), integer("k", lo=0, hi=n - 1, size=False)
    # the definition of r^d for natural numbers d, at those that occur
    assume(power(0) == 1)
    d = i - k if i >= k else k - i
    assume(power(d + 1) == r * power(d))
    if d > 0:
        assume(power(d) == r * power(d - 1))
    check("product with the covariance is the identity", total(n, lambda j: m(i, j) * c(j, k)) == ite(i == k, 1, 0))
    u = lambda a, b: ite(a == b, 1, ite(a == b + 1, -r, 0))
    d = lambda a: 1 / (s**2 * ite(a == 0, 1, 1 - r**2))
    check("factors", total(n, lambda j: u(j, i) * d(j) * u(j, k)) == m(i, k))


@proof("C10", "C11", under=(T + "inverse_covariance_times_vector", T + "log_determinant_covariance", T + "is_hierarchical", T + "__init__"))
def covariance_of_a_target():
    n = integer("n", lo=1)
    dobs, v = array("dobs", n), array("v", n)
    state = State({})
    w = real("w")
    t = Target("t", dobs, w)
    check("C10: known noise", neg(t.is_hierarchical))
    check("C10: a scalar weight", forall(n, lambda i: t.inverse_covariance_times_vector(state, v)[i] == w * v[i]))
    d = array("d", n)
    t = Target("t", dobs, d)
    check("C10: a diagonal", forall(n, lambda i: t.inverse_covariance_times_vector(state, v)[i] == d[i] * v[i]))
    m = array("m", n, n)
    t = Target("t", dobs, m)
    r1 = t.inverse_covariance_times_vector(state, v)
    check("C10: a matrix", forall(n, lambda i: r1[i] == total(n, lambda j: m[i, j] * v[j])))
    check("C10: data", forall(n, lambda i: t.dobs[i] == dobs[i]))
    for correlated in (False, True):
        s, r = noise(correlated)
        t = Target("t", dobs, noise_is_correlated=correlated)
        check("C10: unknown noise", t.is_hierarchical)
        state = State({"t": DataNoiseState(s, r)})
        r1 = t.inverse_covariance_times_vector(state, v)
        entry = (lambda i, j: inverse_entry(i, j, s, r, n)) if correlated else (lambda i, j: ite(i == j, 1 / s**2, 0))
        check("C11: times the inverse", [len(r1) == n, forall(n, lambda i: r1[i] == total(n, lambda j: entry(i, j) * v[j]))])
        cover("times")
        pivot = s**2 * (1 - r**2) if correlated else s**2
        check("C11: log-determinant", t.log_determinant_covariance(state) == log(s**2) + (n - 1) * log(pivot))


class AnyTarget(Target):
    """a target with an arbitrary inverse covariance (weights), depending on the state when its noise is unknown"""

    def __init__(self, j, n):
        self.j = j
        self._name = name_of("target", j)
        self.dobs = array_of(n, lambda i: pure("dobs", "real", j, i))
        self.covariance_mat_inv = None if pure("unknown_noise", "bool", j) else 1

    def inverse_covariance_times_vector(self, state, vector):
        return array_of(len(vector), lambda i: total(len(vector), lambda k: weight(self.j, state, i, k) * vector[k]))

    def log_determinant_covariance(self, state):
        check("C10: a determinant for unknown noise only", pure("unknown_noise", "bool", self.j))
        return pure("log_determinant", "real", self.j, which(state))


class Labelled(State):
    def __init__(self, label):
        self.label = label
        self.cache = {}
        self.extra_storage = {}


def which(state):
    return state.label


def weight(j, state, i, k):
    return pure("weight", "real", j, ite(pure("unknown_noise", "bool", j), which(state), 0), i, k)


class Forward:
    """an arbitrary forward function"""

    def __init__(self, j):
        self.j = j
        self.__name__ = "forward"

    def __call__(self, state):
        check("C12: nothing is cached yet", neg(state.saved_in_cache(f"{name_of("target", self.j)}.dpred")))
        return prediction(self.j, state)


def prediction(j, state):
    return array_of(WORLD.sizes(j), lambda i: pure("forward", "real", j, which(state), i))


def gaussian(m, state):
    """misfit, log determinant as the property defines them"""
    def residual(j, i):
        return pure("forward", "real", j, which(state), i) - pure("dobs", "real", j, i)
    n = WORLD.sizes
    misfit = total(m, lambda j: total(n(j), lambda i: residual(j, i) * total(n(j), lambda k: weight(j, state, i, k) * residual(j, k))))
    det = total(m, lambda j: ite(pure("unknown_noise", "bool", j), pure("log_determinant", "real", j, which(state)), 0))
    return misfit, det


def like(m):
    sizes = ufn("size", 1)
    WORLD.sizes = lambda j: sizes(j)
    assume(forall(m, lambda j: sizes(j) >= 1))
    ll = LogLikelihood([AnyTarget(j, sizes(j)) for j in range(m)], [Forward(j) for j in range(m)])
    return ll


@proof("C10", "C12", under=(L + "log_likelihood_ratio", L + "_log_likelihood_ratio_from_targets", L + "_get_misfit_and_det", L + "__init__", L + "add_targets",
                            L + "_init_log_likelihood_ratio"))
def gaussian_ratio():
    m = integer("targets", lo=1)
    ll = like(m)
    old, new = Labelled(1), Labelled(2)
    t = real("T")
    assume(t > 0)
    r = ll.log_likelihood_ratio(old, new, t)
    cover("ratio")
    f0, d0 = gaussian(m, old)
    f1, d1 = gaussian(m, new)
    check("C10: half the decrease of misfit and determinant, over the temperature", r == (f0 - f1 + d0 - d1) / 2 / t)
    for s in (old, new):
        check("C12: the predictions of every target are kept with the state", forall(m, lambda j: s.saved_in_cache(f"{name_of("target", j)}.dpred")))
        check("C12: they are the forward function's for that state", forall(m, lambda j: forall(WORLD.sizes(j), lambda i: s.load_from_cache(f"{name_of("target", j)}.dpred")[i] == pure("forward", "real", j, which(s), i))))
    again = ll.log_likelihood_ratio(new, old, t)
    check("C10: antisymmetric", again == -r)
    check("C10: untempered by default", ll.log_likelihood_ratio(old, new) == r * t)


@proof("C10", "C23", under=(L + "log_likelihood_ratio", L + "_log_likelihood_ratio_from_loglike", L + "_log_likelihood_ratio_from_loglike_ratio",
                            L + "_init_log_likelihood_ratio", L + "__init__"))
def user_likelihoods():
    t = real("T")
    assume(t > 0)
    old, new = Labelled(1), Labelled(2)
    f = lambda s: pure("log_likelihood", "real", which(s))
    g = lambda a, b, shift=0: pure("log_likelihood_ratio", "real", which(a), which(b)) + shift
    ll = LogLikelihood(log_like_func=f)
    r = ll.log_likelihood_ratio(old, new, t)
    check("C10: difference of the function, over the temperature", r == (f(new) - f(old)) / t)
    check("C10: antisymmetric", ll.log_likelihood_ratio(new, old, t) == -r)
    shift = real("shift")
    for given in (g, (g, [shift]), (g, {"shift": shift})):
        for ll in (LogLikelihood(log_like_ratio_func=given), LogLikelihood(log_like_ratio_func=given, log_like_func=f)):
            expected = g(old, new) if is_same(given, g) else g(old, new, shift)
            check("C10,C23: the ratio function with exactly its arguments, over the temperature", ll.log_likelihood_ratio(old, new, t) == expected / t)
            check("C10: untempered by default", ll.log_likelihood_ratio(old, new) == expected)
    check("C10: no likelihood at all is refused", raises(lambda: LogLikelihood(), ValueError))
