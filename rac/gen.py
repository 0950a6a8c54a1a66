"""Random configurations of the library and independent oracles over them."""
import math
import random

import numpy as np
import scipy.interpolate
import shapely.geometry

import bayesbay as bb
from bayesbay import State, ParameterSpaceState, DataNoiseState
from bayesbay.prior import UniformPrior, GaussianPrior, LaplacePrior, CustomPrior
from bayesbay.discretization import Voronoi, Voronoi1D, Voronoi2D
from bayesbay.parameterization import ParameterSpace, Parameterization


class Bad(Exception):
    """a contract clause does not hold"""


def need(c, msg, *a):
    if not c:
        raise Bad(msg % a if a else msg)


def close(a, b, tol=1e-9, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        if a.size == b.size == 1:
            a, b = a.ravel(), b.ravel()
        else:
            return False
    with np.errstate(all="ignore"):
        ok = (np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))) | (np.abs(a - b) <= tol * (scale + np.maximum(np.abs(a), np.abs(b))))
    return bool(np.all(ok))


def f(x):
    """scalar of a possibly size-one array"""
    return float(np.asarray(x).ravel()[0])


# ----------------------------------------------------------------- priors
class PriorSpec:
    """the documented meaning of a prior, evaluated independently of the library"""

    def __init__(self, kind, name, hyper, position):
        self.kind, self.name, self.hyper, self.position = kind, name, hyper, position
        self.interp = {}
        if position is not None:
            self.position = np.array(position, dtype=float)
            for k, v in hyper.items():
                if v is not None and not np.isscalar(v) and self.position.ndim > 1:
                    self.interp[k] = scipy.interpolate.LinearNDInterpolator(self.position, np.asarray(v, dtype=float))

    def h(self, k, pos):
        v = self.hyper[k]
        if np.isscalar(v):
            return float(v)
        if self.position.ndim == 1:
            return float(np.interp(f(pos), self.position, v))
        return float(np.asarray(self.interp[k](np.asarray(pos, dtype=float))).ravel()[0])

    def std(self, pos, birth=False):
        if birth and self.hyper.get("perturb_std_birth") is not None:
            return self.h("perturb_std_birth", pos)
        return self.h("perturb_std", pos)

    def lp(self, v, pos=None):
        v = f(v)
        if self.kind == "U":
            a, b = self.h("vmin", pos), self.h("vmax", pos)
            return -math.log(b - a) if a <= v <= b else -math.inf
        if self.kind == "G":
            m, s = self.h("mean", pos), self.h("std", pos)
            return -0.5 * math.log(2 * math.pi) - math.log(s) - 0.5 * ((v - m) / s) ** 2
        if self.kind == "L":
            m, s = self.h("mean", pos), self.h("scale", pos)
            return -math.log(2 * s) - abs(v - m) / s
        return custom_lp(v, pos if self.custom_pos else None)

    def support(self, pos):
        return (self.h("vmin", pos), self.h("vmax", pos)) if self.kind == "U" else (-math.inf, math.inf)


def custom_lp(v, pos=None):
    p = 0.0 if pos is None else f(np.sum(pos)) * 0.01
    return -abs(v - 1.0 - p) ** 1.5


def custom_lp1(v):
    return -abs(v - 1.0) ** 1.5


def custom_sample(pos=None):
    return 1.0 + random.gauss(0, 0.7)


def rnd(rng, a, b):
    return rng.uniform(a, b)


def gen_prior(rng, name, domain=None, kind=None, force_pos=False):
    """-> (prior, spec); domain: None (no position), (lo, hi) 1-D, or ((x0,y0),(x1,y1)) 2-D"""
    kind = kind or rng.choice("UGLC" if rng.random() < .9 else "U")
    posdep = domain is not None and (force_pos or rng.random() < .5)
    position = None
    if posdep:
        lo, hi = domain
        if np.ndim(lo) == 0:
            k = rng.randint(2, 6)
            position = np.sort(np.array([lo] + [rnd(rng, lo, hi) for _ in range(k - 2)] + [hi]))
            if rng.random() < .2:      # grid shorter than the domain: constant beyond its ends
                position = lo + (hi - lo) * (0.2 + 0.6 * (position - lo) / (hi - lo))
        else:
            d = len(lo)
            m = 0.3
            corners = [[(lo[j] - m, hi[j] + m)[(c >> j) & 1] for j in range(d)] for c in range(2 ** d)]
            position = np.array(corners + [[rnd(rng, lo[j], hi[j]) for j in range(d)] for _ in range(rng.randint(0, 4))])

    def hp(a, b):
        if position is not None and rng.random() < .75:
            return np.array([rnd(rng, a, b) for _ in range(len(position))])
        return rnd(rng, a, b)

    h = {"perturb_std": hp(.2, .6), "perturb_std_birth": hp(.8, 1.6) if rng.random() < .6 else None}
    if kind == "U":
        h["vmin"], h["vmax"] = hp(-3, -1), hp(1, 3)
        p = UniformPrior(name, h["vmin"], h["vmax"], h["perturb_std"], h["perturb_std_birth"], position)
    elif kind == "G":
        h["mean"], h["std"] = hp(-2, 2), hp(.5, 2)
        p = GaussianPrior(name, h["mean"], h["std"], h["perturb_std"], h["perturb_std_birth"], position)
    elif kind == "L":
        h["mean"], h["scale"] = hp(-2, 2), hp(.5, 2)
        p = LaplacePrior(name, h["mean"], h["scale"], h["perturb_std"], h["perturb_std_birth"], position)
    else:
        cp = rng.random() < .6
        p = CustomPrior(name, custom_lp if cp else custom_lp1, custom_sample, h["perturb_std"], h["perturb_std_birth"], position)
    spec = PriorSpec(kind, name, h, position)
    spec.custom_pos = kind == "C" and cp
    return p, spec


# ----------------------------------------------------------------- spaces
class SpaceSpec:
    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.__dict__.update(kw)
        self.params = {}

    def in_domain(self, site):
        if self.polygon is not None:
            return bool(self.polygon.contains(shapely.geometry.Point(np.asarray(site, dtype=float))))
        return bool(np.all((np.asarray(site) >= self.vmin) & (np.asarray(site) <= self.vmax)))

    @property
    def nmin(self):
        return self.n if self.n is not None else self.n_min

    @property
    def nmax(self):
        return self.n if self.n is not None else self.n_max


POLY = np.array([[0., 0.], [10., 0.], [10., 4.], [4., 4.], [4., 10.], [0., 10.]])


def gen_space(rng, name, kind=None, depth=1, domain=None, n_range=(1, 6), big=False, want_nested=None, birth_from=None, trans=None):
    """-> (space, SpaceSpec)"""
    kind = kind or rng.choice(["P", "V1", "V1", "V2", "V2p", "V2k"])
    trans = rng.random() < .75 if trans is None else trans
    nmin = rng.randint(max(1, n_range[0]), 3)
    nmax = rng.randint(nmin, n_range[1]) if trans else nmin
    sp = SpaceSpec(kind, name, n=None if trans else nmin, n_min=nmin, n_max=nmax, polygon=None, vmin=None, vmax=None, perturb_std=None,
                   birth_from="prior", dim=0, kdtree=False)
    inner = None
    kw = {}
    if kind != "P":
        sp.birth_from = birth_from or rng.choice(["prior", "neighbour"])
        kw["birth_from"] = sp.birth_from
        sp.perturb_std = rnd(rng, .3, 1.5)
        kw["perturb_std"] = sp.perturb_std
        if kind == "V1":
            lo = rnd(rng, -5, 5)
            sp.vmin, sp.vmax, sp.dim = lo, lo + rnd(rng, 4, 12), 1
            kw["vmin"], kw["vmax"] = sp.vmin, sp.vmax
        else:
            sp.dim = 2
            sp.vmin, sp.vmax = np.array([-2., 1.]), np.array([4., 6.])
            if kind == "V2p":
                sp.polygon = shapely.geometry.Polygon(POLY)
                sp.vmin, sp.vmax = np.array([0., 0.]), np.array([10., 10.])
                kw["polygon"] = POLY
            else:
                kw["vmin"], kw["vmax"] = list(sp.vmin), list(sp.vmax)
                if rng.random() < .3:
                    kw["vmin"], kw["vmax"] = sp.vmin, sp.vmax
            sp.kdtree = kind == "V2k" or rng.random() < .2
            kw["compute_kdtree"] = sp.kdtree
            if rng.random() < .3:
                sp.perturb_std = np.array([rnd(rng, .3, 1.5), rnd(rng, .3, 1.5)])
                kw["perturb_std"] = sp.perturb_std
        inner = (sp.vmin, sp.vmax)
    params = []
    np_ = rng.choice([0, 1, 1, 2, 3])
    for i in range(np_):
        p, s = gen_prior(rng, f"{name}p{i}", inner)
        params.append(p)
        sp.params[p.name] = s
    nested = (rng.random() < .5 if want_nested is None else want_nested) and depth > 0
    if nested:
        k = rng.choice(["P", "V1", "V1", "V2"])
        p, s = gen_space(rng, f"{name}n", k, depth - 1, None, n_range=(1, 4))
        params.insert(rng.randint(0, len(params)), p)
        sp.params[p.name] = s
    sp.params = {p.name: sp.params[p.name] for p in params}
    if trans:
        kw["n_dimensions_min"], kw["n_dimensions_max"] = nmin, nmax
        kw["n_dimensions_init_range"] = rng.choice([0.3, 0.0, 1.0, rng.random()])
        sp.init_range = kw["n_dimensions_init_range"]
    else:
        kw["n_dimensions"] = nmin
    kw["parameters"] = params
    if kind == "P":
        return ParameterSpace(name, **kw), sp
    if kind == "V1":
        return Voronoi1D(name, **kw), sp
    return Voronoi2D(name, **kw), sp


def check_ps(sp, ps, where, posn_support=True, init=False):
    """lengths, ranges, order and support of a state against its space; raises Bad"""
    need(isinstance(ps, ParameterSpaceState), "%s: not a parameter space state", where)
    n = ps.n_dimensions
    hi = sp.nmax
    need(sp.nmin <= n <= hi, "%s: %s dimensions outside [%s, %s]", where, n, sp.nmin, hi)
    names = set(ps.param_values)
    want = set(sp.params) | ({"discretization"} if sp.kind != "P" else set())
    need(names == want, "%s: parameters %s instead of %s", where, names, want)
    for k, v in ps.param_values.items():
        need(len(v) == n, "%s: %s has %d entries for %d dimensions", where, k, len(v), n)
        need(ps[k] is v or np.array_equal(ps[k], v), "%s: index view of %s differs", where, k)
        need(getattr(ps, k) is v or same(getattr(ps, k), v), "%s: attribute view of %s differs", where, k)
    if sp.kind != "P":
        sites = ps["discretization"]
        need(sites.shape == ((n,) if sp.dim == 1 else (n, sp.dim)), "%s: site array of shape %s", where, sites.shape)
        if sp.dim == 1:
            need(bool(np.all(np.diff(sites) >= 0)), "%s: sites not sorted: %s", where, sites)
        for s in sites:
            need(sp.in_domain(s), "%s: site %s outside the domain", where, s)
        if sp.kdtree:
            need(ps.saved_in_cache("kdtree"), "%s: no nearest-neighbour tree", where)
            need(np.array_equal(np.asarray(ps.load_from_cache("kdtree").data), sites), "%s: tree of other sites", where)
    for k, s in sp.params.items():
        for i, v in enumerate(ps[k]):
            if isinstance(s, SpaceSpec):
                check_ps(s, v, f"{where}.{k}[{i}]")
            elif posn_support:
                pos = ps["discretization"][i] if sp.kind != "P" else None
                a, b = s.support(pos)
                need(a - 1e-9 <= v <= b + 1e-9, "%s: %s[%d] = %s outside [%s, %s]", where, k, i, v, a, b)
                need(np.isfinite(v), "%s: %s[%d] = %s", where, k, i, v)


# ----------------------------------------------------------------- structural copies
def freeze(o):
    """deep immutable picture of a state (values, dimensions, noise, temperature)"""
    if isinstance(o, State):
        return ("S", o.temperature, tuple((k, freeze(v)) for k, v in sorted(o.param_values.items())),
                tuple((k, freeze(getattr(o, k))) for k in sorted(o.param_values)))
    if isinstance(o, ParameterSpaceState):
        return ("P", o.n_dimensions, tuple((k, freeze(v)) for k, v in sorted(o.param_values.items())),
                tuple((k, freeze(getattr(o, k))) for k in sorted(o.param_values)))
    if isinstance(o, DataNoiseState):
        return ("N", o.std, o.correlation)
    if isinstance(o, np.ndarray):
        return ("A", o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return ("L", tuple(freeze(v) for v in o))
    if isinstance(o, dict):
        return ("D", tuple((k, freeze(v)) for k, v in sorted(o.items())))
    return o


def same(a, b):
    return freeze(a) == freeze(b)


def cell(ps, i):
    """everything that belongs to cell i"""
    return tuple((k, freeze(v[i] if not isinstance(v, np.ndarray) else np.array(v[i]))) for k, v in sorted(ps.param_values.items()))


# ----------------------------------------------------------------- proposal ratio oracle
def nearest(sp, sites, pos):
    """candidate nearest sites (more than one only on a tie)"""
    sites = np.asarray(sites, dtype=float).reshape(len(sites), -1)
    d = np.linalg.norm(sites - np.asarray(pos, dtype=float).ravel(), axis=1)
    return [int(i) for i in np.flatnonzero(d <= d.min() + 1e-12)]


def logq(new, old, std):
    return -math.log(std * math.sqrt(2 * math.pi)) - (f(new) - f(old)) ** 2 / (2 * std ** 2)


def birth_cell(sp, pos, values, old_ps, i_near):
    """log prior minus log proposal of one newborn cell of `sp`, neighbour i_near of old_ps"""
    r = 0.0
    for k, s in sp.params.items():
        if isinstance(s, PriorSpec):
            r += s.lp(values[k], pos) - logq(values[k], old_ps[k][i_near], s.std(pos, True))
        elif s.kind != "P":
            r += birth_nested(s, values[k], old_ps[k][i_near])
    return r


def birth_nested(sp, new_ps, nb_ps):
    """a newborn nested discretization: every cell takes its values from the nearest cell of the neighbour's"""
    r = 0.0
    for i in range(new_ps.n_dimensions):
        pos = new_ps["discretization"][i]
        j = nearest(sp, nb_ps["discretization"], pos)[0]
        r += birth_cell(sp, pos, {k: new_ps[k][i] for k in sp.params}, nb_ps, j)
    return r


def birth_oracle(sp, new_ps, i_new, old_ps):
    """log ratio a birth of cell i_new of new_ps out of old_ps must return"""
    if sp.kind == "P" or sp.birth_from == "prior":
        return 0.0
    pos = new_ps["discretization"][i_new]
    j = nearest(sp, old_ps["discretization"], pos)[0]
    return birth_cell(sp, pos, {k: new_ps[k][i_new] for k in sp.params}, old_ps, j)


def find_new(old_ps, new_ps):
    """index at which new_ps has one more cell than old_ps (all others equal and in order), or None"""
    o = [cell(old_ps, i) for i in range(old_ps.n_dimensions)]
    w = [cell(new_ps, i) for i in range(new_ps.n_dimensions)]
    if len(w) != len(o) + 1:
        return None
    for i in range(len(w)):
        if w[:i] + w[i + 1:] == o:
            return i
    return None


# ----------------------------------------------------------------- statistics
def ks_p(sample, cdf):
    """p-value of a one-sample Kolmogorov-Smirnov test"""
    import scipy.stats
    return scipy.stats.kstest(sample, cdf).pvalue


def binom_p(k, n, p):
    import scipy.stats
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return scipy.stats.binomtest(k, n, p).pvalue


def chi2_p(counts, probs):
    import scipy.stats
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    keep = probs > 0
    if counts[~keep].sum() > 0:
        return 0.0
    if keep.sum() < 2:
        return 1.0
    e = probs[keep] * counts.sum()
    return scipy.stats.chisquare(counts[keep], e * counts[keep].sum() / e.sum()).pvalue


ALPHA = 1e-9


# ----------------------------------------------------------------- chains
def quiet_bayes(states, funcs, weights=None, llr=None, **kw):
    return bb.BaseBayesianInversion(walkers_starting_states=states, perturbation_funcs=funcs, perturbation_weights=weights,
                                    log_like_ratio_func=llr or (lambda a, b: 0.0), n_chains=len(states), **kw)


class Fwd:
    """a forward function: fixed linear/non-linear functional of everything in the state"""

    def __init__(self, seed, n):
        self.seed, self.n, self.calls = seed, n, 0

    def __call__(self, state):
        self.calls += 1
        return self.value(state)

    def value(self, state):
        r = np.random.RandomState(self.seed)
        w = r.normal(size=self.n)
        tot = 0.0

        def walk(o, c):
            t = 0.0
            for k in sorted(o.param_values):
                v = o.param_values[k]
                if isinstance(v, DataNoiseState):
                    continue
                if isinstance(v, ParameterSpaceState):
                    t += walk(v, c * 1.1)
                elif isinstance(v, list):
                    t += sum(walk(x, c * (1.2 + .1 * i)) for i, x in enumerate(v))
                else:
                    t += float(np.sum(np.asarray(v).ravel() * np.cos(c + np.arange(v.size))))
            return t
        tot = walk(state, .7)
        return np.sin(w * (1 + np.arange(self.n)) * .1 + tot * .3) + w
