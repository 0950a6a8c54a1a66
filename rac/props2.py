"""C08-C11, C14-C24: chain, samplers, likelihood, kernels, results, user functions."""
import functools
import importlib.util
import math
import os
import random
import warnings
from collections import Counter, defaultdict

import numpy as np

import bayesbay as bb
from bayesbay import State, ParameterSpaceState, DataNoiseState, BaseBayesianInversion, BayesianInversion
from bayesbay import BaseMarkovChain, MarkovChain
from bayesbay.prior import UniformPrior, GaussianPrior, LaplacePrior, CustomPrior
from bayesbay.discretization import Voronoi, Voronoi1D, Voronoi2D, Discretization
from bayesbay.parameterization import ParameterSpace, Parameterization
from bayesbay.perturbations import (ParamPerturbation, BirthPerturbation, DeathPerturbation, ParamSpacePerturbation, NoisePerturbation)
from bayesbay.likelihood import LogLikelihood, Target
from bayesbay.samplers import VanillaSampler, ParallelTempering, SimulatedAnnealing, Sampler
from bayesbay.exceptions import ForwardException, UserFunctionException
import bayesbay._utils_1d as u1

from gen import *
from props1 import full_setup, gen_targets, offered, rand_pos, DOM1, DOM2

SEQ = {"n_jobs": 1}
_chk = None


def chk():
    """the bounds-checked twin of the kernels"""
    global _chk
    if _chk is None:
        d = os.path.join(os.environ["VERIF_TREE"], "chk")
        fn = [x for x in os.listdir(d) if x.startswith("_utils_1d") and x.endswith(".so")][0]
        sp = importlib.util.spec_from_file_location("_utils_1d", os.path.join(d, fn))
        _chk = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(_chk)
    return _chk


def both(name, *a, **k):
    """call a kernel and its bounds-checked twin"""
    try:
        getattr(chk(), name)(*a, **k)
    except IndexError as e:
        need(False, "%s%r touches memory outside its arrays: %s", name, tuple(np.asarray(x).shape or x for x in a), e)
    return getattr(u1, name)(*a, **k)


def P(fn, name=None):
    fn.__name__ = name or fn.__name__
    return fn


# ------------------------------------------------------------------ C08
def c08_rate(rng):
    """acceptance frequency of one step is min(1, exp(ratio + llr / T))"""
    lr, ll, T = rng.choice([(-.7, 0., 1), (0., -.5, 1), (-1.2, .6, 1), (0., -2., 4.), (.4, -1.4, 2.), (-.3, -.3, 1), (.5, .2, 1), (1., -3., 1)])
    inv = quiet_bayes([0], [lambda x: (x + 1, lr)], llr=lambda a, b: ll)
    ch = inv.chains[0]
    ch.temperature = T
    n, acc = 1200, 0
    prev = 0
    ch.save_current_iteration = False
    for _ in range(n):
        ch.advance_chain(n_iterations=1, verbose=False)
        acc += ch.current_state == prev + 1
        need(ch.current_state in (prev, prev + 1), "unexpected state %r", ch.current_state)
        prev = ch.current_state
    p = min(1.0, math.exp(lr + ll / T))
    need(binom_p(acc, n, p) > ALPHA, "accepted %d of %d, the rule gives %.4f (log ratio %g, llr %g, T %g)", acc, n, p, lr, ll, T)
    need(ch.statistics["n_accepted_models_total"] == acc, "accepted count %r, %d accepted", ch.statistics["n_accepted_models_total"], acc)


def c08_exact(rng):
    """with the uniform draw pinned (every way of drawing it), the decision is the documented one"""
    lr, ll, u = rng.uniform(-2, 1), rng.uniform(-2, 2), rng.random()
    T = rng.choice([1, 1, 2.0, 5.0])
    inv = quiet_bayes([("a", 0)], [lambda x: (("b", 0), lr)], llr=lambda a, b: ll)
    ch = inv.chains[0]
    ch.temperature = T
    sv = random.random, np.random.random, np.random.rand, np.random.uniform, random.uniform
    try:
        random.random = lambda: u
        np.random.random = np.random.rand = np.random.uniform = lambda *a, **k: u
        random.uniform = lambda a, b: a + (b - a) * u
        ch.advance_chain(n_iterations=1, verbose=False)
    finally:
        random.random, np.random.random, np.random.rand, np.random.uniform, random.uniform = sv
    d = lr + ll / T - math.log(u)
    if abs(d) > 1e-9:
        need((ch.current_state[0] == "b") == (d > 0), "accepted=%s with log ratio %g, llr %g, T %g, u %g", ch.current_state[0] == "b", lr, ll, T, u)


def c08_inf(rng):
    calls = [0]

    def llr(a, b):
        calls[0] += 1
        return 1e9
    inv = quiet_bayes([0], [lambda x: (x + 1, -math.inf)], llr=llr)
    ch = inv.chains[0]
    ch.advance_chain(n_iterations=20, verbose=False)
    need(ch.current_state == 0, "a proposal with log ratio -inf was accepted")
    need(calls[0] == 0, "the likelihood was evaluated for a log ratio of -inf")
    st = ch.statistics
    need(st["n_proposed_models_total"] == 20 and st["n_accepted_models_total"] == 0, "counts %r", dict(st))


def c08_selection(rng):
    w = [rng.choice([0, 1, 2, 3, .5]) for _ in range(rng.randint(1, 4))]
    if sum(w) == 0:
        return
    hits = [0] * len(w)

    def mk(i):
        def g(x):
            hits[i] += 1
            return x, 0.0
        return P(g, f"g{i}")
    inv = quiet_bayes([0], [mk(i) for i in range(len(w))], list(w))
    inv.chains[0].advance_chain(n_iterations=1200, verbose=False)
    need(sum(hits) == 1200, "%d perturbations applied in 1200 iterations", sum(hits))
    need(chi2_p(hits, [x / sum(w) for x in w]) > ALPHA, "perturbations drawn %s times with weights %s", hits, w)


class Boom(Exception):
    pass


def c08_failures(rng):
    """failing perturbations / likelihoods: not counted, retried, state kept"""
    nf = rng.randint(1, 40)
    where = rng.choice(["perturb", "llr", "fwd"])
    count = [0]

    def maybe():
        count[0] += 1
        if count[0] <= nf:
            raise Boom("planned")
    if where == "fwd":
        t = Target("d", np.zeros(2), covariance_mat_inv=1.0)
        armed = [False]

        def fwd(s):
            if armed[0]:
                maybe()
            return np.zeros(2)
        par = Parameterization(ParameterSpace("s", 1, parameters=[UniformPrior("a", 0, 1, 1e-6)]))
        inv = BayesianInversion(par, LogLikelihood(t, fwd), n_chains=1)
        st = inv.chains[0].current_state
        armed[0] = True
        exc = "ForwardException"
    else:
        st = ("start",)

        def pert(x):
            if where == "perturb":
                maybe()
            return ("moved",), 0.0

        def llr(a, b):
            if where == "llr":
                maybe()
            return -1e9
        inv = quiet_bayes([st], [pert], llr=llr)
        exc = "UserFunctionException"
    ch = inv.chains[0]
    ch.advance_chain(n_iterations=1, verbose=False)
    S = ch.statistics
    need(S["n_proposed_models_total"] == 1, "%d proposals counted for one iteration with %d failures", S["n_proposed_models_total"], nf)
    need(dict(S["exceptions"]) == {exc: nf}, "failures counted as %r, expected %d %s", dict(S["exceptions"]), nf, exc)
    need(count[0] >= nf + 1, "no retry after a failure")
    if where != "fwd":
        need(ch.current_state is st, "a failed proposal changed the state")


def c08_fail500(rng):
    n = [0]

    def bad(x):
        n[0] += 1
        raise Boom("always")
    inv = quiet_bayes([("s",)], [bad])
    ch = inv.chains[0]
    st = ch.current_state
    try:
        ch.advance_chain(n_iterations=1, verbose=False)
    except RuntimeError:
        need(n[0] == 500, "gave up after %d attempts", n[0])
        need(ch.current_state is st and ch.statistics["n_proposed_models_total"] == 0, "a failed iteration was counted or moved the chain")
        need(dict(ch.statistics["exceptions"]) == {"UserFunctionException": 500}, "exceptions %r", dict(ch.statistics["exceptions"]))
        return
    except Exception as e:
        need(False, "%r instead of RuntimeError after 500 failures", e)
    need(False, "no error after only failures")


def c08_499(rng):
    n = [0]

    def bad(x):
        n[0] += 1
        if n[0] % 500:
            raise Boom("always")
        return x, 0.0
    inv = quiet_bayes([0], [bad])
    inv.chains[0].advance_chain(n_iterations=2, verbose=False)
    need(n[0] == 1000 and inv.chains[0].statistics["n_proposed_models_total"] == 2, "%d attempts", n[0])


# ------------------------------------------------------------------ C09
def mk_sampler(rng, kind=None):
    kind = kind or rng.choice(["V", "PT", "SA"])
    if kind == "V":
        return kind, VanillaSampler()
    if kind == "SA":
        return kind, SimulatedAnnealing(temperature_start=rng.choice([2, 10]))
    return kind, ParallelTempering(temperature_max=5, chains_with_unit_temperature=rng.choice([.2, .4, .8, 1.0]), swap_every=rng.choice([1, 3, 7, 50]))


def c09_counts(rng):
    """state = iteration counter: what is saved says when it was saved"""
    k = rng.randint(1, 4)
    kind, smp = mk_sampler(rng)
    style = rng.choice(["obj", "dict", "State"])
    # one counter per chain inside the state; every proposal is accepted
    if style == "obj":
        start = [(c, 0) for c in range(k)]
        step = lambda s: ((s[0], s[1] + 1), 0.0)
        val = lambda ch: [x[1] for x in ch.saved_states]
    elif style == "dict":
        start = [{"c": c, "i": 0} for c in range(k)]
        step = lambda s: ({"c": s["c"], "i": s["i"] + 1}, 0.0)
        val = lambda ch: list(ch.saved_states.get("i", []))
    else:
        start = [State({"s": ParameterSpaceState(1, {"i": np.zeros(1)})}) for c in range(k)]

        def step(s):
            q = s.copy()
            q.set_param_values("s", ParameterSpaceState(1, {"i": s["s"]["i"] + 1}))
            return q, 0.0
        val = lambda ch: [int(x[0]) for x in ch.saved_states.get("s.i", [])]
    inv = quiet_bayes(start, [P(step, "step") if style == "State" else step], llr=lambda a, b: 0.0)
    temps = defaultdict(dict)

    def end(s, ch):
        temps[ch.id][ch.statistics["n_proposed_models_total"]] = ch.temperature
    smp.add_on_end_iteration(end)
    runs = [(rng.randint(1, 25), rng.randint(0, 20), rng.randint(1, 6)) for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        runs[0] = (runs[0][0], 0, 1)
    exp = defaultdict(list)
    done = 0
    for n, b, ev in runs:
        inv.run(sampler=smp, n_iterations=n, burnin_iterations=b, save_every=ev, verbose=False, parallel_config=dict(SEQ))
        for ch in inv.chains:
            tot = ch.statistics["n_proposed_models_total"]
            need(tot == done + n, "%s: %d proposals after runs of %s iterations (expected %d)", kind, tot, [r[0] for r in runs], done + n)
            for i in range(done + 1, done + n + 1):
                if i > b and (i - b) % ev == 0 and temps[ch.id][i] == 1:
                    exp[ch.id].append(i)
            need(val(ch) == exp[ch.id], "%s/%s chain %s saved iterations %s, expected %s (runs n,burnin,every = %s)", kind, style, ch.id, val(ch), exp[ch.id], runs)
        done += n


def c09_direct(rng):
    inv = quiet_bayes([0], [lambda x: (x + 1, 0.0)])
    ch = inv.chains[0]
    tot, exp = 0, []
    for _ in range(rng.randint(1, 4)):
        n, b, ev = rng.randint(0, 30), rng.randint(0, 15), rng.randint(1, 5)
        ch.advance_chain(n_iterations=n, burnin_iterations=b, save_every=ev, verbose=False)
        exp += [i for i in range(tot + 1, tot + n + 1) if i > b and (i - b) % ev == 0]
        tot += n
        need(ch.statistics["n_proposed_models_total"] == tot and list(ch.saved_states) == exp, "saved %s expected %s", ch.saved_states, exp)


def c09_library(rng):
    """chains of library states: one value saved per parameter and saved iteration"""
    par, specs, ll, ts, fw, _ = full_setup(rng)
    if not offered(par, ll):
        return
    k = rng.randint(1, 3)
    inv = BayesianInversion(par, ll, n_chains=k)
    kind, smp = mk_sampler(rng, rng.choice(["V", "SA"]))
    n, b, ev = rng.randint(5, 30), rng.randint(0, 8), rng.randint(1, 4)
    inv.run(sampler=smp, n_iterations=n, burnin_iterations=b, save_every=ev, verbose=False, parallel_config=dict(SEQ))
    m = len([i for i in range(1, n + 1) if i > b and (i - b) % ev == 0])
    for ch in inv.chains:
        need(ch.statistics["n_proposed_models_total"] == n, "%d proposals in %d iterations", ch.statistics["n_proposed_models_total"], n)
        for key in dict(ch.current_state.items()):
            if key.endswith(".n_dimensions") and specs[key[:-13]].n is not None:
                need(key not in ch.saved_states, "fixed number of dimensions saved")
                continue
            need(len(ch.saved_states.get(key, [])) == m, "%d values of %s saved, %d expected", len(ch.saved_states.get(key, [])), key, m)


# ------------------------------------------------------------------ C10
def dense_cov(std, r, n):
    i = np.arange(n)
    return std ** 2 * (r or 0.0) ** np.abs(i[:, None] - i[None, :]) if r else std ** 2 * np.eye(n)


def loglike_oracle(ts, fw, st):
    tot = 0.0
    for t, g in zip(ts, fw):
        res = np.asarray(g.value(st)) - np.asarray(t.dobs)
        ci = t.covariance_mat_inv
        if ci is not None:
            ci = np.asarray(ci)
            m = ci * np.eye(len(res)) if ci.ndim == 0 else np.diag(ci) if ci.ndim == 1 else ci
            tot -= .5 * res @ m @ res
        else:
            d = st[t.name]
            c = dense_cov(d.std, d.correlation if t.noise_is_correlated else None, len(res))
            tot -= .5 * (res @ np.linalg.solve(c, res) + np.linalg.slogdet(c)[1])
    return tot


def c10_targets(rng):
    par, specs, ll, ts, fw, st = full_setup(rng)
    st2 = par.initialize()
    ll.initialize(st2)
    if rng.random() < .4:
        st2 = st.copy()
        for t in ts:
            t.initialize(st2)
    T = rng.choice([1, 1.0, 2.0, 7.5])
    want = (loglike_oracle(ts, fw, st2) - loglike_oracle(ts, fw, st))
    got = ll.log_likelihood_ratio(st, st2, T)
    need(close(got, want / T, 1e-7), "log likelihood ratio %r, expected %r at temperature %g", got, want / T, T)
    need(close(ll.log_likelihood_ratio(st, st2), want, 1e-7), "untempered ratio")
    need(close(ll.log_likelihood_ratio(st2, st, T), -want / T, 1e-7), "not antisymmetric")
    for x in (st, st2):
        x.temperature = 9
    need(close(ll.log_likelihood_ratio(st, st2, T), want / T, 1e-7), "tempered twice")


def c10_user(rng):
    T = rng.choice([1, 2.0, 5])
    lik = lambda s: -s ** 2
    rat = lambda a, b: 3.0 * (b - a) + 1
    a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
    need(close(LogLikelihood(log_like_func=lik).log_likelihood_ratio(a, b, T), (a ** 2 - b ** 2) / T), "likelihood function mode")
    need(close(LogLikelihood(log_like_ratio_func=rat).log_likelihood_ratio(a, b, T), rat(a, b) / T), "ratio function mode")
    need(close(LogLikelihood(log_like_ratio_func=rat, log_like_func=lik).log_likelihood_ratio(a, b, T), rat(a, b) / T), "ratio function does not win")
    seen = []
    for kw in ({"log_like_ratio_func": rat}, {"log_like_func": lik}):
        inv = BaseBayesianInversion([a], [lambda x: (b, 0.0)], n_chains=1, **kw)
        ch = inv.chains[0]
        ch.temperature = T
        want = (rat(a, b) if "log_like_ratio_func" in kw else a ** 2 - b ** 2) / T
        need(close(ch._log_likelihood_ratio(b), want), "chain ratio %r expected %r", ch._log_likelihood_ratio(b), want)
    try:
        LogLikelihood()
    except ValueError:
        pass
    else:
        need(False, "a likelihood without any function was accepted")


# ------------------------------------------------------------------ C11
def c11_inverse(rng):
    n, s, r = rng.choice([1, 2, 3, 4, rng.randint(5, 40)]), rng.uniform(.05, 3), rng.choice([0.0, rng.uniform(0, .97)])
    m = both("inverse_covariance", s, r, n)
    need(m.shape == (n, n), "shape %s", m.shape)
    c = dense_cov(s, r, n)
    need(close(m @ c, np.eye(n), 1e-7), "inverse_covariance(%g, %g, %d) is not the inverse", s, r, n)


def c11_target(rng):
    n = rng.choice([1, 2, 3, rng.randint(4, 25)])
    corr = rng.random() < .6
    t = Target("d", np.zeros(n), noise_is_correlated=corr, std_min=.1, std_max=2, correlation_min=.0, correlation_max=.95)
    s, r = rng.uniform(.1, 2), rng.choice([0.0, rng.uniform(0, .95)]) if corr else None
    st = State({"d": DataNoiseState(std=s, correlation=r)})
    c = dense_cov(s, r, n)
    v = np.random.normal(size=n)
    need(close(t.inverse_covariance_times_vector(st, v), np.linalg.solve(c, v), 1e-7), "inverse covariance times vector (n=%d, s=%g, r=%s)", n, s, r)
    need(close(t.log_determinant_covariance(st), np.linalg.slogdet(c)[1], 1e-7), "log determinant %r, expected %r (n=%d, s=%g, r=%s)",
         t.log_determinant_covariance(st), np.linalg.slogdet(c)[1], n, s, r)
    m = np.random.normal(size=(n, n))
    for ci, want in ((2.5, 2.5 * v), (m, m @ v), (m[0], m[0] * v)):
        u = Target("e", np.zeros(n), covariance_mat_inv=ci)
        need(not u.is_hierarchical and close(u.inverse_covariance_times_vector(st, v), want), "given inverse covariance")


# ------------------------------------------------------------------ C14
def grid(rng, lo=1):
    n = rng.choice([lo, lo + 1, lo + 2, rng.randint(lo + 2, 12)])
    g = np.sort(np.array([rng.uniform(-5, 5) for _ in range(n)]))
    return g if len(np.unique(g)) == n else grid(rng, lo)


def query(rng, g):
    i = rng.randrange(len(g))
    return rng.choice([rng.uniform(g[0], g[-1]), float(g[i]), float(g[0]) - rng.random(), float(g[-1]) + rng.random(),
                       float(g[i] + g[min(i + 1, len(g) - 1)]) / 2, float(g[0]), float(g[-1])])


def c14_nearest(rng):
    g = grid(rng)
    for _ in range(8):
        q = query(rng, g)
        i = both("nearest_neighbour_1d", q, g, len(g))
        need(0 <= i < len(g), "nearest_neighbour_1d(%r, %s) = %d", q, g, i)
        need(abs(g[i] - q) <= np.min(np.abs(g - q)) + 1e-12, "nearest_neighbour_1d(%r, %s) = %d is not a closest site", q, g, i)


def c14_linear(rng):
    g = grid(rng)
    y = np.random.normal(size=len(g))
    qs = np.array([query(rng, g) for _ in range(rng.randint(1, 9))])
    want = np.interp(qs, g, y)
    got = both("interpolate_linear_1d", qs, g, y)
    need(close(got, want, 1e-8), "interpolate_linear_1d(%s, %s, %s) = %s, expected %s", qs, g, y, got, want)
    for q, w in zip(qs, want):
        need(close(both("interpolate_linear_1d", float(q), g, y), w, 1e-8), "interpolate_linear_1d(%r) on %s", q, g)
    need(close(both("interpolate_linear_1d", g.copy(), g, y), y, 1e-8), "values at the grid points")


def c14_nearest_interp(rng):
    g = grid(rng)
    y = np.random.normal(size=len(g))
    qs = np.array([query(rng, g) for _ in range(rng.randint(1, 9))])
    got = both("interpolate_nearest_1d", qs, g, y)
    for q, v in zip(qs, got):
        d = np.abs(g - q)
        ok = y[d <= d.min() + 1e-12]
        need(bool(np.any(np.abs(ok - v) < 1e-12)), "interpolate_nearest_1d(%r, %s) = %r", q, g, v)
        need(both("interpolate_nearest_1d", float(q), g, y) == v, "scalar and array queries differ")
    need(close(both("interpolate_nearest_1d", g.copy(), g, y), y), "values at the grid points")


def c14_insert_delete(rng):
    n = rng.randint(0, 8)
    v = np.random.normal(size=n)
    keep = v.copy()
    for i in range(n + 1):
        need(close(both("insert_1d", v, i, 7.5), np.insert(v, i, 7.5)), "insert_1d at %d of %d", i, n)
    for i in range(n):
        need(close(both("delete_1d", v, i), np.delete(v, i)), "delete_1d at %d of %d", i, n)
    need(np.array_equal(v, keep), "the input array was changed")
    if n:
        w = np.sort(v)
        need(both("is_sorted", w) and (n < 2 or not both("is_sorted", w[::-1].copy())), "is_sorted")


# ------------------------------------------------------------------ C15
def c15_extents(rng):
    g = np.abs(grid(rng)) if rng.random() < .5 else grid(rng)
    g = np.sort(g)
    n = len(g)
    lb = rng.choice([0, None, float(g[0]) - rng.random(), -3.5])
    ub = rng.choice([None, float(g[-1]) + rng.random(), 20.0])
    fv = rng.choice([0, -1.0, 2.5])
    kw = {}
    if rng.random() < .8:
        kw = {"lb": lb, "ub": ub, "fill_value": fv}
    else:
        lb, ub, fv = 0, None, 0
    mid = (g[:-1] + g[1:]) / 2
    want = np.empty(n)
    edges = [lb] + list(mid) + [ub]
    for i in range(n):
        a, b = edges[i], edges[i + 1]
        want[i] = fv if a is None or b is None else b - a
    got = Voronoi1D.compute_cell_extents(g, **kw)
    need(close(got, want, 1e-9), "compute_cell_extents(%s, %s) = %s, expected %s", g, kw, got, want)
    both("compute_voronoi1d_cell_extents", g, lb=-np.inf if lb is None else lb, ub=np.inf if ub is None else ub, fill_value=fv)


def c15_interfaces(rng):
    g = grid(rng)
    need(close(Voronoi1D.compute_interface_positions(g), (g[:-1] + g[1:]) / 2), "interfaces of sites %s", g)
    e = np.abs(np.random.normal(size=rng.randint(1, 6))) + .1
    lb = rng.uniform(-2, 2)
    need(close(Voronoi1D.compute_interface_positions(e, "extents", lb), lb + np.cumsum(e)[:-1]), "interfaces of extents %s", e)


def c15_profile(rng):
    n = rng.randint(1, 6)
    th = np.array([rng.uniform(.2, 2) for _ in range(n)])
    y = np.random.normal(size=n)
    ed = np.cumsum(th)
    x0 = np.array([rng.choice([rng.uniform(0, ed[-1] * 1.4), 0.0]) for _ in range(rng.randint(1, 8))])
    if rng.random() < .5:
        x0.sort()
    want = np.array([y[min(int(np.searchsorted(ed[:-1], q, side="right")), n - 1)] for q in x0])
    got = both("interpolate_depth_profile", th, y, x0)
    need(close(got, want), "interpolate_depth_profile(%s, %s, %s) = %s, expected %s", th, y, x0, got, want)
    got = Voronoi1D.interpolate_tessellation(list(th), list(y), x0, input_type="extents")
    need(close(got, want), "layered tessellation")


def c15_2d(rng):
    n = rng.randint(1, 7)
    s, v = np.random.uniform(0, 5, (n, 2)), np.random.normal(size=n)
    q = np.random.uniform(-1, 6, (rng.randint(1, 6), 2))
    got = Voronoi2D.interpolate_tessellation(s, v, q)
    want = v[np.argmin(np.linalg.norm(s[None] - q[:, None], axis=2), axis=1)]
    need(close(got, want), "2-D interpolation is not the nearest site's value")
    g = grid(rng)
    y = np.random.normal(size=len(g))
    x = np.array([query(rng, g) for _ in range(5)])
    got = Voronoi1D.interpolate_tessellation(g, y, x)
    for a, b in zip(x, got):
        d = np.abs(g - a)
        need(bool(np.any(np.abs(y[d <= d.min() + 1e-12] - b) < 1e-12)), "1-D tessellation at %r", a)
    ss = [grid(rng, 1) for _ in range(3)]
    ys = [np.random.normal(size=len(a)) for a in ss]
    st = Voronoi1D.get_tessellation_statistics(ss, ys, x)
    m = np.array([Voronoi1D.interpolate_tessellation(a, b, x) for a, b in zip(ss, ys)])
    need(close(st["mean"], m.mean(0)) and close(st["median"], np.median(m, 0)) and close(st["std"], m.std(0))
         and close(st["percentiles"], np.percentile(m, (10, 90), axis=0)), "tessellation statistics")


# ------------------------------------------------------------------ C16
def c16_ladder(rng):
    k = rng.choice([1, 2, 3, rng.randint(4, 14)])
    tm, fr = rng.choice([2, 5, 20.0]), rng.choice([0.0, .1, .4, .5, .9, 1.0])
    inv = quiet_bayes([0.0] * k, [lambda x: (x + random.gauss(0, 1), 0.0)], llr=lambda a, b: (a ** 2 - b ** 2) / 2)
    smp = ParallelTempering(temperature_max=tm, chains_with_unit_temperature=fr, swap_every=rng.choice([1, 2, 5]))
    ladders = []
    smp.add_on_initialize(lambda s, c: ladders.append([float(x.temperature) for x in c]))
    seen = []

    def end(s):
        seen.append([float(x.temperature) for x in s.chains])
    smp.add_on_end_advance_chain(end)
    inv.run(sampler=smp, n_iterations=rng.randint(1, 15), burnin_iterations=0, save_every=1, verbose=False, parallel_config=dict(SEQ))
    T0 = ladders[0]
    need(any(t == 1.0 for t in T0), "no chain at temperature exactly 1: %s", T0)
    need(all(1.0 <= t <= tm * (1 + 1e-12) for t in T0), "temperatures outside 1..%g: %s", tm, T0)
    for t in seen:
        need(Counter(t) == Counter(T0), "the temperatures changed from %s to %s", sorted(T0), sorted(t))
        need(len(t) == k, "chains lost")


def c16_swap(rng):
    """empirical swap probability of two chains against the rule"""
    T1, T2 = 1.0, rng.choice([2.0, 5.0])
    # untempered log likelihood ratio of state b to state a
    L = rng.choice([-1.5, -.6, .8, 2.0])

    def llr(a, b):
        return 0.0 if a == b else (L if (a, b) == ("x", "y") else -L)
    inv = quiet_bayes(["x", "y"], [lambda x: (x, -math.inf)], llr=llr)
    smp = ParallelTempering(temperature_max=T2, swap_every=10)
    smp.initialize(inv.chains)
    smp.parallel_config = dict(SEQ)
    a, b = smp.chains
    n, moves = 700, 0
    p = min(1.0, math.exp((1 / T1 - 1 / T2) * L))           # x at T1, y at T2
    q = min(1.0, math.exp((1 / T2 - 1 / T1) * L))
    # an event performs len(chains) = 2 independent trials
    tr = np.array([[1 - p, p], [q, 1 - q]])
    tr2 = tr @ tr
    for _ in range(n):
        a.temperature, b.temperature = T1, T2
        smp.end_advance_chain()
        moves += a.temperature == T2
        need({float(a.temperature), float(b.temperature)} == {T1, T2}, "temperatures changed to %s", (a.temperature, b.temperature))
        need((a.current_state, b.current_state) == ("x", "y"), "a swap changed a state")
    alt = {1: tr, 2: tr2}
    pv = binom_p(moves, n, float(tr2[0, 1]))
    need(pv > ALPHA, "%d of %d swap events ended swapped; the rule gives %.3f", moves, n, tr2[0, 1])


def c16_exact(rng):
    """pinned draws: each decision is the documented one; temperatures of states follow their chains"""
    k = rng.randint(2, 5)
    sts = [State({"s": ParameterSpaceState(1, {"v": np.array([rng.gauss(0, 2)])})}) for _ in range(k)]
    calls = []

    def llr(a, b):
        d = float(-b["s"]["v"][0] ** 2 + a["s"]["v"][0] ** 2)
        calls.append((id(a), id(b), d))
        return d
    inv = quiet_bayes(sts, [P(lambda x: (x, -math.inf), "g")], llr=llr)
    smp = ParallelTempering(temperature_max=6)
    smp.initialize(inv.chains)
    smp.parallel_config = dict(SEQ)
    for i, c in enumerate(smp.chains):
        c.temperature = 1.0 + i
    T0 = [float(c.temperature) for c in smp.chains]
    pics = [freeze(c.current_state)[2] for c in smp.chains]
    for _ in range(5):
        smp.end_advance_chain()
        need(Counter(float(c.temperature) for c in smp.chains) == Counter(T0), "multiset of temperatures changed")
        need([freeze(c.current_state)[2] for c in smp.chains] == pics, "a swap changed chain states")
        for c in smp.chains:
            need(c.current_state.temperature == c.temperature, "state temperature %r, chain temperature %r", c.current_state.temperature, c.temperature)


# ------------------------------------------------------------------ C17
def c17_schedule(rng):
    start, b, n = rng.choice([2, 10, 5.5]), rng.choice([0, 1, rng.randint(2, 12)]), rng.randint(1, 18)
    lib = rng.random() < .4
    if lib:
        par = Parameterization(ParameterSpace("s", 1, parameters=[UniformPrior("a", 0, 1, .1)]))
        inv = BayesianInversion(par, LogLikelihood(log_like_ratio_func=lambda x, y: 0.0), n_chains=2)
    else:
        inv = quiet_bayes([0, 0], [lambda x: (x + 1, 0.0)])
    smp = SimulatedAnnealing(temperature_start=start)
    used = defaultdict(dict)

    def beg(s, ch):
        used[ch.id][ch.statistics["n_proposed_models_total"]] = ch.temperature
        if isinstance(ch.current_state, State):
            need(ch.current_state.temperature == ch.temperature, "the state's temperature %r differs from the chain's %r", ch.current_state.temperature, ch.temperature)
    smp.add_on_begin_iteration(beg)
    smp.add_on_end_iteration(lambda s, ch: need(not isinstance(ch.current_state, State) or ch.current_state.temperature == ch.temperature,
                                                "state and chain temperature differ after an iteration"))
    runs = rng.randint(1, 3)
    for _ in range(runs):
        inv.run(sampler=smp, n_iterations=n, burnin_iterations=b, save_every=1, verbose=False, parallel_config=dict(SEQ))
    for c, d in used.items():
        need(sorted(d) == list(range(runs * n)), "iterations %s", sorted(d))
        for i, t in d.items():
            w = start ** (1 - i / b) if i < b else 1.0
            need(close(t, w, 1e-9), "temperature %r at iteration %d of a burn-in of %d from %g, expected %r", t, i, b, start, w)
            need(i < b or t == 1, "temperature %r after burn-in", t)


def c17_state(rng):
    inv = quiet_bayes([State({"s": ParameterSpaceState(1, {"v": np.zeros(1)})})], [P(lambda s: (s.copy(), 0.0), "g")])
    ch = inv.chains[0]
    ch.temperature = rng.choice([1, 3.0])
    ch.advance_chain(n_iterations=4, verbose=False)
    need(ch.current_state.temperature == ch.temperature, "state temperature %r, chain %r", ch.current_state.temperature, ch.temperature)


# ------------------------------------------------------------------ C18
def all_instances(st, name):
    """every instance of parameter space `name` at any depth, in a fixed order, with its address"""
    out = []

    def walk(o, path):
        for k in sorted(o.param_values):
            v = o.param_values[k]
            if isinstance(v, ParameterSpaceState):
                if k == name:
                    out.append((path + (k,), v))
                walk(v, path + (k,))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if k == name:
                        out.append((path + (k, i), x))
                    walk(x, path + (k, i))
    walk(st, ())
    return out


def own(ps):
    """an instance's own content"""
    return freeze(ps)


def spec_of(specs, path):
    s = specs[path[0]]
    for k in path[1:]:
        if not isinstance(k, int):
            s = s.params[k]
    return s


def change_ratio(s, old, new):
    """log ratio the change of one instance must have returned"""
    if new.n_dimensions == old.n_dimensions + 1:
        i = find_new(old, new)
        need(i is not None, "a birth changed other cells")
        return birth_oracle(s, new, i, old)
    if new.n_dimensions == old.n_dimensions - 1:
        i = find_new(new, old)
        need(i is not None, "a death changed other cells")
        return -birth_oracle(s, old, i, new)
    o, w = [cell(old, i) for i in range(old.n_dimensions)], [cell(new, i) for i in range(old.n_dimensions)]
    a = [i for i in range(len(o)) if o[i] not in w]
    b = [i for i in range(len(w)) if w[i] not in o]
    need(len(a) == len(b) == 1, "%d cells changed", len(a))
    a, b = a[0], b[0]
    r = 0.0
    for k, x in s.params.items():
        if isinstance(x, PriorSpec):
            po = old["discretization"][a] if s.kind != "P" else None
            pn = new["discretization"][b] if s.kind != "P" else None
            if x.position is not None or old[k][a] != new[k][b]:
                r += x.lp(new[k][b], pn) - x.lp(old[k][a], po)
    return r


def c18_apply(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, depth=2, with_targets=rng.random() < .3)
    fs = [x for x, w in zip(par.perturbation_funcs, par.perturbation_weights) if w > 0]
    for _ in range(6 if fs else 0):
        fn = rng.choice(fs)
        name = fn.param_space_name
        old = all_instances(st, name)
        pre = freeze(st)
        new, r = fn(st)
        need(freeze(st) == pre, "%r changed the given state", fn)
        if np.isinf(f(r)):
            need(f(r) < 0, "log ratio %r", r)
            continue
        neu = dict(all_instances(new, name))
        need([p for p, _ in old] == list(neu), "%r changed the set of instances", fn)
        ch = [(p, o) for p, o in old if own(o) != own(neu[p])]
        need(len(ch) == 1, "%r changed %d of %d instances", fn, len(ch), len(old))
        p, o = ch[0]
        # everything outside that instance is unchanged
        tmp = new.copy()

        def put(x, path, v):
            if len(path) == 1:
                x.set_param_values(path[0], v)
            elif isinstance(path[1], int):
                if len(path) == 2:
                    l = list(x[path[0]])
                    l[path[1]] = v
                    x.set_param_values(path[0], l)
                else:
                    put(x[path[0]][path[1]], path[2:], v)
            else:
                put(x[path[0]], path[1:], v)
        put(tmp, p, o.copy())
        need(freeze(tmp) == pre, "%r changed something outside the chosen instance", fn)
        s = spec_of(specs, p)
        check_ps(s, neu[p], f"proposal of {fn!r}")
        want = change_ratio(s, o, neu[p])
        need(close(f(r), want, 1e-8), "%r returned log ratio %r, expected %r", fn, r, want)
        st = new


def c18_uniform(rng):
    """the instance is chosen uniformly at any depth"""
    inner = ParameterSpace("in", 2, parameters=[GaussianPrior("g", 0, 1, .5)])
    mid = Voronoi1D("mid", vmin=0, vmax=1, perturb_std=.01, n_dimensions=2, parameters=[inner]) if rng.random() < .5 else \
        ParameterSpace("mid", 2, parameters=[inner, GaussianPrior("h", 0, 1, .5)])
    k = rng.randint(1, 3)
    top = [ParameterSpace("top", k, parameters=[mid])]
    if rng.random() < .5:
        top.append(ParameterSpace("oth", 1, parameters=[GaussianPrior("z", 0, 1, 1)]))
    par = Parameterization(top)
    st = par.initialize()
    fn = [x for x in par.perturbation_funcs if x.param_space_name == "in"][0]
    addr = [p for p, _ in all_instances(st, "in")]
    cnt = Counter()
    n = 250
    for _ in range(n):
        new, r = fn(st)
        neu = dict(all_instances(new, "in"))
        c = [p for p, o in all_instances(st, "in") if own(o) != own(neu[p])]
        need(len(c) == 1, "%d instances changed", len(c))
        cnt[c[0]] += 1
    need(chi2_p([cnt[p] for p in addr], [1 / len(addr)] * len(addr)) > ALPHA, "instances chosen %s", [cnt[p] for p in addr])


def offered_types(par):
    """space name -> Counter of (function class, is it the site move), weights"""
    out = {}
    for fn, w in zip(par.perturbation_funcs, par.perturbation_weights):
        need(isinstance(fn, ParamSpacePerturbation), "unexpected perturbation %r", fn)
        out.setdefault(fn.param_space_name, []).append((fn, w))
    return out


def c18_offer(rng):
    spaces, specs = [], {}
    for i in range(rng.randint(1, 3)):
        a, b = gen_space(rng, f"s{i}", depth=2)
        spaces.append(a)
        specs[a.name] = b
    par = Parameterization(spaces if len(spaces) > 1 or rng.random() < .5 else spaces[0])
    got = offered_types(par)
    want = {}

    def walk(s):
        want[s.name] = s
        for x in s.params.values():
            if isinstance(x, SpaceSpec):
                walk(x)
    for s in specs.values():
        walk(s)
    need(set(got) == set(want), "spaces with perturbations %s, expected %s", sorted(got), sorted(want))
    for nm, l in got.items():
        need(len(l) == 1, "%s has %d combined perturbations", nm, len(l))
        fn, w = l[0]
        s = want[nm]
        fs, ws = fn.perturbation_funcs, fn.perturbation_weights
        need(len(fs) == len(ws) and all(x > 0 for x in ws), "weights %s", ws)
        b = [x for x, y in zip(ws, fs) if isinstance(y, BirthPerturbation)]
        d = [x for x, y in zip(ws, fs) if isinstance(y, DeathPerturbation)]
        if s.n is None:
            need(len(b) == len(d) == 1 and b == d, "%s: birth weights %s, death weights %s", nm, b, d)
        else:
            need(not b and not d, "%s has a fixed dimension but offers birth or death", nm)
        pv = [y for y in fs if isinstance(y, ParamPerturbation)]
        site = [y for y in pv if any(isinstance(p, Discretization) for p in y.parameters)]
        val = [y for y in pv if y not in site]
        need(len(site) == (s.kind != "P"), "%s: %d site moves", nm, len(site))
        scal = {k for k, x in s.params.items() if isinstance(x, PriorSpec)}
        need((len(val) == 1) == bool(scal) and len(val) <= 1, "%s: %d value moves for %s", nm, len(val), scal)
        if val:
            need({p.name for p in val[0].parameters} == scal, "%s: value move of %s, scalars %s", nm, [p.name for p in val[0].parameters], scal)
        need(len(fs) == len(b) + len(d) + len(pv), "%s offers something else: %s", nm, fs)
        need(w == sum(ws), "%s: weight %s for parts %s", nm, w, ws)
    ts = gen_targets(rng)
    ll = LogLikelihood(ts, [Fwd(1, t.dobs.size) for t in ts])
    hier = [t for t in ts if t.is_hierarchical]
    need(len(ll.perturbation_funcs) == len(ll.perturbation_weights) == bool(hier), "noise perturbations %s for %d unknown-noise targets", ll.perturbation_funcs, len(hier))
    if hier:
        need([t.name for t in ll.perturbation_funcs[0].targets] == [t.name for t in hier] and ll.perturbation_weights[0] > 0, "noise perturbation of other targets")
    inv = BayesianInversion(par, ll, n_chains=2)
    for ch in inv.chains:
        need(list(ch.perturbation_funcs) == list(par.perturbation_funcs) + list(ll.perturbation_funcs), "chain perturbations")
        need(list(ch.perturbation_weights) == list(par.perturbation_weights) + list(ll.perturbation_weights), "chain weights")


def c18_pairs(rng):
    """user supplied birth and death with different weights"""
    sp = [gen_space(rng, f"s{i}", rng.choice(["P", "V1"]), depth=0, trans=True)[0] for i in range(rng.randint(1, 2))]
    fs, ws = [], []
    for s in sp:
        fs += [BirthPerturbation(s), DeathPerturbation(s)]
        ws += [rng.choice([1, 2, 3.5]), rng.choice([1, 2, 5])]
    fs.append(P(lambda x: (x, 0.0), "other"))
    ws.append(4)
    order = list(range(len(fs)))
    rng.shuffle(order)
    f2, w2 = [fs[i] for i in order], [ws[i] for i in order]
    st = Parameterization(sp).initialize()
    inv = quiet_bayes([st], list(f2), list(w2))

    def verify(x, where):
        for s in sp:
            b = [w for g, w in zip(x.perturbation_funcs, x.perturbation_weights) if isinstance(g, BirthPerturbation) and g.param_space_name == s.name]
            d = [w for g, w in zip(x.perturbation_funcs, x.perturbation_weights) if isinstance(g, DeathPerturbation) and g.param_space_name == s.name]
            u = [w for g, w in zip(fs, ws) if isinstance(g, BirthPerturbation) and g.param_space_name == s.name]
            need(b == u and d == u, "%s: birth weight %s, death weight %s, user gave birth %s", where, b, d, u)
        o = [w for g, w in zip(x.perturbation_funcs, x.perturbation_weights) if not isinstance(g, (BirthPerturbation, DeathPerturbation))]
        need(o == [4], "another weight changed to %s", o)
    verify(inv, "inversion")
    for ch in inv.chains:
        verify(ch, "chain")
    inv.set_perturbation_funcs(list(f2), list(w2))
    for ch in inv.chains:
        verify(ch, "chain after set_perturbation_funcs")
    for bad in ([fs[0]], [fs[0], fs[0], fs[1]]):
        try:
            quiet_bayes([st], list(bad))
        except ValueError:
            continue
        need(False, "unpaired birth/death accepted")


# ------------------------------------------------------------------ C19
def c19_results(rng):
    k = rng.randint(1, 4)
    kind = rng.choice(["dict", "obj", "State"])
    if kind == "obj":
        start = [(c, 0) for c in range(k)]
        step = lambda s: ((s[0], s[1] + 1), 0.0)
    elif kind == "dict":
        start = [{"a": c, "b": 0, "c.n_dimensions": 1} for c in range(k)]
        step = lambda s: ({"a": s["a"], "b": s["b"] + 1, "c.n_dimensions": 1}, 0.0)
    else:
        start = [State({"s": ParameterSpaceState(2, {"v": np.array([c, 0.])}), "d": DataNoiseState(1.0 + c, None)}) for c in range(k)]

        def step(s):
            q = s.copy()
            q.set_param_values("s", ParameterSpaceState(2, {"v": s["s"]["v"] + np.array([0, 1.])}))
            return q, 0.0
        step.__name__ = "step"
    inv = quiet_bayes(start, [step])
    n = rng.randint(1, 12)
    for _ in range(rng.randint(1, 2)):
        inv.run(n_iterations=n, save_every=rng.randint(1, 3), verbose=False, parallel_config=dict(SEQ))
    chains = inv.chains
    pic = [freeze(dict(c.saved_states) if kind != "obj" else list(c.saved_states)) for c in chains]
    for cat in (True, False):
        if kind == "obj":
            got = inv.get_results(concatenate_chains=cat)
            want = [x for c in chains for x in c.saved_states] if cat else [list(c.saved_states) for c in chains]
            need(same(got, want), "results %s, saved %s", got, want)
            got = BaseBayesianInversion.get_results_from_chains(chains[0], concatenate_chains=cat)
            want = list(chains[0].saved_states) if cat else [list(chains[0].saved_states)]
            need(same(got, want), "results of one chain")
        else:
            allk = list(chains[0].saved_states)
            for keys in (None, rng.choice(allk) if allk else None, [x for x in allk if rng.random() < .5] + ["missing"], "missing"):
                got = inv.get_results(keys, concatenate_chains=cat)
                ks = allk if keys is None else [x for x in allk if x in ([keys] if isinstance(keys, str) else keys)]
                need(type(got) is dict and set(got) == set(ks), "keys %s for request %s, expected %s", list(got), keys, ks)
                for x in ks:
                    want = [v for c in chains for v in c.saved_states[x]] if cat else [list(c.saved_states[x]) for c in chains]
                    need(same(list(got[x]), want), "results for %s (concatenate=%s): %s, saved %s", x, cat, got[x], want)
    need(pic == [freeze(dict(c.saved_states) if kind != "obj" else list(c.saved_states)) for c in chains], "extraction changed the chains")
    try:
        BaseBayesianInversion.get_results_from_chains([1])
    except TypeError:
        pass
    else:
        need(False, "something that is no chain accepted")
    inv.chains = list(chains)
    need(inv.chains == list(chains) and inv.n_chains == k, "chains setter")


def c19_ragged(rng):
    """chains that saved different keys or nothing (parallel tempering)"""
    sts = [{"a": i, "b": 0} for i in range(4)]
    inv = quiet_bayes(sts, [lambda s: ({"a": s["a"], "b": s["b"] + 1}, 0.0)])
    inv.run(sampler=ParallelTempering(swap_every=2), n_iterations=9, save_every=1, verbose=False, parallel_config=dict(SEQ))
    got = inv.get_results()
    want = [v for c in inv.chains for v in c.saved_states.get("b", [])]
    need(list(got.get("b", [])) == want and len(want) > 0, "results %s expected %s", got.get("b"), want)


# ------------------------------------------------------------------ C20
class Rec(Sampler):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def on_initialize(self, chains):
        self.log.append(("init", "own", tuple(c.id for c in chains)))

    def on_begin_iteration(self, chain):
        self.log.append(("begin", "own", chain.id, chain.statistics["n_proposed_models_total"]))

    def on_end_iteration(self, chain):
        self.log.append(("end", "own", chain.id, chain.statistics["n_proposed_models_total"]))

    def on_end_advance_chain(self):
        self.log.append(("adv", "own"))

    def run(self, n_iterations, burnin_iterations=0, save_every=100, verbose=True, print_every=100):
        return self.advance_chain(n_iterations=n_iterations, burnin_iterations=burnin_iterations, save_every=save_every, verbose=verbose, print_every=print_every)


def c20_callbacks(rng):
    log = []
    base = rng.choice([None, VanillaSampler, SimulatedAnnealing, ParallelTempering])
    smp = Rec(log) if base is None else base()
    if base is ParallelTempering:
        smp = ParallelTempering(swap_every=1000)
    m = rng.randint(1, 3)
    for j in range(m):
        smp.add_on_initialize(lambda s, c, j=j: (need(s is smp, "sampler not passed"), log.append(("init", j, tuple(x.id for x in c))))[0])
        smp.add_on_begin_iteration(lambda s, c, j=j: (need(s is smp, "sampler not passed"), log.append(("begin", j, c.id, c.statistics["n_proposed_models_total"])))[0])
        smp.add_on_end_iteration(lambda s, c, j=j: (need(s is smp, "sampler not passed"), log.append(("end", j, c.id, c.statistics["n_proposed_models_total"])))[0])
        smp.add_on_end_advance_chain(lambda s, j=j: (need(s is smp, "sampler not passed"), log.append(("adv", j)))[0])
    k, n = rng.randint(1, 3), rng.randint(1, 6)
    inv = quiet_bayes([0] * k, [lambda x: (x + 1, 0.0)])
    inv.run(sampler=smp, n_iterations=n, burnin_iterations=rng.randint(0, 3), save_every=1, verbose=False, parallel_config=dict(SEQ))
    who = (["own"] if base is None else []) + list(range(m))
    want = [("init", w, tuple(range(k))) for w in who]
    for c in range(k):
        for i in range(n):
            want += [("begin", w, c, i) for w in who] + [("end", w, c, i + 1) for w in who]
    want += [("adv", w) for w in who]
    if base is ParallelTempering:      # advances once more with zero iterations
        while len(log) > len(want) and log[len(want):len(want) + len(who)] == [("adv", w) for w in who]:
            want += [("adv", w) for w in who]
    need(log == want, "callbacks ran as %s..., expected %s...", log[:12], want[:12])
    need([c.id for c in inv.chains] == list(range(k)) and [c.id for c in smp.chains] == list(range(k)), "chains reordered")


def c20_own_first(rng):
    """the sampler's own action comes before the registered ones"""
    seen = []
    smp = SimulatedAnnealing(temperature_start=9)
    smp.add_on_initialize(lambda s, c: seen.append([x.temperature for x in c]))
    smp.add_on_begin_iteration(lambda s, c: seen.append(c.temperature))
    inv = quiet_bayes([0], [lambda x: (x, 0.0)])
    inv.run(sampler=smp, n_iterations=3, burnin_iterations=2, save_every=1, verbose=False, parallel_config=dict(SEQ))
    need(seen[0] == [9] and close(seen[1:], [9, 3, 1]), "own action after the callbacks: %s", seen)


def c20_direct(rng):
    """advance_chain without callbacks, and chains run in threads"""
    inv = quiet_bayes([0, 10, 20], [lambda x: (x + 1, 0.0)])
    inv.chains[0].advance_chain(2, verbose=False)
    smp = VanillaSampler()
    ev = Counter()
    smp.add_on_end_iteration(lambda s, c: ev.update([c.id]))
    adv = []
    smp.add_on_end_advance_chain(lambda s: adv.append(1))
    n = rng.randint(1, 6)
    inv.run(sampler=smp, n_iterations=n, save_every=1, verbose=False, parallel_config={"n_jobs": 2, "backend": "threading"})
    need([c.id for c in inv.chains] == [0, 1, 2] and [c.id for c in smp.chains] == [0, 1, 2], "chains reordered in parallel")
    need([c.current_state for c in inv.chains] == [2 + n, 10 + n, 20 + n], "chains advanced to %s", [c.current_state for c in inv.chains])
    need(ev == Counter({0: n, 1: n, 2: n}) and adv == [1], "callbacks in threads: %s %s", dict(ev), adv)


def _step(x):
    return x + 1, 0.0


def _llr(a, b):
    return 0.0


def c20_processes(rng):
    inv = BaseBayesianInversion([0, 10, 20], [_step], log_like_ratio_func=_llr, n_chains=3)
    smp = VanillaSampler()
    adv = []
    for r in range(2):
        inv.run(sampler=smp, n_iterations=4, save_every=1, verbose=False, parallel_config={"n_jobs": 2})
    need([c.id for c in inv.chains] == [0, 1, 2], "chains reordered by processes")
    need([c.current_state for c in inv.chains] == [8, 18, 28] and all(c.statistics["n_proposed_models_total"] == 8 for c in inv.chains), "chains advanced to %s", [c.current_state for c in inv.chains])
    need(list(inv.get_results()) == [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 23, 24, 25, 26, 27, 28], "samples %s", inv.get_results())


# ------------------------------------------------------------------ C21
def totals(d):
    return sum(sum(v.values()) if isinstance(v, dict) else v for v in d.values())


def c21_stats(rng):
    par, specs, ll, ts, fw, st = full_setup(rng)
    if not offered(par, ll):
        return
    inv = BayesianInversion(par, ll, n_chains=1)
    ch = inv.chains[0]
    n = rng.randint(1, 40)
    acc = 0
    for i in range(n):
        before = ch.current_state
        pre = {k: (dict(v) if isinstance(v, dict) else v) for k, v in ch.statistics["n_proposed_models"].items()}
        ch.advance_chain(n_iterations=1, verbose=False)
        acc += ch.current_state is not before
        S = ch.statistics
        need(S["n_proposed_models_total"] == i + 1, "total %r after %d iterations", S["n_proposed_models_total"], i + 1)
        need(S["n_accepted_models_total"] == acc, "accepted total %r, %d accepted", S["n_accepted_models_total"], acc)
        need(close(totals(S["n_proposed_models"]), i + 1), "per-type proposed counts %s do not add up to %d", dict(S["n_proposed_models"]), i + 1)
        need(close(totals(S["n_accepted_models"]), acc), "per-type accepted counts do not add up to %d", acc)
        inc = []
        for k, v in S["n_proposed_models"].items():
            if isinstance(v, dict):
                for kk, x in v.items():
                    need(S["n_accepted_models"][k].get(kk, 0) <= x, "more accepted than proposed")
                    if x != (pre.get(k) or {}).get(kk, 0):
                        inc.append(x - (pre.get(k) or {}).get(kk, 0))
            else:
                need(S["n_accepted_models"][k] <= v, "more accepted than proposed")
                if v != (pre.get(k) or 0):
                    inc.append(v - (pre.get(k) or 0))
        need(inc == [1], "one iteration changed the counts by %s", inc)
        need(set(S["n_proposed_models"]) <= set(ch.perturbation_types), "unknown type in %s", list(S["n_proposed_models"]))


def c21_types(rng):
    hit = Counter()

    def mk(i, r):
        def g(x):
            hit[f"g{i}"] += 1
            return x + 1, r
        return P(g, f"g{i}")
    rs = [rng.choice([5.0, -math.inf, -.5]) for _ in range(3)]
    inv = quiet_bayes([0], [mk(i, r) for i, r in enumerate(rs)], [1, 2, 1])
    ch = inv.chains[0]
    n = rng.randint(1, 60)
    ch.advance_chain(n_iterations=n, verbose=False)
    need({k: v for k, v in ch.statistics["n_proposed_models"].items()} == dict(hit), "counts %s, applied %s", dict(ch.statistics["n_proposed_models"]), dict(hit))
    need(sum(ch.statistics["n_accepted_models"].values()) == ch.statistics["n_accepted_models_total"] == ch.current_state, "accepted %s", dict(ch.statistics["n_accepted_models"]))
    for i, r in enumerate(rs):
        if f"g{i}" in hit:
            a = ch.statistics["n_accepted_models"][f"g{i}"]
            need(a == (hit[f"g{i}"] if r == 5.0 else 0 if r == -math.inf else a), "accepted %d of %d with log ratio %g", a, hit[f"g{i}"], r)


# ------------------------------------------------------------------ C22
def c22_hyper(rng):
    from bayesbay.exceptions._exceptions import OutOfDomainException
    dom = rng.choice([None, DOM1, DOM1, DOM2])
    p, s = gen_prior(rng, "p", dom, rng.choice("UGL"), force_pos=dom is not None)
    get = {"U": ["vmin", "vmax"], "G": ["mean", "std"], "L": ["mean", "scale"]}[s.kind] + ["perturb_std"]
    for _ in range(6):
        pos = rand_pos(rng, dom)
        if s.position is not None and rng.random() < .3:
            i = rng.randrange(len(s.position))
            pos = s.position[i]
            if np.ndim(pos):
                pos = np.array(pos)
            for h in get:
                v = s.hyper[h]
                if not np.isscalar(v) and np.ndim(pos) == 0:
                    need(close(p.get_hyper_param(h, float(pos)), v[i], 1e-8), "%s at grid position %r: %r, given %r", h, pos, p.get_hyper_param(h, float(pos)), v[i])
        if s.position is not None and s.position.ndim == 1 and rng.random() < .4:
            pos = rng.choice([s.position[0] - rng.random() * 3, s.position[-1] + rng.random() * 3])
        for h in get:
            with np.errstate(all="ignore"):
                got = p.get_hyper_param(h, pos)
                if np.ndim(pos) and np.isnan(s.h(h, pos)):
                    continue
            need(close(f(got), s.h(h, pos), 1e-8), "%s(%r) = %r, expected %r", h, pos, got, s.h(h, pos))
        need(close(f(p.get_perturb_std(pos)), s.std(pos), 1e-8) and close(f(p.get_perturb_std_birth(pos)), s.std(pos, True), 1e-8), "perturbation std at %r", pos)
        if s.kind == "U":
            a, b = p.get_vmin_vmax(pos)
            need(close(f(a), s.h("vmin", pos)) and close(f(b), s.h("vmax", pos)), "bounds at %r", pos)
    if dom is DOM2 and s.position is not None:
        far = np.array([100., 100.])
        for h in get:
            if not np.isscalar(s.hyper[h]):
                try:
                    v = p.get_hyper_param(h, far)
                except OutOfDomainException:
                    continue
                need(False, "%s at %s outside the given positions returned %r", h, far, v)
    if s.position is not None:
        for h in get:
            if not np.isscalar(s.hyper[h]):
                try:
                    v = p.get_hyper_param(h)
                except ValueError:
                    continue
                need(False, "%s without a position returned %r", h, v)


def c22_initialize(rng):
    """each initial value uses the hyper-parameters of its own position"""
    dim = rng.choice([1, 2])
    kind = rng.choice("UGL")
    m = 3
    if dim == 1:
        pos = np.array([0., 1., 2.])
        q = np.array([0., 1., 2., .5, 1.5])
        at = lambda v, x: np.interp(x, pos, v)
    else:
        pos = np.array([[0., 0.], [10., 0.], [0., 10.]])
        q = np.array([[0., 0.], [10., 0.], [0., 10.], [5., 0.], [2.5, 2.5]])
        at = lambda v, x: v[0] + (v[1] - v[0]) * x[0] / 10 + (v[2] - v[0]) * x[1] / 10
    c = np.array([0., 100., -100.])
    w = np.array([1., 2., 3.])
    if kind == "U":
        p = UniformPrior("p", c - w, c + w, .1, position=pos)
        lo = lambda i: (at(c, q[i]) - at(w, q[i]), at(c, q[i]) + at(w, q[i]))
    elif kind == "G":
        p = GaussianPrior("p", c, w * .1, .1, position=pos)
        lo = lambda i: (at(c, q[i]) - at(w, q[i]) * .7, at(c, q[i]) + at(w, q[i]) * .7)
    else:
        p = LaplacePrior("p", c, w * .05, .1, position=pos)
        lo = lambda i: (at(c, q[i]) - at(w, q[i]) * 1.2, at(c, q[i]) + at(w, q[i]) * 1.2)
    v = p.initialize(q)
    need(np.shape(v) == (len(q),), "%d positions, initial values of shape %s", len(q), np.shape(v))
    for i in range(len(q)):
        a, b = lo(i)
        need(a <= v[i] <= b, "initial value %r at position %s, expected around %r..%r", v[i], q[i], a, b)


def c22_init_dist(rng):
    import scipy.stats
    kind = rng.choice("UGLC")
    p, s = gen_prior(rng, "p", None, kind)
    v = p.initialize(np.empty(1500))
    d = [p.sample() for _ in range(1500)]
    if kind == "U":
        cdf = scipy.stats.uniform(s.hyper["vmin"], s.hyper["vmax"] - s.hyper["vmin"]).cdf
    elif kind == "G":
        cdf = scipy.stats.norm(s.hyper["mean"], s.hyper["std"]).cdf
    elif kind == "L":
        cdf = scipy.stats.laplace(s.hyper["mean"], s.hyper["scale"]).cdf
    else:
        cdf = scipy.stats.norm(1.0, .7).cdf
    need(len(v) == 1500 and ks_p(v, cdf) > ALPHA, "%s initial values do not follow the prior", kind)
    need(ks_p([f(x) for x in d], cdf) > ALPHA, "%s samples do not follow the prior", kind)


def c22_dict_init(rng):
    p = UniformPrior("p", 0, 1, .1)
    p.set_custom_initialize(lambda prior, positions: np.full(len(positions), .25))
    need(list(p.initialize(np.empty(3))) == [.25] * 3, "custom initialize")


# ------------------------------------------------------------------ C23
def c23_args(rng):
    got = []

    def user(*a, **k):
        got.append((a, k))
        return tok
    ex, kw = [object() for _ in range(rng.randint(0, 3))], {f"k{i}": object() for i in range(rng.randint(0, 2))}
    forms = [(user, [], {})]
    if ex:
        forms += [((user, tuple(ex)), ex, {}), ((user, list(ex)), ex, {})]
    if kw:
        forms += [((user, kw), [], kw)]
    if ex and kw:
        forms += [((user, tuple(ex), kw), ex, kw), ((user, list(ex), kw), ex, kw)]
    forms.append(((user,), [], {}))
    form, ea, ek = rng.choice(forms)
    where = rng.choice(["perturb", "ratio", "like", "fwd"])
    if where == "perturb":
        tok = (1, -math.inf)
        inv = quiet_bayes([0], [form])
        r = inv.chains[0].perturbation_funcs[0](5)
        need(r is tok, "result replaced")
        lib = (5,)
    elif where == "ratio":
        tok = 2.5
        need(LogLikelihood(log_like_ratio_func=form).log_likelihood_ratio(3, 4) == 2.5, "result changed")
        lib = (3, 4)
    elif where == "like":
        tok = 2.5
        LogLikelihood(log_like_func=form).log_likelihood_ratio(3, 4)
        lib = None
        need(sorted(x[0][0] for x in got) == [3, 4], "called with %s", got)
        for a, k in got:
            need(list(a[1:]) == list(ea) and k == ek, "called with %s %s, expected extra %s %s", a, k, ea, ek)
    else:
        tok = np.array([1.0, 2.0])
        ll = LogLikelihood(Target("d", np.zeros(2), covariance_mat_inv=1.0), form if not isinstance(form, list) else [form])
        a, b = State({}), State({})
        ll.log_likelihood_ratio(a, b)
        need(a.load_from_cache("d.dpred") is tok, "predictions replaced")
        lib = (a,)
        got[:] = got[:1]
    if lib is not None:
        a, k = got[-1]
        need(a[:len(lib)] == lib and all(x is y for x, y in zip(a[:len(lib)], lib)) and list(a[len(lib):]) == list(ea) and k == ek,
             "called with %s %s, expected %s + %s %s", a, k, lib, ea, ek)


def c23_errors(rng):
    msg = f"m{rng.random()}"

    def boom(*a, **k):
        raise rng.choice([ValueError, KeyError, Boom, ZeroDivisionError])(msg)
    where = rng.choice(["perturb", "ratio", "like", "fwd"])
    try:
        if where == "perturb":
            quiet_bayes([0], [boom]).chains[0].perturbation_funcs[0](0)
        elif where == "ratio":
            LogLikelihood(log_like_ratio_func=boom).log_likelihood_ratio(0, 1)
        elif where == "like":
            LogLikelihood(log_like_func=boom).log_likelihood_ratio(0, 1)
        else:
            ll = LogLikelihood(Target("d", np.zeros(2), covariance_mat_inv=1.0), boom)
            a, b = State({}), State({})
            try:
                ll.log_likelihood_ratio(a, b)
            except ForwardException as e:
                need(msg in str(e), "message lost: %s", e)
                need(not any("dpred" in k for x in (a, b) for k in x.cache), "a failed forward function left predictions")
                raise
    except (ForwardException if where == "fwd" else UserFunctionException) as e:
        need(msg in str(e), "original message lost: %s", e)
        return
    except Bad:
        raise
    except Exception as e:
        need(False, "%s: %r escaped", where, e)
    need(False, "%s: no error", where)


# ------------------------------------------------------------------ C24
def c24_add(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, n_spaces=1, depth=0)
    k = rng.randint(1, 2)
    new = []
    for i, t in enumerate(gen_targets(rng, rng.randint(1, 2))):
        t._name = f"new{i}"
        new.append(t)
    nf = [Fwd(rng.randrange(1000), t.dobs.size) for t in new]
    early = rng.random() < .3
    args = (new, nf) if len(new) > 1 or rng.random() < .5 else (new[0], nf[0])
    if early:
        ll.add_targets(*args)
    if not offered(par, ll):
        return
    inv = BayesianInversion(par, ll, n_chains=k)
    mode = rng.choice(["fresh", "seq", "thr"])
    if not early:
        if mode != "fresh":
            inv.run(n_iterations=3, save_every=1, verbose=False, parallel_config={"n_jobs": 1} if mode == "seq" else {"n_jobs": 2, "backend": "threading"})
        ll.add_targets(*args)
    c24_check(rng, par, inv, ll, ts + new, fw + nf, new)


def c24_check(rng, par, inv, ll, ts, fw, new):
    hier = [t for t in ts if t.is_hierarchical]
    for ch in inv.chains:
        for t in hier:
            d = ch.current_state[t.name]
            need(isinstance(d, DataNoiseState) and t.std_min <= d.std <= t.std_max, "no initial noise for %s", t.name)
            need((d.correlation is not None) == t.noise_is_correlated, "noise correlation of %s", t.name)
        noise = [g for g in ch.perturbation_funcs if isinstance(g, NoisePerturbation)]
        need(len(noise) == bool(hier) and (not hier or {t.name for t in noise[0].targets} == {t.name for t in hier}), "noise perturbation not offered to a chain")
        need(len(ch.perturbation_funcs) == len(ch.perturbation_weights) == len(ch.perturbation_types), "perturbations, weights and types disagree")
        s2 = par.initialize()
        ll.initialize(s2)
        got = ch.log_likelihood.log_likelihood_ratio(ch.current_state, s2)
        want = loglike_oracle(ts, fw, s2) - loglike_oracle(ts, fw, ch.current_state)
        need(close(got, want, 1e-7), "chain's ratio %r leaves out targets: expected %r", got, want)
    try:
        ll.add_targets(Target(ts[0].name, np.zeros(2), covariance_mat_inv=1.0), Fwd(1, 2))
    except ValueError:
        pass
    else:
        need(False, "a duplicate target name was accepted")


def c24_processes(rng):
    ts = gen_targets(rng, 1)
    fw = [Fwd(3, ts[0].dobs.size)]
    par = Parameterization(ParameterSpace("s", 2, parameters=[UniformPrior("a", 0, 1, .1)]))
    ll = LogLikelihood(ts, fw)
    inv = BayesianInversion(par, ll, n_chains=2)
    inv.run(n_iterations=2, save_every=1, verbose=False, parallel_config={"n_jobs": 2})
    n = Target("new", np.ones(3), std_min=.1, std_max=1)
    g = Fwd(5, 3)
    ll.add_targets([n], [g])
    c24_check(rng, par, inv, ll, ts + [n], fw + [g], [n])


def c24_dup(rng):
    try:
        LogLikelihood([Target("d", np.zeros(2), covariance_mat_inv=1.0)] * 2, [Fwd(1, 2)] * 2)
    except ValueError:
        return
    need(False, "duplicate target names accepted")


CLAUSES = {
    "C02": [c18_apply],
    "C03": [c18_apply],
    "C04": [c18_apply],
    "C08": [c08_exact, (c08_rate, .2), c08_inf, (c08_selection, .2), c08_failures, (c08_fail500, .2), (c08_499, .2)],
    "C09": [c09_counts, c09_direct, c09_library],
    "C10": [c10_targets, c10_user],
    "C11": [c11_inverse, c11_target],
    "C14": [c14_nearest, c14_linear, c14_nearest_interp, c14_insert_delete],
    "C15": [c15_extents, c15_interfaces, c15_profile, c15_2d],
    "C16": [c16_ladder, (c16_swap, .3), c16_exact],
    "C17": [c17_schedule, c17_state],
    "C18": [c18_apply, (c18_uniform, .3), c18_offer, c18_pairs],
    "C19": [c19_results, c19_ragged],
    "C20": [c20_callbacks, c20_own_first, (c20_direct, .5), (c20_processes, .01)],
    "C21": [c21_stats, c21_types],
    "C22": [c22_hyper, c22_initialize, (c22_init_dist, .3), (c22_dict_init, .2)],
    "C23": [c23_args, c23_errors],
    "C24": [c24_add, (c24_dup, .2), (c24_processes, .01)],
}
