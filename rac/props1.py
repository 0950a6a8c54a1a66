"""C01-C07, C12, C13: priors, spaces, proposals, states."""
import math
import pickle
import random

import numpy as np

import bayesbay as bb
from bayesbay import State, ParameterSpaceState, DataNoiseState
from bayesbay.prior import UniformPrior, GaussianPrior, LaplacePrior, CustomPrior
from bayesbay.discretization import Voronoi, Voronoi1D, Voronoi2D, Discretization
from bayesbay.parameterization import ParameterSpace, Parameterization
from bayesbay.perturbations import (ParamPerturbation, BirthPerturbation, DeathPerturbation, ParamSpacePerturbation, NoisePerturbation)
from bayesbay.likelihood import LogLikelihood, Target

from gen import *

DOM1 = (-2.0, 6.0)
DOM2 = (np.array([-2., 1.]), np.array([4., 6.]))


def rand_pos(rng, dom):
    if dom is None:
        return None
    if np.ndim(dom[0]) == 0:
        return rng.uniform(*dom)
    return np.array([rng.uniform(a, b) for a, b in zip(*dom)])


# ------------------------------------------------------------------ C01
def c01_density(rng):
    dom = rng.choice([None, DOM1, DOM2])
    p, s = gen_prior(rng, "p", dom)
    for _ in range(10):
        pos = rand_pos(rng, dom)
        if s.kind == "U" and rng.random() < .6:
            a, b = s.support(pos)
            v = rng.choice([a + (b - a) * rng.random(), a - 1e-6 - rng.random(), b + 1e-6 + rng.random(), a + 1e-9 * (b - a), b - 1e-9 * (b - a)])
        else:
            v = rng.gauss(0, 3)
        got, want = p.log_prior(v, pos), s.lp(v, pos)
        need(close(got, want), "%s log_prior(%r, %r) = %r, density says %r", s.kind, v, pos, got, want)
        if pos is None:
            need(close(p.log_prior(v), want), "%s log_prior(%r) = %r, density says %r", s.kind, v, p.log_prior(v), want)
    if s.kind == "U" and s.position is None:
        for v in (s.hyper["vmin"], s.hyper["vmax"]):
            need(close(p.log_prior(v), s.lp(v)), "uniform log_prior at the bound %r: %r", v, p.log_prior(v))
        pi = UniformPrior("q", 0.0, 4.0, .1)
        need(close(pi.log_prior(0.0), -math.log(4)) and close(pi.log_prior(4.0), -math.log(4)), "bounds are not inside")


def c01_ratio(rng):
    dom = rng.choice([None, DOM1, DOM2])
    p, s = gen_prior(rng, "p", dom)
    for _ in range(20):
        pos = rand_pos(rng, dom)
        a, b = s.support(pos)
        v = rng.uniform(a, b) if s.kind == "U" else rng.gauss(0, 2)
        args = (v, pos) if rng.random() < .5 else (v, pos, rng.random() < .5)
        if pos is None and rng.random() < .3:
            args = (v,)
        new, ratio = p.perturb_value(*args)
        want = s.lp(new, pos) - s.lp(v, pos)
        need(close(ratio, want, 1e-8), "%s perturb_value%r -> %r with log ratio %r; log prior difference is %r", s.kind, args, new, ratio, want)


def c01_step(rng):
    dom = rng.choice([None, DOM1, DOM2])
    p, s = gen_prior(rng, "p", dom)
    pos, v, birth = rand_pos(rng, dom), 0.1, rng.random() < .5
    d = [f(p.perturb_value(v, pos, birth)[0]) - v for _ in range(2500)]
    import scipy.stats
    q = ks_p(d, scipy.stats.norm(0, s.std(pos, birth)).cdf)
    need(q > ALPHA, "%s steps (birth=%s) do not follow N(0, %g^2): KS p=%g, std %g", s.kind, birth, s.std(pos, birth), q, np.std(d))
    d1 = [f(p.perturb_value(v, pos, birth)[0]) - v for _ in range(3)]
    need(len(set(d1)) == 3, "steps repeat")


def c01_joint(rng):
    sp, s = gen_space(rng, "s", "P", 2, want_nested=rng.random() < .6)
    if any(isinstance(x, SpaceSpec) and x.kind != "P" for x in s.params.values()):
        return
    st = sp.sample() if rng.random() < .5 else sp.initialize()

    def tot(spec, ps):
        return sum(sum(x.lp(v) if isinstance(x, PriorSpec) else tot(x, v) for v in ps[k]) for k, x in spec.params.items())

    def all_p(spec):
        return all(isinstance(x, PriorSpec) or (x.kind == "P" and all_p(x)) for x in spec.params.values())
    if all_p(s):
        need(close(sp.log_prior(st), tot(s, st)), "joint log prior %r is not the sum %r", sp.log_prior(st), tot(s, st))


# ------------------------------------------------------------------ C02
def fresh_state(rng, sp):
    return sp.initialize() if rng.random() < .5 else sp.sample()


def grow(rng, sp, ps, k):
    """a few accepted moves so that states are not all freshly drawn"""
    for _ in range(k):
        u = rng.random()
        try:
            if u < .4:
                q, r = sp.birth(ps)
            elif u < .6:
                q, r = sp.death(ps)
            elif hasattr(sp, "sample_site"):
                q, r = sp.perturb_value(ps, rng.randrange(ps.n_dimensions))
            else:
                continue
        except NotImplementedError:
            continue
        if not np.isinf(f(r)):
            ps = q
    return ps


def c02_birth_death(rng):
    sp, s = gen_space(rng, "s", depth=2, trans=True)
    ps = grow(rng, sp, fresh_state(rng, sp), rng.randint(0, 4))
    for _ in range(3):
        new, r = sp.birth(ps)
        if ps.n_dimensions == s.nmax:
            need(f(r) == -math.inf, "birth at the largest dimension returned %r", r)
        else:
            i = find_new(ps, new)
            need(i is not None, "birth did not insert one cell")
            want = birth_oracle(s, new, i, ps)
            need(close(f(r), want, 1e-8), "%s birth (%s) log ratio %r, expected %r", s.kind, s.birth_from, r, want)
        new, r = sp.death(ps)
        if ps.n_dimensions == s.nmin:
            need(f(r) == -math.inf, "death at the smallest dimension returned %r", r)
        else:
            i = find_new(new, ps)
            need(i is not None, "death did not remove one cell")
            want = -birth_oracle(s, ps, i, new)
            need(close(f(r), want, 1e-8), "%s death (%s) log ratio %r, expected %r", s.kind, s.birth_from, r, want)
            ps = new if rng.random() < .5 else ps


def c02_bounds(rng):
    sp, s = gen_space(rng, "s", depth=1, trans=True)
    ps = fresh_state(rng, sp)
    for fn, end in ((sp.birth, s.nmax), (sp.death, s.nmin)):
        k = 0
        while True:
            new, r = fn(ps)
            if ps.n_dimensions == end:
                need(f(r) == -math.inf, "%s at the limit %d returned %r", fn.__name__, end, r)
                break
            need(new.n_dimensions == ps.n_dimensions + (1 if fn == sp.birth else -1), "%s refused before the limit", fn.__name__)
            ps = new
            k += 1
            need(k < 50, "%s never stopped", fn.__name__)


# ------------------------------------------------------------------ C03
def _move(rng, sp, ps, i):
    return sp.perturb_value(ps, i)


def c03_move(rng):
    sp, s = gen_space(rng, "s", rng.choice(["V1", "V2", "V2p", "V2k"]), depth=1)
    ps = grow(rng, sp, fresh_state(rng, sp), rng.randint(0, 3))
    if rng.random() < .3:
        ps = ps.copy()
    i = rng.randrange(ps.n_dimensions)
    before = freeze(ps)
    new, r = sp.perturb_value(ps, i)
    need(freeze(ps) == before, "a site move changed the given state")
    if np.isinf(f(r)) and f(r) < 0:
        ok = any(isinstance(x, PriorSpec) and x.kind == "U" for x in s.params.values())
        if new is not ps and not ok:
            need(any(not s.in_domain(x) for x in np.asarray(new["discretization"])), "an in-domain move got log ratio -inf")
        return
    sites, old = np.asarray(new["discretization"]), np.asarray(ps["discretization"])
    for x in sites:
        need(s.in_domain(x), "site %s left the domain with log ratio %r", x, r)
    o = sorted(freeze(np.array(x)) for x in old)
    w = sorted(freeze(np.array(x)) for x in sites)
    moved = [x for x in sites if freeze(np.array(x)) not in o]
    need(len(moved) == 1, "%d sites moved", len(moved))
    gone = [j for j in range(len(old)) if freeze(np.array(old[j])) not in w]
    need(gone == [i], "site %s moved instead of %d", gone, i)
    j = [k for k in range(len(sites)) if freeze(np.array(sites[k])) not in o][0]
    # every other cell as before, the moved one with its values
    rest_o = sorted(cell(ps, k) for k in range(len(old)) if k != i)
    rest_n = sorted(cell(new, k) for k in range(len(old)) if k != j)
    need(rest_o == rest_n, "another cell changed")
    cut = lambda c: tuple(x for x in c if x[0] != "discretization")
    need(cut(cell(ps, i)) == cut(cell(new, j)), "the moved cell's values changed")
    want = 0.0
    for k, x in s.params.items():
        if isinstance(x, PriorSpec) and x.position is not None:
            want += x.lp(ps[k][i], sites[j]) - x.lp(ps[k][i], old[i])
    need(close(f(r), want, 1e-8), "site move log ratio %r, expected %r", r, want)


def c03_step(rng):
    """moves from a fixed site: normal draws, censored by the domain only"""
    dim = rng.choice([1, 2])
    std = rng.uniform(.5, 1.5)
    far = rng.random() < .5
    half = 40 * std if far else 1.2 * std
    if dim == 1:
        sp = Voronoi1D("s", vmin=-half, vmax=half, perturb_std=std, n_dimensions=1)
        ps = ParameterSpaceState(1, {"discretization": np.array([0.0])})
    else:
        if rng.random() < .5:
            std = np.array([std, std * .6])
        if rng.random() < .5:
            h = half
            sp = Voronoi2D("s", polygon=np.array([[-h, -h], [h, -h], [h, h], [-h, h]]), perturb_std=std, n_dimensions=1)
        else:
            sp = Voronoi2D("s", vmin=[-half, -half], vmax=[half, half], perturb_std=std, n_dimensions=1)
        ps = ParameterSpaceState(1, {"discretization": np.array([[0.0, 0.0]])})
    stds = np.broadcast_to(np.asarray(std, float), (dim,))
    steps, out, n = [], 0, 2000
    for _ in range(n):
        new, r = sp.perturb_value(ps, 0)
        if f(r) == -math.inf:
            out += 1
        else:
            need(close(f(r), 0), "log ratio %r without position-dependent priors", r)
            steps.append(np.asarray(new["discretization"]).reshape(-1))
    import scipy.stats
    pin = float(np.prod([scipy.stats.norm.cdf(half / x) - scipy.stats.norm.cdf(-half / x) for x in stds]))
    q = binom_p(n - out, n, min(1.0, pin))
    need(q > ALPHA, "%d of %d moves left the domain; a single normal draw leaves it with probability %.4f", out, n, 1 - pin)
    steps = np.array(steps)
    for d in range(dim):
        q = ks_p(steps[:, d], scipy.stats.truncnorm(-half / stds[d], half / stds[d], 0, stds[d]).cdf)
        need(q > ALPHA, "site steps in coordinate %d do not follow the normal of std %g (p=%g, std %g)", d, stds[d], q, steps[:, d].std())
    if dim == 2 and len(steps) > 100:
        c = np.corrcoef(steps.T)[0, 1]
        need(abs(c) < .35, "coordinates of a site move are correlated (%.3f)", c)


# ------------------------------------------------------------------ C04 / C05 / C06
def _ops(rng, sp, s, ps):
    """one random operation -> (name, new, ratio, extra)"""
    ops = []
    if s.n is None:
        ops += ["birth", "death"]
    if s.kind != "P":
        ops += ["site"]
    pri = [p for p in sp.parameters.values() if not isinstance(p, ParameterSpace)]
    if pri:
        ops += ["value"]
    if not ops:
        return None
    op = rng.choice(ops)
    if op == "birth":
        return (op,) + tuple(sp.birth(ps))
    if op == "death":
        return (op,) + tuple(sp.death(ps))
    if op == "site":
        return (op,) + tuple(sp.perturb_value(ps, rng.randrange(ps.n_dimensions)))
    return (op,) + tuple(ParamPerturbation(s.name, pri).perturb_param_space_state(ps))


def c04_lengths(rng):
    sp, s = gen_space(rng, "s", depth=2)
    for k in range(2):
        ps = sp.initialize() if k == 0 else sp.sample()
        check_ps(s, ps, "initialize" if k == 0 else "sample", k == 1 or True)
    if s.n is None:
        seen = {sp.initialize().n_dimensions for _ in range(30)}
        hi = int((s.nmax - s.nmin) * s.init_range + s.nmin)
        need(min(seen) >= s.nmin and max(seen) <= hi, "initial dimensions %s outside [%d, %d]", seen, s.nmin, hi)
    for _ in range(8):
        t = _ops(rng, sp, s, ps)
        if t is None:
            return
        op, new, r = t
        if np.isinf(f(r)):
            continue
        check_ps(s, new, op)
        if op == "birth":
            need(find_new(ps, new) is not None, "birth: not one new cell at one common index")
        elif op == "death":
            need(find_new(new, ps) is not None, "death: not one cell removed at one common index")
        elif op == "value":
            need(new.n_dimensions == ps.n_dimensions, "value move changed the dimensions")
            pri = {p.name for p in sp.parameters.values() if not isinstance(p, ParameterSpace)}
            ch = set()
            for k2 in ps.param_values:
                for i in range(ps.n_dimensions):
                    a, b = ps[k2][i], new[k2][i]
                    if freeze(np.array(a) if not isinstance(a, ParameterSpaceState) else a) != freeze(np.array(b) if not isinstance(b, ParameterSpaceState) else b):
                        ch.add((k2, i))
            need(len({i for _, i in ch}) <= 1, "value move changed several indices: %s", ch)
            need({k2 for k2, _ in ch} <= pri, "value move changed %s", ch)
            need(len(ch) == len(pri), "value move changed %s of %s", ch, pri)
        elif op == "site":
            need(new.n_dimensions == ps.n_dimensions, "site move changed the dimensions")
        ps = new


def c04_uniform_index(rng):
    """every index is reachable: births at the ends included"""
    sp = ParameterSpace("s", n_dimensions_min=1, n_dimensions_max=9, parameters=[GaussianPrior("a", 0, 1, .1), UniformPrior("b", 0, 1, .1)])
    ps = ParameterSpaceState(4, {"a": np.arange(4.) + 10, "b": np.arange(4.) / 10})
    cb, cd, cv = [0] * 5, [0] * 4, [0] * 4
    pp = ParamPerturbation("s", list(sp.parameters.values()))
    for _ in range(400):
        cb[find_new(ps, sp.birth(ps)[0])] += 1
        cd[find_new(sp.death(ps)[0], ps)] += 1
        q, _ = pp.perturb_param_space_state(ps)
        cv[int(np.flatnonzero(q["a"] != ps["a"])[0])] += 1
    for nm, c in (("birth", cb), ("death", cd), ("value move", cv)):
        need(chi2_p(c, [1 / len(c)] * len(c)) > ALPHA, "%s indices are not uniform: %s", nm, c)


def c05_pairing(rng):
    sp, s = gen_space(rng, "s", "V1", depth=1, n_range=(1, 8))
    ps = sp.initialize() if rng.random() < .5 else sp.sample()
    for _ in range(10):
        t = _ops(rng, sp, s, ps)
        op, new, r = t
        if np.isinf(f(r)):
            continue
        need(bool(np.all(np.diff(new["discretization"]) >= 0)), "%s: sites not sorted %s", op, new["discretization"])
        o = sorted(cell(ps, i) for i in range(ps.n_dimensions))
        w = sorted(cell(new, i) for i in range(new.n_dimensions))
        lost, born = [c for c in o if c not in w], [c for c in w if c not in o]
        lim = {"birth": (0, 1), "death": (1, 0), "site": (1, 1), "value": (1, 1)}[op]
        need((len(lost), len(born)) in (lim, (0, 0)) and (op in ("site", "value") or (len(lost), len(born)) == lim),
             "%s: %d cells lost, %d appeared: a site and its values were separated", op, len(lost), len(born))
        if op == "site" and lost:
            cut = lambda c: tuple(x for x in c if x[0] != "discretization")
            need(cut(lost[0]) == cut(born[0]), "a moved site left its values behind")
        ps = new


def c06_support(rng):
    sp, s = gen_space(rng, "s", depth=1)
    ps = sp.initialize() if rng.random() < .5 else sp.sample()
    check_ps(s, ps, "initial")
    for _ in range(12):
        t = _ops(rng, sp, s, ps)
        if t is None:
            return
        if np.isinf(f(t[2])):
            continue
        check_ps(s, t[1], t[0])
        ps = t[1]
    if s.kind != "P" and rng.random() < .5:
        for _ in range(40):
            need(s.in_domain(sp.sample_site().reshape(-1) if s.dim > 1 else sp.sample_site()), "sample_site outside the domain")


def c06_uniform_edges(rng):
    dom = rng.choice([None, DOM1, DOM2])
    p, s = gen_prior(rng, "p", dom, "U", force_pos=dom is not None)
    pos = [rand_pos(rng, dom) for _ in range(rng.randint(1, 6))]
    if dom is not None:
        vals = p.initialize(np.array(pos))
        for v, q in zip(vals, pos):
            a, b = s.support(q)
            need(a - 1e-9 <= v <= b + 1e-9, "initial value %r outside [%r, %r] at %r", v, a, b, q)
    else:
        vals = p.initialize(np.empty(3))
        need(len(vals) == 3 and bool(np.all((vals >= s.hyper["vmin"]) & (vals <= s.hyper["vmax"]))), "initial values %s outside the bounds", vals)
    for q in pos:
        a, b = s.support(q)
        v = p.sample(q)
        need(a - 1e-9 <= v <= b + 1e-9, "sampled value %r outside [%r, %r]", v, a, b)
        for _ in range(10):
            w, r = p.perturb_value(rng.choice([a, b]), q)
            need(f(r) == -math.inf or a - 1e-9 <= f(w) <= b + 1e-9, "value %r outside [%r, %r] got ratio %r", w, a, b, r)


def gen_targets(rng, k=None):
    out = []
    for i in range(k or rng.randint(1, 3)):
        n = rng.randint(1, 6)
        kw = {}
        if rng.random() < .4:
            m = np.random.RandomState(rng.randrange(10 ** 6)).normal(size=(n, n))
            kw["covariance_mat_inv"] = rng.choice([2.5, m @ m.T + np.eye(n), np.diag(m @ m.T) + .1])
        else:
            kw.update(std_min=rng.uniform(.05, .3), std_max=rng.uniform(.5, 1.5), std_perturb_std=rng.uniform(.1, .6))
            if rng.random() < .6:
                kw.update(noise_is_correlated=True, correlation_min=rng.uniform(.05, .3), correlation_max=rng.uniform(.5, .95),
                          correlation_perturb_std=rng.uniform(.1, .4))
        out.append(Target(f"d{i}", np.random.RandomState(rng.randrange(10 ** 6)).normal(size=n), **kw))
    return out


def c06_noise(rng):
    ts = gen_targets(rng)
    st = State({})
    for t in ts:
        t.initialize(st)
    hier = [t for t in ts if t.is_hierarchical]
    if not hier:
        return

    def ok(state, where):
        for t in hier:
            d = state[t.name]
            need(t.std_min <= d.std <= t.std_max, "%s: noise std %r outside [%r, %r]", where, d.std, t.std_min, t.std_max)
            if t.noise_is_correlated:
                need(t.correlation_min <= d.correlation <= t.correlation_max, "%s: correlation %r outside its range", where, d.correlation)
            else:
                need(d.correlation is None, "%s: correlation %r for uncorrelated noise", where, d.correlation)
    ok(st, "initial")
    pert = NoisePerturbation(hier)
    for _ in range(30):
        before = freeze(st)
        new, r = pert(st)
        need(freeze(st) == before, "noise perturbation changed the given state")
        need(r == 0 or r == -math.inf, "noise log ratio %r", r)
        if r == -math.inf:
            continue
        ok(new, "perturbed")
        st = new


def c06_noise_step(rng):
    """one normal draw per noise parameter, out of range means -inf (not a redraw)"""
    import scipy.stats
    t = Target("d", np.zeros(3), std_min=.5, std_max=1.0, std_perturb_std=.3, noise_is_correlated=True, correlation_min=.2,
               correlation_max=.8, correlation_perturb_std=.4)
    s0, c0 = rng.uniform(.55, .95), rng.uniform(.25, .75)
    st = State({"d": DataNoiseState(std=s0, correlation=c0)})
    pert = NoisePerturbation([t])
    n, ins, S, C = 2500, 0, [], []
    for _ in range(n):
        new, r = pert(st)
        if r != -math.inf:
            ins += 1
            S.append(new["d"].std)
            C.append(new["d"].correlation)
    N = scipy.stats.norm
    p = (N.cdf((1 - s0) / .3) - N.cdf((.5 - s0) / .3)) * (N.cdf((.8 - c0) / .4) - N.cdf((.2 - c0) / .4))
    need(binom_p(ins, n, p) > ALPHA, "%d of %d noise proposals in range, single draws give %.3f", ins, n, p)
    need(ks_p(S, scipy.stats.truncnorm((.5 - s0) / .3, (1 - s0) / .3, s0, .3).cdf) > ALPHA, "noise std proposals are not normal around the old value")
    need(ks_p(C, scipy.stats.truncnorm((.2 - c0) / .4, (.8 - c0) / .4, c0, .4).cdf) > ALPHA, "noise correlation proposals are not normal around the old value")


# ------------------------------------------------------------------ C07
def full_setup(rng, n_spaces=None, depth=1, with_targets=True):
    spaces, specs = [], {}
    for i in range(n_spaces or rng.randint(1, 2)):
        a, b = gen_space(rng, f"s{i}", depth=depth, n_range=(1, 5))
        spaces.append(a)
        specs[a.name] = b
    par = Parameterization(spaces)
    ts = gen_targets(rng) if with_targets else []
    fw = [Fwd(rng.randrange(1000), t.dobs.size) for t in ts]
    ll = LogLikelihood(ts, fw) if ts else LogLikelihood(log_like_ratio_func=lambda a, b: 0.0)
    st = par.initialize()
    ll.initialize(st)
    return par, specs, ll, ts, fw, st


def offered(par, ll):
    fs = list(par.perturbation_funcs) + list(ll.perturbation_funcs)
    ws = list(par.perturbation_weights) + list(ll.perturbation_weights)
    return [x for x, w in zip(fs, ws) if w > 0]


def c07_frame(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, depth=rng.choice([1, 1, 2]))
    st.temperature = rng.choice([1, 2.5])
    funcs = offered(par, ll)
    live = [st]
    pics = [freeze(st)]
    cur = st
    for _ in range(10 if funcs else 0):
        fn = rng.choice(funcs)  # all offered with positive weight
        new, r = fn(cur)
        for x, p in zip(live, pics):
            need(freeze(x) == p, "%r changed a state it was given earlier (values, dimensions, noise or temperature)", fn)
        if not np.isinf(f(r)):
            need(new is not cur, "%r returned the given state itself with log ratio %r", fn, r)
            live.append(new)
            pics.append(freeze(new))
            if ts and rng.random() < .5:
                ll.log_likelihood_ratio(cur, new)
            if rng.random() < .6:
                cur = new


def c07_direct(rng):
    """the parameter-space level functions, called directly with states that are kept"""
    sp, s = gen_space(rng, "s", depth=1)
    ps = sp.initialize() if rng.random() < .5 else sp.sample()
    pic = freeze(ps)
    cur, live, pics = ps, [ps], [pic]
    for _ in range(8):
        t = _ops(rng, sp, s, cur)
        if t is None:
            return
        for x, p in zip(live, pics):
            need(freeze(x) == p, "%s changed an earlier state", t[0])
        if not np.isinf(f(t[2])):
            live.append(t[1])
            pics.append(freeze(t[1]))
            cur = t[1]


def c07_reject(rng):
    """a chain that rejects everything stays where it was"""
    par, specs, ll, ts, fw, st = full_setup(rng)
    if not offered(par, ll):
        return
    ll2 = LogLikelihood(log_like_ratio_func=lambda a, b: -1e9)
    inv = bb.BaseBayesianInversion([st], list(par.perturbation_funcs) + list(ll.perturbation_funcs),
                                   list(par.perturbation_weights) + list(ll.perturbation_weights), log_like_ratio_func=ll2, n_chains=1)
    ch = inv.chains[0]
    pic = freeze(st)
    ch.advance_chain(n_iterations=15, verbose=False)
    need(ch.current_state is st and freeze(st) == pic, "a chain that rejected every proposal moved")


# ------------------------------------------------------------------ C12
def c12_cache(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, depth=rng.choice([1, 2]))
    funcs = offered(par, ll)

    def check(x, where):
        for t, g in zip(ts, fw):
            k = f"{t.name}.dpred"
            if x.saved_in_cache(k):
                need(close(x.load_from_cache(k), g.value(x)), "%s: cached predictions of %s are not those of the state", where, t.name)
            for kk in x.cache:
                if "dpred" in kk and kk != k and kk.split(".dpred")[0] not in [u.name for u in ts]:
                    need(False, "%s: unexpected cache entry %s", where, kk)

        def trees(spec, ps):
            if spec.kdtree:
                need(ps.saved_in_cache("kdtree"), "%s: no tree", where)
            if ps.saved_in_cache("kdtree"):
                need(np.array_equal(np.asarray(ps.load_from_cache("kdtree").data), ps["discretization"]), "%s: tree of other sites", where)
            for k, v in spec.params.items():
                if isinstance(v, SpaceSpec):
                    for y in ps[k]:
                        trees(v, y)
        for k, v in specs.items():
            trees(v, x[k])
    cur = st
    check(cur, "initial")
    for _ in range(8 if funcs else 0):
        fn = rng.choice(funcs)  # all offered with positive weight
        new, r = fn(cur)
        check(cur, "current")
        if np.isinf(f(r)):
            continue
        check(new, f"proposal of {fn!r}")
        c0 = [g.calls for g in fw]
        have = [[x.saved_in_cache(f"{t.name}.dpred") for x in (cur, new)] for t in ts]
        ll.log_likelihood_ratio(cur, new)
        for i, g in enumerate(fw):
            need(g.calls - c0[i] == 2 - sum(have[i]), "forward function called %d times for %d states without predictions", g.calls - c0[i], 2 - sum(have[i]))
        c0 = [g.calls for g in fw]
        ll.log_likelihood_ratio(cur, new)
        need(c0 == [g.calls for g in fw], "predictions computed twice for one state")
        check(cur, "current")
        check(new, "proposal")
        if rng.random() < .6:
            cur = new
        if rng.random() < .2:
            check(cur.copy(), "copy")
            check(cur.copy(keep_dpred=True), "copy keeping predictions")


# ------------------------------------------------------------------ C13
def views(st, where):
    for k, v in st.param_values.items():
        need(same(getattr(st, k), v), "%s: attribute %s is stale", where, k)
        need(same(st[k], v), "%s: index %s is stale", where, k)
        if isinstance(v, ParameterSpaceState):
            views_ps(v, f"{where}.{k}")
    flat = dict(st.items())
    for k, v in st.param_values.items():
        if isinstance(v, DataNoiseState):
            need(flat.get(f"{k}.std") == v.std, "%s: exported %s.std", where, k)
            need((f"{k}.correlation" in flat) == (v.correlation is not None) and flat.get(f"{k}.correlation") == v.correlation, "%s: exported correlation", where)
        else:
            exp_ps(v, flat, k, where)
    need(set(iter(st)) == set(flat), "%s: iteration and items differ", where)


def exp_ps(v, flat, k, where):
    need(flat.get(f"{k}.n_dimensions") == v.n_dimensions, "%s: exported %s.n_dimensions", where, k)
    for kk, vv in v.param_values.items():
        e = flat.get(f"{k}.{kk}")
        if isinstance(vv, list):
            need(isinstance(e, list) and len(e) == len(vv), "%s: exported %s.%s", where, k, kk)
            for x, y in zip(vv, e):
                exp_ps(x, y, f"{k}.{kk}", where)
        else:
            need(same(e, vv), "%s: exported %s.%s differs", where, k, kk)


def views_ps(v, where):
    for kk, vv in v.param_values.items():
        need(same(getattr(v, kk), vv), "%s: attribute %s is stale", where, kk)
        need(same(v[kk], vv), "%s: index %s is stale", where, kk)
        if isinstance(vv, list):
            for y in vv:
                views_ps(y, f"{where}.{kk}")


def scribble(rng, st):
    """write into every container the state's API exposes"""
    for k, v in list(st.param_values.items()):
        if isinstance(v, ParameterSpaceState):
            scribble_ps(rng, v)
    st.set_param_values("zzz", DataNoiseState(1.0, None))
    st.save_to_cache("junk", 1)
    st.save_to_extra_storage("junk", 2)
    st.temperature = 17


def scribble_ps(rng, v):
    for kk, vv in list(v.param_values.items()):
        if isinstance(vv, np.ndarray):
            vv += 100.0
        else:
            for y in vv:
                scribble_ps(rng, y)
            if len(vv):
                vv.append(vv[0])
    v.set_param_values("new", np.zeros(v.n_dimensions))
    v.save_to_cache("junk", 3)


def c13_copy(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, depth=2)
    st.temperature = rng.choice([1, 3.5])
    st.save_to_extra_storage("extra", 5)
    views(st, "initial")
    c = st.copy(keep_dpred=rng.random() < .5)
    need(freeze(c) == freeze(st), "a copy differs")
    need(type(c) is State, "copy type %s", type(c))
    pic, keys, ext = freeze(st), set(st.cache), dict(st.extra_storage)
    scribble(rng, c)
    need(freeze(st) == pic and set(st.cache) == keys and st.extra_storage == ext, "writing into a copy shows in the original")
    c = st.copy()
    pic = freeze(c)
    scribble(rng, st)
    need(freeze(c) == pic, "writing into the original shows in the copy")
    ps = next(iter(specs))
    par2, specs2, *_r, st2 = full_setup(rng, depth=2)
    v = st2[next(iter(specs2))]
    c = v.copy()
    need(freeze(c) == freeze(v), "a parameter space state copy differs")
    pic, keys = freeze(v), set(v.cache)
    scribble_ps(rng, c)
    need(freeze(v) == pic and set(v.cache) == keys, "writing into a parameter space copy shows in the original")
    c = v.copy()
    pic = freeze(c)
    scribble_ps(rng, v)
    need(freeze(c) == pic, "writing into the original shows in its parameter space copy")


def c13_views(rng):
    par, specs, ll, ts, fw, st = full_setup(rng, depth=1)
    funcs = offered(par, ll)
    cur = st
    for _ in range(8 if funcs else 0):
        fn = rng.choice(funcs)  # all offered with positive weight
        new, r = fn(cur)
        views(cur, "current")
        views(new, f"proposal of {fn!r}")
        if not np.isinf(f(r)):
            cur = new
    q = pickle.loads(pickle.dumps(cur))
    views(q, "pickled")
    need(freeze(q) == freeze(cur), "pickling changed the state")


def c13_lengths(rng):
    n = rng.randint(1, 5)
    bad = n + rng.choice([-1, 1, 2])
    good = {"a": np.zeros(n)}
    ParameterSpaceState(n, dict(good))
    for v in (np.zeros(bad), [ParameterSpaceState(1, {"x": np.zeros(1)}) for _ in range(bad)]):
        order = [("a", np.zeros(n)), ("b", v)]
        rng.shuffle(order)
        try:
            ParameterSpaceState(n, dict(order))
        except ValueError:
            continue
        except IndexError:
            continue
        need(False, "a state of %d dimensions accepted an entry of length %d", n, len(v))
    for v in (3.5, "x"):
        try:
            ParameterSpaceState(v, {})
        except TypeError:
            continue
        need(False, "n_dimensions=%r accepted", v)
    st = ParameterSpaceState(3, {"a": np.arange(3.), "l": [ParameterSpaceState(1, {"x": np.array([float(i)])}) for i in range(3)]})
    sub = st[[2, 0]]
    need(sub.n_dimensions == 2 and list(sub["a"]) == [2., 0.] and [y["x"][0] for y in sub["l"]] == [2., 0.], "indexing by a list")
    st.set_param_values("a", np.array([7., 8., 9.]))
    views_ps(st, "after set")
    need(st.get_param_values("a")[0] == 7., "set_param_values did not take")


CLAUSES = {
    "C01": [c01_density, c01_ratio, (c01_step, .15), c01_joint],
    "C02": [c02_birth_death, c02_birth_death, c02_birth_death, (c02_bounds, .5)],
    "C03": [c03_move, (c03_step, .04)],
    "C04": [c04_lengths, (c04_uniform_index, .05)],
    "C05": [c05_pairing],
    "C06": [c06_support, c06_uniform_edges, c06_noise, (c06_noise_step, .05)],
    "C07": [c07_frame, c07_frame, c07_direct, c07_reject],
    "C12": [c12_cache],
    "C13": [c13_copy, c13_views, c13_lengths],
}
