"""perturbations of whole states: noise, values, births and deaths"""
from verif import *
import random
import numpy as np
from contracts.stubs import *
from bayesbay.likelihood import Target
from bayesbay.perturbations._data_noise import NoisePerturbation
from bayesbay.perturbations._birth_death import BirthPerturbation, DeathPerturbation
from bayesbay.perturbations._param_values import ParamPerturbation

P = "bayesbay.perturbations."


class World:
    pass


WORLD = World()


def noise_target(j, w):
    return Target(name_of("target", j), np.zeros(1), noise_is_correlated=w.correlated(j), std_min=w.smin(j), std_max=w.smax(j), std_perturb_std=w.sp(j),
                  correlation_min=w.cmin(j), correlation_max=w.cmax(j), correlation_perturb_std=w.cp(j))


def noise_world(t):
    w = World()
    w.correlated = lambda j: pure("correlated", "bool", j)
    w.smin, w.smax, w.sp, w.cmin, w.cmax, w.cp = [ufi(x, 1) for x in ("smin", "smax", "sp", "cmin", "cmax", "cp")]
    assume(forall(t, lambda j: both(0 <= w.smin(j), w.smin(j) <= w.smax(j), w.sp(j) > 0, 0 <= w.cmin(j), w.cmin(j) <= w.cmax(j), w.cmax(j) <= 1, w.cp(j) > 0)))
    return w


def any_inversion_state(p, t, w, size, val, std, corr, temperature=1):
    """a state of p parameter spaces and t targets of unknown noise"""
    vals = {name_of("space", i): ParameterSpaceState(size(i), {"value": array_of(size(i), lambda k: val(i, k))}) for i in range(p)}
    for j in range(t):
        vals[name_of("target", j)] = DataNoiseState(std(j), corr(j) if w.correlated(j) else None)
    return State(vals, temperature)


def kept(p, new, old, size, but=-1):
    """the parameter spaces of the proposal (but one): equal values in fresh containers"""
    n = lambda i: name_of("space", i)
    return [forall(p, lambda i: either(i == but, both(new[n(i)].n_dimensions == size(i), len(new[n(i)]["value"]) == size(i)))),
            forall(p, lambda i: either(i == but, forall(size(i), lambda k: new[n(i)]["value"][k] == old[n(i)]["value"][k]))),
            forall(p, lambda i: neg(is_same(new[n(i)], old[n(i)]))),
            forall(p, lambda i: neg(is_same(new[n(i)]["value"], old[n(i)]["value"])))]


def sizes(p):
    size = ufn("size", 1)
    assume(forall(p, lambda i: size(i) >= 1))
    return size


@proof("C06", "C07", "C12", under=(P + "_data_noise.NoisePerturbation.perturb", P + "_data_noise.NoisePerturbation._perturb_target"))
def noise():
    p, t = nat("spaces"), integer("targets", lo=1)
    w = noise_world(t)
    targets = [noise_target(j, w) for j in range(t)]
    std, corr = ufi("std", 1), ufi("corr", 1)
    size = sizes(p)
    state = any_inversion_state(p, t, w, size, ufi("value", 2), std, corr, real("T"))
    state.save_to_cache("t.dpred", real("prediction"))
    before = snapshot(state)
    new, ratio = NoisePerturbation(targets).perturb(state)
    check("C07: the current state is left as it was", unchanged(before))
    if ratio == -INF:
        cover("outside")
        return
    cover("inside")
    check("C06: log ratio zero", ratio == 0)
    name = lambda j: name_of("target", j)
    check("C06: standard deviations in their range", forall(t, lambda j: both(w.smin(j) <= new[name(j)].std, new[name(j)].std <= w.smax(j))))
    check("C06: correlations in their range", forall(t, lambda j: both(w.cmin(j) <= new[name(j)].correlation, new[name(j)].correlation <= w.cmax(j)) if w.correlated(j) else True))
    check("C06: no correlation where there was none", forall(t, lambda j: iff(w.correlated(j), neg(is_same(new[name(j)].correlation, None)))))
    check("C07: another state", neg(is_same(new, state)))
    check("C07: everything else in fresh containers with equal values", kept(p, new, state, size))
    check("C07: temperature", new.temperature == state.temperature)
    check("C12: a prediction that is carried over is that of the same model", predictions_kept(new, state))


def predictions_kept(new, state):
    return [new.load_from_cache(k) == state.load_from_cache(k) for k in ("t.dpred", "dpred") if new.saved_in_cache(k)]


class AnyMoves(ParameterSpace):
    """a parameter space whose births and deaths are arbitrary"""

    def __init__(self, name):
        self._name = name
        self._parameters = dict()

    def moved(self, kind, ps_state):
        check("C04: the space is given its own state", is_same(ps_state, WORLD.current))
        WORLD.calls += 1
        check(f"C18: a {kind} is asked for", WORLD.kind == kind)
        if boolean("impossible"):
            WORLD.ratio, WORLD.made = -INF, ps_state
        else:
            n = integer("new_size", lo=1)
            WORLD.ratio, WORLD.made = real("ratio"), ParameterSpaceState(n, {"value": array("new_value", n)})
        return WORLD.made, WORLD.ratio

    def birth(self, ps_state):
        return self.moved("birth", ps_state)

    def death(self, ps_state):
        return self.moved("death", ps_state)


def whole_state_move(make, kind):
    """a perturbation that replaces the state of one space of p"""
    p, t = integer("spaces", lo=1), nat("targets")
    w = noise_world(t)
    std, corr = ufi("std", 1), ufi("corr", 1)
    size = sizes(p)
    state = any_inversion_state(p, t, w, size, ufi("value", 2), std, corr, real("T"))
    state.save_to_cache("t.dpred", real("prediction"))
    state.save_to_cache("dpred", real("prediction"))
    at = integer("at", lo=0, hi=p - 1, size=False)
    WORLD.kind, WORLD.calls = kind, 0
    WORLD.current = state[name_of("space", at)]
    perturbation = make(AnyMoves(name_of("space", at)))
    before = snapshot(state)
    new, ratio = perturbation.perturb(state)
    check("C07: the current state is left as it was", unchanged(before))
    check("C02: one move", WORLD.calls == 1)
    check("C02: the space's own log ratio", ratio == WORLD.ratio)
    if ratio == -INF:
        cover("impossible")
        return
    cover("moved")
    check("C07: another state", neg(is_same(new, state)))
    check("C04: the space's new state", is_same(new[name_of("space", at)], WORLD.made))
    check("C07,C18: the other spaces in fresh containers with equal values", kept(p, new, state, size, at))
    check("C07: noise as it was", forall(t, lambda j: both(new[name_of("target", j)].std == std(j), iff(w.correlated(j), neg(is_same(new[name_of("target", j)].correlation, None))))))
    check("C07: correlations as they were", forall(t, lambda j: new[name_of("target", j)].correlation == corr(j) if w.correlated(j) else True))
    check("C07: temperature", new.temperature == state.temperature)
    check("C12: no prediction of the old model is carried over", [neg(new.saved_in_cache("t.dpred")), neg(new.saved_in_cache("dpred"))])


@proof("C02", "C04", "C07", "C12", "C18", under=(P + "_birth_death.BirthPerturbation.perturb", P + "_birth_death.BirthPerturbation.perturb_param_space_state"))
def birth_of_a_state():
    whole_state_move(BirthPerturbation, "birth")


@proof("C02", "C04", "C07", "C12", "C18", under=(P + "_birth_death.DeathPerturbation.perturb", P + "_birth_death.DeathPerturbation.perturb_param_space_state"))
def death_of_a_state():
    whole_state_move(DeathPerturbation, "death")


class Proposing(AnyPrior):
    """a prior whose proposals and log ratios are arbitrary functions of the value and position it is given"""

    def perturb_value(self, value, position=None, is_birth=False):
        check("C01: a walk, not a birth", neg(is_birth))
        return proposed(self.key, value, position), walk_ratio(self.key, value, position)


def proposed(i, value, position):
    return pure("proposed_at", "real", position, i, value) if position is None else pure("proposed", "real", i, value, position)


def walk_ratio(i, value, position):
    return pure("walk_ratio_at", "real", position, i, value) if position is None else pure("walk_ratio", "real", i, value, position)


def perturbed_values(state, ps_state, new, ratio, m, r, n, v, idx, pos):
    check("C04,C18: one uniformly drawn index for all parameters", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    check("C04: as many dimensions", new.n_dimensions == n)
    check("C04: every parameter as long", [forall(m, lambda i: len(new[name_of("p", i)]) == n), forall(r, lambda j: len(new[name_of("s", j)]) == n)])
    check("C01,C22: every value at the index is proposed from the old one at its position", forall(m, lambda i: new[name_of("p", i)][idx] == proposed(i, v(i, idx), pos)))
    check("C04,C07: every other value is kept", forall2(m, n, lambda i, k: implies(k != idx, new[name_of("p", i)][k] == v(i, k))))
    check("C01,C22: the log ratio is the sum of those of the parameters", ratio == total(m, lambda i: walk_ratio(i, v(i, idx), pos)))
    check("C04,C07: nested states keep their content in fresh containers", forall2(r, n, lambda j, k: both(
        new[name_of("s", j)][k]["a"][0] == ps_state[name_of("s", j)][k]["a"][0], neg(is_same(new[name_of("s", j)][k], ps_state[name_of("s", j)][k])))))
    check("C07: fresh arrays", forall(m, lambda i: neg(is_same(new[name_of("p", i)], ps_state[name_of("p", i)]))))


def values_state(m, r, n, v, w, sites):
    vals = {name_of("p", i): array_of(n, lambda k: v(i, k)) for i in range(m)}
    for j in range(r):
        vals[name_of("s", j)] = [ParameterSpaceState(1, {"a": array_of(1, lambda x: w(j, k))}) for k in range(n)]
    if sites is not None:
        vals["discretization"] = sites
    return ParameterSpaceState(n, vals)


@proof("C01", "C04", "C07", "C12", "C18", "C22", under=P + "_param_values.ParamPerturbation.perturb_param_space_state")
def value_perturbation():
    m, r, n = nat("scalars"), nat("nested"), integer("n", lo=1)
    v, w = ufi("v", 2), ufi("w", 2)
    model = Model("m")
    params = [Proposing(name_of("p", i), i, model) for i in range(m)]
    for d in (0, 1, integer("d", lo=2)):
        sites = None if d == 0 else array("sites", n) if d == 1 else array("sites", n, d)
        ps_state = values_state(m, r, n, v, w, sites)
        ps_state.save_to_cache("kdtree", np.zeros(1))
        before = snapshot(ps_state)
        mark = len(draws())
        new, ratio = ParamPerturbation("ps", params).perturb_param_space_state(ps_state)
        cover("perturbed")
        check("C07: the current state is left as it was", unchanged(before))
        idx = draw(mark)[3]
        perturbed_values(None, ps_state, new, ratio, m, r, n, v, idx, None if d == 0 else sites[idx])
        if d != 0:
            check("C04: the sites are kept", forall(n, lambda k: new["discretization"][k] == sites[k]) if d == 1 else forall2(n, d, lambda k, c: new["discretization"][k, c] == sites[k, c]))
            check("C12: a tree that is carried over is that of the same sites", is_same(new.load_from_cache("kdtree"), ps_state.load_from_cache("kdtree")) if new.saved_in_cache("kdtree") else True)


class AnySite(ParameterSpace):
    """a discretization whose site moves are arbitrary"""

    def __init__(self):
        self._name = "sites"
        self._parameters = dict()

    def perturb_value(self, ps_state, idx):
        check("C18: moves a site of the state it is given", is_same(ps_state, WORLD.current))
        WORLD.calls += 1
        WORLD.moved = idx
        WORLD.made, WORLD.ratio = ParameterSpaceState(1, {}), real("ratio")
        return WORLD.made, WORLD.ratio


@proof("C03", "C18", under=P + "_param_values.ParamPerturbation.perturb_param_space_state")
def site_perturbation():
    n = integer("n", lo=1)
    ps_state = values_state(nat("scalars"), nat("nested"), n, ufi("v", 2), ufi("w", 2), array("sites", n))
    WORLD.current, WORLD.calls = ps_state, 0
    before = snapshot(ps_state)
    new, ratio = ParamPerturbation("sites", [AnySite()]).perturb_param_space_state(ps_state)
    cover("moved")
    check("C18: one uniformly drawn site", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1, WORLD.calls == 1, WORLD.moved == draw(0)[3]])
    check("C03: state and log ratio of the site's move", both(is_same(new, WORLD.made), ratio == WORLD.ratio))
    check("C07: the current state is left as it was", unchanged(before))


@proof("C01", "C04", "C07", "C12", "C18", under=P + "_param_values.ParamPerturbation.perturb")
def values_of_a_state():
    p, t = integer("spaces", lo=1), nat("targets")
    w = noise_world(t)
    std, corr = ufi("std", 1), ufi("corr", 1)
    size, value = sizes(p), ufi("value", 2)
    state = any_inversion_state(p, t, w, size, value, std, corr, real("T"))
    state.save_to_cache("t.dpred", real("prediction"))
    state.save_to_cache("dpred", real("prediction"))
    at = integer("at", lo=0, hi=p - 1, size=False)
    name, n = name_of("space", at), size(at)
    before = snapshot(state)
    new, ratio = ParamPerturbation(name, [Proposing("value", 0, Model("m"))]).perturb(state)
    cover("perturbed")
    check("C07: the current state is left as it was", unchanged(before))
    check("C18: one uniformly drawn index", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    idx = draw(0)[3]
    check("C01: log ratio of that value", ratio == walk_ratio(0, value(at, idx), None))
    check("C04: as many values", both(new[name].n_dimensions == n, len(new[name]["value"]) == n))
    check("C01: the value is proposed from the old one", new[name]["value"][idx] == proposed(0, value(at, idx), None))
    check("C04,C07: the other values are kept", forall(n, lambda k: implies(k != idx, new[name]["value"][k] == value(at, k))))
    check("C07,C18: the other spaces in fresh containers with equal values", kept(p, new, state, size, at))
    check("C07: noise as it was", forall(t, lambda j: both(new[name_of("target", j)].std == std(j), iff(w.correlated(j), neg(is_same(new[name_of("target", j)].correlation, None))))))
    check("C07: temperature", new.temperature == state.temperature)
    check("C12: no prediction of the old model is carried over", [neg(new.saved_in_cache("t.dpred")), neg(new.saved_in_cache("dpred"))])
