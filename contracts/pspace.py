"""plain parameter spaces"""
from verif import *
import numpy as np
from contracts.stubs import *

PS = "bayesbay.parameterization._parameter_space.ParameterSpace."


@proof("C01", under=PS + "log_prior")
def joint_log_prior():
    m, q, n = nat("scalars"), nat("nested"), integer("n", lo=1)
    model = Model("m")
    v, w = ufi("v", 2), ufi("w", 2)
    params = [AnyPrior(name_of("p", i), i, model) for i in range(m)] + [AnySpace(name_of("s", j), j, model) for j in range(q)]
    ps = ParameterSpace("ps", n, parameters=params)
    vals = {name_of("p", i): array_of(n, lambda k: v(i, k)) for i in range(m)}
    for j in range(q):
        vals[name_of("s", j)] = [opaque_state(w(j, k)) for k in range(n)]
    state = ParameterSpaceState(n, vals)
    cover("built")
    r = ps.log_prior(state)
    check("sum over all values of all parameters",
          r == total(m, lambda i: total(n, lambda k: model.density(i, v(i, k), None)))
          + total(q, lambda j: total(n, lambda k: model.nested(j, w(j, k)))))


def any_space(m, q, model, lo, hi):
    params = [AnyPrior(name_of("p", i), i, model) for i in range(m)] + [AnySpace(name_of("s", j), j, model) for j in range(q)]
    return ParameterSpace("ps", None, lo, hi, 0.3, params)


def any_state(m, q, n, v, w):
    vals = {name_of("p", i): array_of(n, lambda k: v(i, k)) for i in range(m)}
    for j in range(q):
        vals[name_of("s", j)] = [opaque_state(w(j, k)) for k in range(n)]
    return ParameterSpaceState(n, vals)


@proof("C02", "C04", "C06", "C07", under=PS + "birth")
def space_birth():
    m, q, n = nat("scalars"), nat("nested"), integer("n", lo=1)
    lo, hi = integer("lo", lo=1, size=False), integer("hi", size=False)
    assume(lo <= n, n <= hi)
    model = Model("m")
    v, w = ufi("v", 2), ufi("w", 2)
    ps = any_space(m, q, model, lo, hi)
    state = any_state(m, q, n, v, w)
    before = snapshot(ps, state)
    new, ratio = ps.birth(state)
    check("C07: the current state is left as it was", unchanged(before))
    if n == hi:
        check("C02: ratio at the largest number of dimensions", ratio == -INF)
        cover("largest")
        return
    cover("birth")
    check("C02: log ratio zero", ratio == 0)
    check("C04: one dimension more", new.n_dimensions == n + 1)
    check("C04: still within the limits", both(lo <= new.n_dimensions, new.n_dimensions <= hi))
    at = draw(0)[3]
    check("C04: a uniform draw of the insertion index", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n])
    if m > 0:
        check("C04: every scalar parameter has the new length", forall(m, lambda i: len(new[name_of("p", i)]) == n + 1))
        check("C04: entries before the index", forall2(m, at, lambda i, k: new[name_of("p", i)][k] == v(i, k)))
        check("C04: entries after the index", forall2(m, n, lambda i, k: implies(k >= at, new[name_of("p", i)][ite(k >= at, k + 1, 0)] == v(i, k))))
    if q > 0:
        check("C04: every nested parameter has the new length", forall(q, lambda j: len(new[name_of("s", j)]) == n + 1))
        check("C04: nested states before the index", forall2(q, at, lambda j, k: is_same(new[name_of("s", j)][k], state[name_of("s", j)][k])))
        check("C04: nested states after the index", forall2(q, n, lambda j, k: implies(k >= at, is_same(new[name_of("s", j)][ite(k >= at, k + 1, 0)], state[name_of("s", j)][ite(k >= at, k, 0)]))))


@proof("C02", "C04", "C06", "C07", under=PS + "death")
def space_death():
    m, q, n = nat("scalars"), nat("nested"), integer("n", lo=1)
    lo, hi = integer("lo", lo=1, size=False), integer("hi", size=False)
    assume(lo <= n, n <= hi)
    model = Model("m")
    v, w = ufi("v", 2), ufi("w", 2)
    ps = any_space(m, q, model, lo, hi)
    state = any_state(m, q, n, v, w)
    before = snapshot(ps, state)
    new, ratio = ps.death(state)
    check("C07: the current state is left as it was", unchanged(before))
    if n == lo:
        check("C02: ratio at the smallest number of dimensions", ratio == -INF)
        cover("smallest")
        return
    cover("death")
    check("C02: log ratio zero", ratio == 0)
    check("C04: one dimension less", new.n_dimensions == n - 1)
    check("C04: still within the limits", both(lo <= new.n_dimensions, new.n_dimensions <= hi))
    at = draw(0)[3]
    check("C04: a uniform draw of the index to remove", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    if m > 0:
        check("C04: every scalar parameter has the new length", forall(m, lambda i: len(new[name_of("p", i)]) == n - 1))
        check("C04: the other entries keep value and order", forall2(m, n - 1, lambda i, k: new[name_of("p", i)][k] == v(i, ite(k >= at, k + 1, k))))
    if q > 0:
        check("C04: every nested parameter has the new length", forall(q, lambda j: len(new[name_of("s", j)]) == n - 1))
        check("C04: the other nested states keep their order", forall2(q, n - 1, lambda j, k: is_same(new[name_of("s", j)][k], state[name_of("s", j)][ite(k >= at, k + 1, k)])))


@proof("C04", "C06", under=(PS + "sample", PS + "_initialize", PS + "initialize"))
def space_sample():
    m, q = nat("scalars"), nat("nested")
    model = Model("m")
    for trans in (True, False):
        lo, hi = integer("lo", lo=1, size=False), integer("hi", size=False)
        assume(lo <= hi)
        fix = integer("fix", lo=1)
        rng = real("init_range")
        assume(rng >= 0, rng <= 1)
        params = [AnyPrior(name_of("p", i), i, model) for i in range(m)] + [AnySpace(name_of("s", j), j, model) for j in range(q)]
        ps = ParameterSpace("ps", None, lo, hi, rng, params) if trans else ParameterSpace("ps", fix, parameters=params)
        for how in (0, 1, 2):
            if how == 0:
                states = [ps.sample()]
            elif how == 1:
                states = [ps.initialize()]
            else:
                c = integer("cells", lo=1)
                states = ps.initialize(np.empty(c))
                check("one state per position", len(states) == c)
            for s in states:
                n = s.n_dimensions
                cover("made")
                check("number of dimensions", both(lo <= n, n <= hi) if trans else n == fix)
                check("scalar parameters have that length", forall(m, lambda i: len(s[name_of("p", i)]) == n))
                check("nested parameters have that length", forall(q, lambda j: len(s[name_of("s", j)]) == n))
