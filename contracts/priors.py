"""C01: reported densities and value-perturbation ratios of the priors, at any position"""
from verif import *
import random
import bayesbay._utils_1d as u
from contracts.kernels import increasing
from bayesbay.exceptions._exceptions import OutOfDomainException
from bayesbay.prior import UniformPrior, GaussianPrior, LaplacePrior, CustomPrior

P = "bayesbay.prior._prior."


def hyper(prior, dep, *names):
    """the hyper-parameters, as functions of the position; arbitrary ones when dep"""
    out = []
    for n in names:
        if dep:
            havoc(prior, n, uf(n, 1))
        v = getattr(prior, n)
        out.append(v)
    return out


def at(h, pos):
    return h(pos) if callable(h) else h


def make_uniform(dep):
    lo, hi, s, sb = real("vmin"), real("vmax"), real("std"), real("stdb")
    assume(lo < hi, s > 0, sb > 0)
    p = UniformPrior("p", lo, hi, s, sb)
    check("scalar hyper-parameters are kept", [p.vmin == lo, p.vmax == hi, p.perturb_std == s, p.perturb_std_birth == sb])
    return p


def make_gaussian(dep):
    m, sd, s, sb = real("mean"), real("std"), real("pstd"), real("pstdb")
    assume(sd > 0, s > 0, sb > 0)
    p = GaussianPrior("p", m, sd, s, sb)
    check("scalar hyper-parameters are kept", [p.mean == m, p.std == sd, p.perturb_std == s, p.perturb_std_birth == sb])
    return p


def make_laplace(dep):
    m, sd, s, sb = real("mean"), real("scale"), real("pstd"), real("pstdb")
    assume(sd > 0, s > 0, sb > 0)
    p = LaplacePrior("p", m, sd, s, sb)
    check("scalar hyper-parameters are kept", [p.mean == m, p.scale == sd, p.perturb_std == s, p.perturb_std_birth == sb])
    return p


def perturbed(p, value, pos, std, stdb, density):
    """one normal draw is added; the ratio is the difference of log densities at that position"""
    for birth in (False, True):
        n0 = len(draws())
        new, ratio = p.perturb_value(value, pos, birth) if birth else p.perturb_value(value, pos)
        check("one random draw", len(draws()) == n0 + 1)
        kind, mu, sd, z = draw(n0)
        check("a zero-mean normal draw", [kind == "normal", mu == 0])
        check("with the standard deviation for the position", sd == (stdb if birth else std))
        check("added to the value", new == value + z)
        check("log ratio is the log-density difference", ratio == density(new) - density(value))
        cover("perturbed")


@proof("C01", under=(P + "UniformPrior.log_prior", P + "UniformPrior.perturb_value"))
def uniform():
    for dep in (False, True):
        p = make_uniform(dep)
        vmin, vmax, std, stdb = hyper(p, dep, "vmin", "vmax", "perturb_std", "perturb_std_birth")
        pos = real("pos") if dep else None
        v = real("v")
        lo, hi = at(vmin, pos), at(vmax, pos)
        assume(lo < hi)
        r = p.log_prior(v, pos)
        if lo <= v <= hi:
            check("density inside the bounds", r == -log(hi - lo))
            cover("inside")
        else:
            check("density outside the bounds", r == -INF)
            cover("outside")


@proof("C01", under=(P + "UniformPrior.perturb_value"))
def uniform_perturb():
    for dep in (False, True):
        for birth in (False, True):
            p = make_uniform(dep)
            vmin, vmax, std, stdb = hyper(p, dep, "vmin", "vmax", "perturb_std", "perturb_std_birth")
            pos = real("pos") if dep else None
            v = real("v")
            lo, hi = at(vmin, pos), at(vmax, pos)
            assume(lo < hi, lo <= v, v <= hi, at(std, pos) > 0, at(stdb, pos) > 0)
            n0 = len(draws())
            new, ratio = p.perturb_value(v, pos, birth)
            check("one random draw", len(draws()) == n0 + 1)
            kind, mu, sd, z = draw(n0)
            check("a zero-mean normal draw", [kind == "normal", mu == 0])
            check("with the standard deviation for the position", sd == at(stdb if birth else std, pos))
            check("added to the value", new == v + z)
            if lo <= new <= hi:
                check("log ratio inside the bounds", ratio == 0)
                cover("inside")
            else:
                check("log ratio outside the bounds", ratio == -INF)
                cover("outside")


@proof("C01", under=(P + "GaussianPrior.log_prior", P + "GaussianPrior.perturb_value"))
def gaussian():
    for dep in (False, True):
        p = make_gaussian(dep)
        mean, std, ps, psb = hyper(p, dep, "mean", "std", "perturb_std", "perturb_std_birth")
        pos = real("pos") if dep else None
        m, s = at(mean, pos), at(std, pos)
        assume(s > 0)
        v = real("v")
        density = lambda x: -log(2 * PI) / 2 - log(s) - ((x - m) / s) ** 2 / 2
        check("density", p.log_prior(v, pos) == density(v))
        perturbed(p, v, pos, at(ps, pos), at(psb, pos), density)


@proof("C01", under=(P + "LaplacePrior.log_prior", P + "LaplacePrior.perturb_value"))
def laplace():
    for dep in (False, True):
        p = make_laplace(dep)
        mean, scale, ps, psb = hyper(p, dep, "mean", "scale", "perturb_std", "perturb_std_birth")
        pos = real("pos") if dep else None
        m, b = at(mean, pos), at(scale, pos)
        assume(b > 0)
        v = real("v")
        density = lambda x: -log(2) - log(b) - abs(x - m) / b
        check("density", p.log_prior(v, pos) == density(v))
        perturbed(p, v, pos, at(ps, pos), at(psb, pos), density)


@proof("C01", under=(P + "CustomPrior.log_prior", P + "CustomPrior.perturb_value"))
def custom():
    for dep in (False, True):
        f2, f1, g = uf("user_log_prior2", 2), uf("user_log_prior1", 1), uf("user_sample", 1)
        s, sb = real("pstd"), real("pstdb")
        assume(s > 0, sb > 0)
        for two in (True, False):
            p = CustomPrior("p", (lambda v, pos: f2(v, pos)) if two else (lambda v: f1(v)), lambda pos=None: g(pos), s, sb)
            ps, psb = hyper(p, dep, "perturb_std", "perturb_std_birth")
            pos = real("pos")
            v = real("v")
            density = (lambda x: f2(x, pos)) if two else (lambda x: f1(x))
            check("the user's function", p.log_prior(v, pos) == density(v))
            perturbed(p, v, pos, at(ps, pos), at(psb, pos), density)


@proof("C06", "C22", under=(P + "UniformPrior.sample", P + "UniformPrior.initialize", P + "UniformPrior.get_vmin_vmax"))
def uniform_start():
    for dep in (False, True):
        p = make_uniform(dep)
        vmin, vmax, std, stdb = hyper(p, dep, "vmin", "vmax", "perturb_std", "perturb_std_birth")
        pos = real("pos") if dep else None
        assume(at(vmin, pos) <= at(vmax, pos))
        v = p.sample(pos)
        cover("sampled")
        check("C06: a sampled value lies between the bounds for its position", both(at(vmin, pos) <= v, v <= at(vmax, pos)))
        n = integer("n", lo=1)
        where = array("where", n)
        if dep:
            assume(forall(n, lambda i: vmin(where[i]) <= vmax(where[i])))
        n0 = len(draws())
        x = p.initialize(where)
        check("one value per position", len(x) == n)
        check("C06: an initial value lies between the bounds for its own position", forall(n, lambda i: both(at(vmin, where[i]) <= x[i], x[i] <= at(vmax, where[i]))))
        cover("initialized")
        check("uniform over the bounds of its own position", forall(n, lambda i: starts(draw(n0 + i), x[i], "uniform", at(vmin, where[i]), at(vmax, where[i]))))


def starts(d, x, kind, *params):
    return both(d[0] == kind, *[d[k + 1] == params[k] for k in range(len(params))], d[len(params) + 1] == x)


@proof("C22", under=(P + "GaussianPrior.initialize", P + "LaplacePrior.initialize", P + "CustomPrior.initialize", P + "GaussianPrior.sample",
                     P + "LaplacePrior.sample", P + "CustomPrior.sample"))
def other_starts():
    for dep in (False, True):
        for family in ("gaussian", "laplace", "custom"):
            n = integer("n", lo=1)
            where = array("where", n)
            pos = real("pos")
            if family == "custom":
                g = uf("user_sample", 1)
                p = CustomPrior("p", lambda v, pos: v, lambda pos=None: g(pos), 1.0)
                x = p.initialize(where)
                check("one value per position", len(x) == n)
                check("the user's sample for its own position", forall(n, lambda i: x[i] == g(where[i])))
                check("the user's sample", p.sample(pos) == g(pos))
                continue
            p = make_gaussian(dep) if family == "gaussian" else make_laplace(dep)
            mean, scale = hyper(p, dep, "mean", "std" if family == "gaussian" else "scale")
            if dep:
                assume(forall(n, lambda i: scale(where[i]) > 0))
                assume(scale(pos) > 0)
            n0 = len(draws())
            x = p.initialize(where)
            check("one value per position", len(x) == n)
            kind = "normal" if family == "gaussian" else "laplace"
            check("drawn with its own position's hyper-parameters",
                  forall(n, lambda i: starts(draw(n0 + i), x[i], kind, at(mean, where[i]), at(scale, where[i]))))
            n0 = len(draws())
            v = p.sample(pos)
            check("one draw", len(draws()) == n0 + 1)
            check("drawn with the position's hyper-parameters", starts(draw(n0), v, kind, at(mean, pos), at(scale, pos)))


def some_prior(family, given, where):
    """a prior whose hyper-parameters are the given values at the given positions"""
    a, b, s, sb = given
    if family == "uniform":
        return UniformPrior("p", a, b, s, sb, where), ("vmin", "vmax", "perturb_std", "perturb_std_birth")
    if family == "gaussian":
        return GaussianPrior("p", a, b, s, sb, where), ("mean", "std", "perturb_std", "perturb_std_birth")
    if family == "laplace":
        return LaplacePrior("p", a, b, s, sb, where), ("mean", "scale", "perturb_std", "perturb_std_birth")
    return CustomPrior("p", lambda v, pos: v, lambda pos: pos, s, sb, where), (None, None, "perturb_std", "perturb_std_birth")


H = (P + "Prior.add_hyper_params", P + "Prior._init_hyper_param", P + "Prior.get_hyper_param", P + "Prior.get_perturb_std", P + "Prior.get_perturb_std_birth")


@proof("C22", under=H, bare=("bayesbay._utils_1d._interpolate_linear_1d",))
def hyper_parameters_along_a_line():
    for family in ("uniform", "gaussian", "laplace", "custom"):
        n = integer("n", lo=2)
        where = array("where", n)
        assume(increasing(where))
        given = [array(x, n) for x in "abcd"]
        p, names = some_prior(family, given, where)
        pos = real("pos")
        for k in range(4):
            if names[k] is None:
                continue
            cover("queried")
            check("linearly interpolated", p.get_hyper_param(names[k], pos) == u._interpolate_linear_1d(pos, where, given[k]))
            check("a position is needed", raises(lambda: p.get_hyper_param(names[k]), ValueError))
        check("the standard deviation of a perturbation", p.get_perturb_std(pos) == p.get_hyper_param("perturb_std", pos))
        check("the standard deviation of a birth", p.get_perturb_std_birth(pos) == p.get_hyper_param("perturb_std_birth", pos))
        if family != "custom":
            check("the readers", readers(p, family, pos) == [p.get_hyper_param(names[0], pos), p.get_hyper_param(names[1], pos)])


def readers(p, family, pos):
    if family == "uniform":
        return list(p.get_vmin_vmax(pos))
    return [p.get_mean(pos), p.get_std(pos) if family == "gaussian" else p.get_scale(pos)]


@proof("C22", under=H + (P + "_interpolate_linear_nd",))
def hyper_parameters_in_the_plane():
    for family in ("uniform", "gaussian", "laplace", "custom"):
        n, d = integer("n", lo=4), integer("d", lo=2)
        where = array("where", n, d)
        given = [array(x, n) for x in "abcd"]
        p, names = some_prior(family, given, where)
        pos = array("pos", d)
        for k in range(4):
            if names[k] is None:
                continue
            if pure("scattered_inside", "bool", where, pos):
                cover("inside")
                check("the interpolated value", p.get_hyper_param(names[k], pos) == pure("scattered_linear", "real", where, given[k], pos))
            else:
                cover("outside")
                check("no value outside the domain", raises(lambda: p.get_hyper_param(names[k], pos), OutOfDomainException))


@proof("C22", under=H)
def scalar_hyper_parameters():
    for family in ("uniform", "gaussian", "laplace", "custom"):
        for placed in (False, True):
            given = [real(x) for x in "abcd"]
            where = array("where", integer("n", lo=2)) if placed else None
            p, names = some_prior(family, given, where)
            pos = real("pos")
            for k in range(4):
                if names[k] is not None:
                    check("the same everywhere", [p.get_hyper_param(names[k], pos) == given[k], p.get_hyper_param(names[k]) == given[k]])
