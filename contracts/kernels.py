from verif import *
import bayesbay._utils_1d as u


def ascending(a):
    return forall(0, len(a) - 1, lambda i: a[i] < a[i + 1])


@contract("bayesbay._utils_1d.insert_1d", props=("C14", "C05"))
class InsertOne:
    def args():
        n = nat("n")
        return (array("values", n), integer("index", size=False), real("value"))

    def requires(values, index, value):
        return [("index within 0..len", both(index >= 0, index <= len(values)))]

    exact = True

    def result(values, index, value):
        return array_of(len(values) + 1, lambda i: values[i] if i < index else value if i == index else values[i - 1])

    def ensures(r, values, index, value):
        return [("length grows by one", len(r) == len(values) + 1),
                ("entries before", forall(index, lambda i: r[i] == values[i])),
                ("the new entry", r[index] == value),
                ("entries after", forall(index, len(values), lambda i: r[i + 1] == values[i]))]


@contract("bayesbay._utils_1d.delete_1d", props=("C14", "C05"))
class DeleteOne:
    def args():
        n = nat("n")
        return (array("values", n), integer("index", size=False))

    def requires(values, index):
        return [("index within 0..len-1", both(index >= 0, index < len(values)))]

    exact = True

    def result(values, index):
        return array_of(len(values) - 1, lambda i: values[i] if i < index else values[i + 1])

    def ensures(r, values, index):
        return [("length shrinks by one", len(r) == len(values) - 1),
                ("entries before", forall(index, lambda i: r[i] == values[i])),
                ("entries after", forall(index, len(values) - 1, lambda i: r[i] == values[i + 1]))]


def increasing(a):
    return forall2(len(a), len(a), lambda i, j: implies(i < j, a[i] < a[j]))


def ordered(a):
    return forall2(len(a), len(a), lambda i, j: implies(i < j, a[i] <= a[j]))


@contract("bayesbay._utils_1d.is_sorted", props=("C05", "C14"))
class IsSorted:
    def args():
        n = nat("n")
        assume(n >= 1)
        return (array("arr", n),)

    def requires(arr):
        return [("not empty", len(arr) >= 1)]

    def result(arr):
        return boolean("sorted")

    def ensures(r, arr):
        return [("true only when ordered", implies(r, forall(len(arr) - 1, lambda i: arr[i] <= arr[i + 1]))),
                ("false only when not ordered", implies(neg(r), some(len(arr) - 1, lambda i: arr[i] > arr[i + 1])))]


@contract("bayesbay._utils_1d.nearest_neighbour_1d", props=("C14", "C15", "C05"))
class NearestOne:
    def args():
        n = integer("n", lo=1)
        return (real("xp"), array("x", n), n)

    def requires(xp, x, xlen):
        return [("length", both(xlen == len(x), xlen >= 1)), ("ordered grid", ordered(x))]

    def result(xp, x, xlen):
        return pure("nearest", "int", xp, x)

    def ensures(r, xp, x, xlen):
        return [("an index of the grid", both(r >= 0, r < xlen)),
                ("no site is closer", forall(len(x), lambda j: abs(x[r] - xp) <= abs(x[j] - xp)))]


@contract("bayesbay._utils_1d._interpolate_linear_1d", props=("C14", "C22"))
class Linear:
    def args():
        n = integer("n", lo=1)
        return (real("xp"), array("x", n), array("y", n))

    def requires(xp, x, y):
        return [("lengths", both(len(x) == len(y), len(x) >= 1)), ("increasing grid", increasing(x))]

    def result(xp, x, y):
        return pure("linear", "real", xp, x, y)

    def ensures(r, xp, x, y):
        return linear(r, xp, x, y)


def linear(r, xp, x, y):
    n = len(x)
    return [("left of the grid", implies(xp <= x[0], r == y[0])),
            ("right of the grid", implies(xp >= x[n - 1], r == y[n - 1])),
            ("at a grid point", forall(n, lambda j: implies(xp == x[j], r == y[j]))),
            ("between grid points", implies(both(xp > x[0], xp < x[n - 1]), some(n - 1, lambda j: both(x[j] <= xp, xp <= x[j + 1],
                                                                        (r - y[j]) * (x[j + 1] - x[j]) == (xp - x[j]) * (y[j + 1] - y[j])))))]


@contract("bayesbay._utils_1d._interpolate_nearest_1d", props=("C14",))
class Nearest:
    def args():
        n = integer("n", lo=1)
        return (real("xp"), array("x", n), array("y", n))

    def requires(xp, x, y):
        return [("lengths", both(len(x) == len(y), len(x) >= 1)), ("increasing grid", increasing(x))]

    def result(xp, x, y):
        return pure("nearest_value", "real", xp, x, y)

    def ensures(r, xp, x, y):
        n = len(x)
        return [("value of a closest site", some(n, lambda j: both(r == y[j], forall_closest(x, xp, j))))]


def forall_closest(x, xp, j):
    return both(either(j == 0, abs(x[j] - xp) <= abs(x[ite(j == 0, 0, j - 1)] - xp)),
                either(j == len(x) - 1, abs(x[j] - xp) <= abs(x[ite(j == len(x) - 1, j, j + 1)] - xp)))


@contract("bayesbay._utils_1d.compute_voronoi1d_cell_extents", props=("C15",))
class Extents:
    def args():
        n = integer("n", lo=1)
        return (array("sites", n), real("lb"), real("ub"), real("fill"))

    def requires(sites, lb, ub, fill):
        return [("at least one site", len(sites) >= 1)]

    def result(sites, lb, ub, fill):
        return array("extent", len(sites))

    def ensures(r, sites, lb, ub, fill):
        return extents(r, sites, lb, ub, fill)


def extents(r, sites, lb, ub, fill):
    n = len(sites)
    out = [("one extent per cell", len(r) == n),
           ("inner cells", forall(1, n - 1, lambda i: r[i] == (sites[i + 1] - sites[i - 1]) / 2))]
    if lb == -INF:
        out.append(("first cell without bound", implies(n > 1, r[0] == fill)))
    else:
        out.append(("first cell", implies(n > 1, r[0] == (sites[0] + sites[ite(n > 1, 1, 0)]) / 2 - lb)))
    if ub == INF:
        out.append(("last cell without bound", r[n - 1] == fill))
    else:
        out.append(("last cell", implies(n > 1, r[n - 1] == ub - (sites[ite(n > 1, n - 2, 0)] + sites[n - 1]) / 2)))
    if lb != -INF and ub != INF:
        out.append(("a single cell", implies(n == 1, r[0] == ub - lb)))
    if lb == -INF:
        out.append(("a single cell without lower bound", implies(n == 1, r[0] == fill)))
    return out


@proof("C15", under="bayesbay._utils_1d.compute_voronoi1d_cell_extents")
def extents_unbounded():
    n = integer("n", lo=1)
    s = array("sites", n)
    for lb in (real("lb"), -INF, 0):
        for ub in (real("ub"), INF):
            fill = real("fill")
            r = u.compute_voronoi1d_cell_extents(s, lb, ub, fill)
            cover("extents")
            for name, c in extents(r, s, lb, ub, fill):
                check(name, c)


@contract("bayesbay._utils_1d.inverse_covariance", props=("C11",))
class InverseCovariance:
    def args():
        return (real("sigma"), real("r"), integer("n", lo=1))

    def requires(sigma, r, n):
        return [("domain", both(sigma > 0, r >= 0, r < 1, n >= 1))]

    exact = True

    def result(sigma, r, n):
        return array_of(n, n, lambda i, j: inverse_entry(i, j, sigma, r, n))

    def ensures(m, sigma, r, n):
        return [("shape", both(m.shape[0] == n, m.shape[1] == n))]


def inverse_entry(i, j, sigma, r, n):
    """entry of the inverse of the matrix sigma^2 r^|i-j|"""
    f = 1 / (sigma**2 * (1 - r**2))
    return ite(i == j, ite(n == 1, 1 / sigma**2, ite(either(i == 0, i == n - 1), f, (1 + r**2) * f)), ite(either(i == j + 1, j == i + 1), -r * f, 0))


BARE = ("bayesbay._utils_1d._interpolate_linear_1d", "bayesbay._utils_1d._interpolate_nearest_1d")


@proof("C14", "C22", under=("bayesbay._utils_1d.interpolate_linear_1d", "bayesbay._utils_1d.interpolate_nearest_1d"), bare=BARE)
def interpolation_at_many_points():
    n, k = integer("n", lo=1), nat("k")
    x, y, q = array("x", n), array("y", n), array("q", k)
    assume(increasing(x))
    r = u.interpolate_linear_1d(q, x, y)
    check("one value per query point", len(r) == k)
    check("interpolated at each point", forall(k, lambda i: r[i] == u._interpolate_linear_1d(q[i], x, y)))
    r = u.interpolate_nearest_1d(q, x, y)
    check("one value per query point", len(r) == k)
    check("nearest at each point", forall(k, lambda i: r[i] == u._interpolate_nearest_1d(q[i], x, y)))
    p = real("p")
    one = u.interpolate_linear_1d(p, x, y)
    check("interpolated at one point", one == u._interpolate_linear_1d(p, x, y))
    one = u.interpolate_nearest_1d(p, x, y)
    check("nearest at one point", one == u._interpolate_nearest_1d(p, x, y))
