"""one instance of a nested space, uniformly among all, is perturbed by one of its perturbations"""
from verif import *
import numpy as np
from bayesbay._state import State, ParameterSpaceState, DataNoiseState
from bayesbay.perturbations._param_space import ParamSpacePerturbation
from bayesbay.perturbations._base_perturbation import Perturbation

C = "bayesbay.perturbations._param_space.ParamSpacePerturbation."


class World:
    pass


W = World()


class Move(Perturbation):
    """an arbitrary perturbation of a space: a new state and a ratio that depend on the state it is given"""

    def __init__(self, j):
        self.j = j

    def perturb_param_space_state(self, ps_state):
        W.calls += 1
        W.type = self.j
        return ParameterSpaceState(1, {"x": array_of(1, lambda i: pure("moved", "real", self.j, ps_state["x"][0]))}), pure("ratio", "real", self.j, ps_state["x"][0])

    @property
    def __name__(self):
        return name_of("type", self.j)


def moves():
    W.k, W.calls = integer("moves", lo=1), 0
    w = array("weights", W.k)
    assume(forall(W.k, lambda j: w[j] > 0))
    W.w = w
    return [Move(j) for j in range(W.k)]


def leaf(value):
    return ParameterSpaceState(1, {"x": array_of(1, lambda i: value)})


def one_move(new, ratio, x):
    """exactly one move happened, to the instance of value x; which one is drawn with the weights of the perturbations"""
    check("C18: exactly one move", W.calls == 1)
    check("C02,C03,C18: the log ratio is that of the move", ratio == pure("ratio", "real", W.type, x))
    stats = new.load_from_cache("perturb_stats")
    check("C21: counted as that kind of move, and no other", both(len(stats) == 1, stats[name_of("type", W.type)] == 1))


@proof("C02", "C03", "C07", "C18", "C21", under=C + "perturb")
def a_top_level_space():
    p = integer("spaces", lo=1)
    v = ufi("v", 1)
    name, at = name_of("space", 0), integer("at", lo=0, hi=p - 1, size=False)
    state = State({name_of("space", i): leaf(v(i)) for i in range(p)})
    ms = moves()
    before = snapshot(state)
    new, ratio = ParamSpacePerturbation(name_of("space", at), ms, [W.w[j] for j in range(W.k)]).perturb(state)
    cover("perturbed")
    check("C07: the current state is left as it was", unchanged(before))
    one_move(new, ratio, v(at))
    check("C18: the only instance", both(draw(0)[1] == 0, draw(0)[2] == 0))
    check("C07,C18: its new state takes its place", new[name_of("space", at)]["x"][0] == pure("moved", "real", W.type, v(at)))
    check("C07,C18: the others are kept", forall(p, lambda i: implies(i != at, new[name_of("space", i)]["x"][0] == v(i))))


@proof("C02", "C03", "C07", "C18", "C21", under=C + "perturb")
def a_nested_space():
    n = integer("instances", lo=1)
    v = ufi("v", 1)
    a = ParameterSpaceState(n, {"s": [leaf(v(i)) for i in range(n)], "y": array_of(n, lambda i: real("y"))})
    state = State({"a": a, "b": leaf(real("b")), "t": DataNoiseState(real("std"), real("corr"))})
    ms = moves()
    before = snapshot(state)
    new, ratio = ParamSpacePerturbation("s", ms, [W.w[j] for j in range(W.k)]).perturb(state)
    cover("perturbed")
    check("C07: the current state is left as it was", unchanged(before))
    check("C18: one instance, uniformly", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    at = draw(0)[3]
    one_move(new, ratio, v(at))
    check("C04: as many instances", len(new["a"]["s"]) == n)
    check("C07,C18: its new state takes its place", new["a"]["s"][at]["x"][0] == pure("moved", "real", W.type, v(at)))
    check("C07,C18: the other instances are kept", forall(n, lambda i: implies(i != at, new["a"]["s"][i]["x"][0] == v(i))))


@proof("C02", "C03", "C07", "C18", "C21", under=C + "perturb")
def a_space_nested_twice():
    n, m = integer("n", lo=1), integer("m", lo=1)
    u, v = ufi("u", 1), ufi("v", 1)
    a = ParameterSpaceState(n, {"s": [leaf(u(i)) for i in range(n)]})
    b = ParameterSpaceState(m, {"s": [leaf(v(i)) for i in range(m)], "y": array_of(m, lambda i: real("y"))})
    state = State({"o": ParameterSpaceState(2, {"a": [a, b]}), "t": DataNoiseState(real("std"), real("corr"))})
    ms = moves()
    before = snapshot(state)
    new, ratio = ParamSpacePerturbation("s", ms, [W.w[j] for j in range(W.k)]).perturb(state)
    cover("perturbed")
    check("C07: the current state is left as it was", unchanged(before))
    check("C18: one instance, uniformly", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n + m - 1])
    at = draw(0)[3]
    one_move(new, ratio, ite(at < n, u(at), v(at - n)))
    one, two = new["o"]["a"]
    check("C04: as many instances", [len(one["s"]) == n, len(two["s"]) == m])
    check("C07,C18: its new state takes its place, and the other instances are kept",
          [forall(n, lambda i: one["s"][i]["x"][0] == ite(i == at, pure("moved", "real", W.type, u(i)), u(i))),
           forall(m, lambda i: two["s"][i]["x"][0] == ite(i == at - n, pure("moved", "real", W.type, v(i)), v(i)))])


@proof("C02", "C03", "C07", "C18", "C21", under=C + "perturb")
def a_space_nested_in_a_single_instance():
    n = integer("n", lo=1)
    u = ufi("u", 1)
    a = ParameterSpaceState(n, {"s": [leaf(u(i)) for i in range(n)]})
    state = State({"t": DataNoiseState(real("std"), real("corr")), "o": ParameterSpaceState(1, {"a": [a]})})
    ms = moves()
    before = snapshot(state)
    new, ratio = ParamSpacePerturbation("s", ms, [W.w[j] for j in range(W.k)]).perturb(state)
    cover("perturbed")
    check("C07: the current state is left as it was", unchanged(before))
    check("C18: one instance, uniformly", [draw(0)[0] == "randint", draw(0)[1] == 0, draw(0)[2] == n - 1])
    at = draw(0)[3]
    one_move(new, ratio, u(at))
    one = new["o"]["a"][0]
    check("C04: as many instances", both(len(new["o"]["a"]) == 1, len(one["s"]) == n))
    check("C07,C18: its new state takes its place, and the other instances are kept",
          forall(n, lambda i: one["s"][i]["x"][0] == ite(i == at, pure("moved", "real", W.type, u(i)), u(i))))
