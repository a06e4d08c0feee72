"""shared helpers for the converter harnesses"""
from symex.core import And, Or, Not, Implies, ite
import numpy as np

TAU = 1e-4


def cv():
    from gym_electric_motor.physical_systems import converters

    return converters


FINITE = {
    "F1QC": ("FiniteOneQuadrantConverter", 2, 1),
    "F2QC": ("FiniteTwoQuadrantConverter", 3, 1),
    "F4QC": ("FiniteFourQuadrantConverter", 4, 1),
    "FB6": ("FiniteB6BridgeConverter", 8, 3),
}
CONT = {
    "C1QC": ("ContOneQuadrantConverter", 1),
    "C2QC": ("ContTwoQuadrantConverter", 1),
    "C4QC": ("ContFourQuadrantConverter", 1),
    "CB6": ("ContB6BridgeConverter", 3),
}


def make(name, tau=TAU, til=0.0):
    cls = (FINITE.get(name) or CONT.get(name))[0]
    return getattr(cv(), cls)(tau=tau, interlocking_time=til)


def leg_levels(name, action):
    """documented commanded potential of every half bridge (1 upper, 0 lower, None off) and how the output voltages
    are formed from the leg potentials"""
    if name == "F2QC":
        return [[None, 1, 0][action]], (lambda v: [v[0]])
    if name == "F4QC":
        return [[1, 0], [1, 0], [0, 1], [0, 1]] and [[(1, 1), (1, 0), (0, 1), (0, 0)][action][0], [(1, 1), (1, 0), (0, 1), (0, 0)][action][1]], (
            lambda v: [v[0] - v[1]]
        )
    if name == "FB6":
        return [(action >> 2) & 1, (action >> 1) & 1, action & 1], (lambda v: [x - 0.5 for x in v])
    raise KeyError(name)


def leg_currents(name, i):
    if name == "F4QC":
        return [i[0], -i[0]]
    return list(i)


def free(i):
    """potential of a leg with both transistors off: freewheeling into the upper rail for i < 0"""
    return ite(i < 0, 1.0, 0.0)


def zero_sum(ctx, name, n, lim):
    if n == 3:
        a = ctx.real(name + "a", -lim, lim)
        b = ctx.real(name + "b", -lim, lim)
        return [a, b, -a - b]
    return [ctx.real(f"{name}{k}", -lim, lim) for k in range(n)]
