"""C08: coordinate transformations."""
from .systems import *

BOUNDS = "vector components any value in +-1000, angles any value in +-50 rad (normalised angle +-3); zero-sum three-phase vectors for the inverse"


def tmod():
    from gym_electric_motor.physical_systems.electric_motors.three_phase_motor import ThreePhaseMotor

    return ThreePhaseMotor


def clark(ctx):
    T = tmod()
    x = ctx.reals("x", 2, -1000, 1000)
    abc = T.t_32(x)
    ctx.eq(list(abc), iclarke(list(x)), "two-phase to three-phase")
    ctx.eq(abc[0] + abc[1] + abc[2], 0, "phases sum to zero")
    ctx.eq(list(T.t_23(abc)), list(x), "two-phase round trip")
    ctx.eq(abc[0] ** 2 + abc[1] ** 2 + abc[2] ** 2, 1.5 * (x[0] ** 2 + x[1] ** 2), "amplitude invariant", 1e-3)
    y = ctx.reals("y", 3, -1000, 1000)
    ab = T.t_23(y)
    ctx.eq(list(ab), clarke(list(y)), "three-phase to two-phase")
    m = (y[0] + y[1] + y[2]) / 3
    ctx.eq(list(T.t_32(ab)), [y[0] - m, y[1] - m, y[2] - m], "three-phase round trip up to the zero component")


def park_(ctx):
    T = tmod()
    x = ctx.reals("x", 2, -1000, 1000)
    e = ctx.real("eps", -50, 50)
    f = ctx.real("phi", -50, 50)
    s = T.q(x, e)
    ctx.eq(list(s), rot(list(x), e), "rotation into the stationary frame")
    ctx.eq(list(T.q_inv(s, e)), list(x), "rotation round trip")
    ctx.eq(list(T.q(T.q_inv(x, e), e)), list(x), "inverse round trip")
    ctx.eq(s[0] ** 2 + s[1] ** 2, x[0] ** 2 + x[1] ** 2, "length preserved", 1e-3)
    ctx.eq(list(T.q(T.q(x, e), f)), rot(list(x), e + f), "angles compose")
    ctx.eq(list(T.q_inv(x, e)), list(T.q(x, -e)), "inverse is the negative angle")


def mech(name):
    def h(ctx):
        m = make_motor(name)
        p = m.motor_parameter["p"]
        x = ctx.reals("x", 2, -1000, 1000)
        e = ctx.real("eps", -10, 10)
        ctx.eq(list(m.q_me(x, e)), rot(list(x), e * p), "mechanical angle")
        ctx.eq(list(m.q_inv_me(x, e)), irot(list(x), e * p), "inverse mechanical angle")

    return h


def system(name):
    def h(ctx):
        s = build(name)
        x = ctx.reals("x", 2, -1000, 1000)
        ea = ctx.reals("eps", 1, -3, 3)
        e = ea[0]
        u = iclarke(list(x))
        import math

        for normed in (False, True):
            a = e * math.pi if normed else e
            w = " (normalised angle)" if normed else ""
            ctx.eq(list(s.dq_to_abc_space(x, e, normed)), ipark(list(x), a), "dq to abc" + w)
            ctx.eq(list(s.abc_to_dq_space(ctx.array(u), e, normed)), park(u, a), "abc to dq" + w)
            ctx.eq(list(s.dq_to_alphabeta_space(x, e, normed)), rot(list(x), a), "dq to alphabeta" + w)
            ctx.eq(list(s.alphabeta_to_dq_space(x, e, normed)), irot(list(x), a), "alphabeta to dq" + w)
            ctx.eq(list(s.abc_to_dq_space(s.dq_to_abc_space(x, e, normed), e, normed)), list(x), "dq round trip" + w)
        ctx.eq(list(s.abc_to_alphabeta_space(ctx.array(u))), list(x), "abc to alphabeta")
        ctx.eq(list(s.alphabeta_to_abc_space(x)), u, "alphabeta to abc")
        # the caller's arrays
        v = ctx.array([x[0], x[1]])
        z = ctx.array(list(u))
        for f, arg in ((s.dq_to_abc_space, v), (s.abc_to_dq_space, z), (s.dq_to_alphabeta_space, v), (s.alphabeta_to_dq_space, v)):
            g = ctx.array([e]).reshape(())
            f(arg, g, True)
            ctx.eq(g[()], e, "angle argument unmodified", 0)
        s.abc_to_alphabeta_space(z)
        s.alphabeta_to_abc_space(v)
        ctx.eq(list(v), list(x), "vector argument unmodified", 0)
        ctx.eq(list(z), list(u), "three-phase argument unmodified", 0)

    return h


def cases(tier):
    out = [dict(name="clarke", fn=clark), dict(name="park", fn=park_)]
    out += [dict(name="mech-" + n, fn=mech(n)) for n in ("pmsm", "synrm", "eesm", "scim", "dfim")]
    out += [dict(name="system-" + n, fn=system(n)) for n in ("pmsm", "eesm", "scim", "dfim")]
    return out
