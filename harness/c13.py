"""C13: static polynomial loads."""
from .systems import *
from .rng import Draws
from symex.core import And, Or

BOUNDS = "every speed in +-1000 rad/s, torque in +-1000 Nm, load coefficients a<=10, b<=1, c<=0.1, inertia of load (also zero) and rotor <= 10 kg m^2"


def first(x):
    return list(core.flat([x]))[0]


def make(ctx, zero=False, rotor=True):
    a, b, c = ctx.real("a", 0, 10), ctx.real("b", 0, 1), ctx.real("c", 0, 0.1)
    j = 0.0 if zero else ctx.real("j_load", 1e-6, 10)
    r = ctx.real("j_rotor", 1e-6, 10) if rotor else 0.0
    l = ps().PolynomialStaticLoad(dict(a=a, b=b, c=c, j_load=j))
    if rotor:
        l.set_j_rotor(r)
    return l, a, b, c, j + r


def friction(zero, rotor):
    def f(ctx):
        l, a, b, c, j = make(ctx, zero, rotor)
        w, T, t = ctx.real("omega", -1000, 1000), ctx.real("T", -1000, 1000), ctx.real("t", 0, 100)
        ctx.eq(l.j_total, j, "total inertia is load plus rotor inertia", 1e-9)
        acc = lambda ww, tt: first(l.mechanical_ode(t, ctx.array([ww]), tt))
        x = acc(w, T) * j
        load = T - x
        ctx.le(0, load * w, "load torque opposes the motion", 1e-6)
        ctx.eq(acc(-w, -T) * j, -x, "odd in speed and torque", 1e-6)
        ctx.eq(acc(w, 0.0) * j, -load, "acceleration is net torque over inertia", 1e-6)
        aw = abs(w)
        ctx.le(abs(load), a + b * aw + c * w * w, "no more than the documented polynomial", 1e-6)
        ctx.le(b * aw + c * w * w, abs(load), "no less than the viscous and quadratic part", 1e-6)
        ctx.eq(acc(0.0, 0.0), 0.0, "no acceleration from standstill by friction", 0)

    return f


def polynomial(ctx):
    l, a, b, c, j = make(ctx)
    w = ctx.real("omega", -1000, 1000)
    ctx.assume(Or(w > a / j * l.tau_decay, w < -a / j * l.tau_decay))
    load = -first(l.mechanical_ode(0.0, ctx.array([w]), 0.0)) * j
    ref = a + b * w + c * w * w if w > 0 else -a + b * w - c * w * w
    ctx.eq(load, ref, "documented polynomial outside the smoothed region", 1e-6)


def monotone(ctx):
    l, a, b, c, j = make(ctx)
    w, v = ctx.real("omega", -1000, 1000), ctx.real("omega2", -1000, 1000)
    ctx.assume(w <= v)
    f = lambda x: -first(l.mechanical_ode(0.0, ctx.array([x]), 0.0)) * j
    ctx.le(f(w), f(v), "friction does not decrease with speed", 1e-6)


def inside(name):
    """the drive adds the rotor inertia of its motor, once"""

    def f(ctx):
        j, r = ctx.real("j_load", 1e-6, 1), ctx.real("j_rotor", 1e-6, 1)
        l = ps().PolynomialStaticLoad(dict(a=0.0, b=0.0, c=0.0, j_load=j))
        m = make_motor(name, motor_parameter=dict(j_rotor=r))
        s = build(name, ctx, motor=m, load=l, solver=rec_solver(ctx))
        s.reset()
        ctx.eq(s.mechanical_load.j_total, j + r, "total inertia of the drive", 1e-9)
        T = ctx.real("T", -100, 100)
        ctx.eq(first(l.mechanical_ode(0.0, ctx.array([0.0]), T)) * (j + r), T, "acceleration of the frictionless drive", 1e-9)
        ctx.eq(s.electrical_motor.motor_parameter["j_rotor"], r, "rotor inertia of the motor", 0)

    return f


def start(ctx):
    """initial speed: constants are kept, random speeds lie in the requested interval and the nominal range"""
    with Draws(ctx):
        kind = ctx.choice("kind", [None, "uniform", "gaussian", "interval"])
        w0 = ctx.real("omega0", -300, 300)
        init = dict(states=dict(omega=w0))
        lo, hi = ctx.real("lo", -400, 250), ctx.real("hi", -250, 400)
        if kind is not None:
            init["random_init"] = "uniform" if kind == "interval" else kind
        if kind == "interval":
            ctx.assume(lo <= hi)
            init["interval"] = [[lo, hi]]
        l = ps().PolynomialStaticLoad(load_initializer=init, limits=dict(omega=400.0))
        m = make_motor("permex", nominal_values=dict(omega=300.0), limit_values=dict(omega=400.0))
        sol = rec_solver(ctx)
        s = build("permex", ctx, motor=m, load=l, solver=sol)
        s.reset()
        w = list(core.flat([sol.init[-1][0]]))[0]
        if kind is None:
            ctx.eq(w, w0, "initial speed", 0)
        else:
            ctx.le(w, 300.0, "not above nominal speed", 1e-6)
            ctx.le(-300.0, w, "not below negative nominal speed", 1e-6)
        if kind == "interval":
            ctx.le(lo, w, "not below the interval", 1e-6)
            ctx.le(w, hi, "not above the interval", 1e-6)
        ctx.eq(init["states"]["omega"], w0, "user's dictionary unmodified", 0)


def cases(tier):
    out = [dict(name="friction", fn=friction(False, True)), dict(name="friction-no-rotor", fn=friction(False, False)),
           dict(name="friction-massless-load", fn=friction(True, True)), dict(name="polynomial", fn=polynomial),
           dict(name="monotone", fn=monotone), dict(name="initial-speed", fn=start)]
    for n in MOTORS:
        out.append(dict(name="inertia-" + n, fn=inside(n)))
    return out
