"""C14: loads that impose the speed."""
from .systems import *
from .rng import Draws
from symex import shim
from symex.core import And, Or

BOUNDS = ("constant speed: every speed in the nominal range, torque and voltage; profiles: every parabola with coefficients up to 100, first four steps of 1e-4 s, "
          "Euler solver with one sub-step per step and the profile's step time equal to the drive's (all drives but the DFIM); random walk: every draw, every speed range, drift and mean, six steps")
OMBOX = dict(permex=300, series=80, shunt=300, extex=300, pmsm=250, synrm=250, eesm=200, scim=300, dfim=170)


def first(x):
    return list(core.flat([x]))[0]


def action(ctx, name, tag=""):
    if n_act(name) < 3:
        return ctx.array([ctx.real(f"act{tag}{k}", -1, 1) for k in range(n_act(name))])
    # the speed must not depend on the electrical side: a few voltages suffice there
    return ctx.array([0.3, -0.2, 0.4, 0.1, 0.25, -0.3][: n_act(name)])


def reported(ctx, s, x):
    k = s.state_names.index("omega")
    return x[k] * s.limits[k]


def const(how):
    def f(ctx):
        w = ctx.real("omega_fixed", -300, 300)
        ctx.assume(Or(w > 1e-3, w < -1e-3)) if how == "fixed" else None
        p = ps()
        l = p.ConstantSpeedLoad(omega_fixed=w) if how == "fixed" else p.ConstantSpeedLoad(load_initializer=dict(states=dict(omega=w)))
        T, t, ww = ctx.real("T", -1000, 1000), ctx.real("t", 0, 100), ctx.real("omega", -1000, 1000)
        ctx.eq(l.omega_fixed, w, "configured speed", 0)
        ctx.eq(first(l.mechanical_ode(t, ctx.array([ww]), T)), 0.0, "no acceleration", 0)
        J = l.mechanical_jacobian(t, ctx.array([ww]), T)
        ctx.eq([first(J[0]), first(J[1])], [0.0, 0.0], "Jacobian", 0)
        l.set_j_rotor(0.1)
        names = ["omega", "torque"]
        from gymnasium.spaces import Box

        y = l.reset(state_space=Box(-1, 1, (2,)), state_positions=dict(omega=0, torque=1), nominal_state=np.array([300.0, 1.0]))
        ctx.eq(first(y), w, "speed after a reset", 0)
        ctx.eq(first(l.mechanical_ode(t, ctx.array([ww]), T)), 0.0, "no acceleration after a reset", 0)

    return f


def drive_const(name, how):
    def f(ctx):
        p = ps()
        w = ctx.real("omega_fixed", 0.0 if name in ("series", "shunt") else -OMBOX[name] / 2, OMBOX[name] / 2)
        if how == "fixed":
            ctx.assume(Or(w > 1e-3, w < -1e-3))
        with Draws(ctx):
            kw = dict(omega_fixed=w) if how == "fixed" else dict(load_initializer=dict(states=dict(omega=w)))
            sol = p.EulerSolver()
            if name in ("scim", "dfim"):  # the drawing of flux limits is not of interest here
                w = OMBOX[name] / 4
                kw = dict(omega_fixed=w) if how == "fixed" else dict(load_initializer=dict(states=dict(omega=w)))
            s = build(name, ctx, load=p.ConstantSpeedLoad(**kw), solver=sol)
            x = s.reset()
            ctx.eq(reported(ctx, s, x), w, "reported speed after a reset", 1e-6)
            for k in range(2):
                x = s.simulate(action(ctx, name, f"{k}_"))
                ctx.eq(reported(ctx, s, x), w, f"reported speed after step {k + 1}", 1e-6)
            x = s.reset()
            ctx.eq(reported(ctx, s, x), w, "reported speed after a second reset", 1e-6)

    return f


def profile(name, n):
    def f(ctx):
        p = ps()
        a, b, c = ctx.real("a", -100, 100), ctx.real("b", -100, 100), ctx.real("c", -100, 100)
        w = lambda t, b, c, a=0.0: a + b * t + c * t * t
        kw = dict(a=a, b=b, c=c)
        l = p.ExternalSpeedLoad(w, tau=TAU, speed_profile_kwargs=kw)
        s = build(name, ctx, load=l, solver=p.EulerSolver())
        for ep in range(2 if n_act(name) < 3 else 1):
            x = s.reset()
            ctx.eq(reported(ctx, s, x), a, f"speed at the start of episode {ep}", 1e-6)
            for k in range(n):
                x = s.simulate(action(ctx, name, f"{k}_"))
                t = (k + 1) * TAU
                ctx.eq(reported(ctx, s, x), a + b * t + c * t * t, f"speed after step {k + 1} of episode {ep}", 1e-6)
        ctx.eq([kw["a"], kw["b"], kw["c"], len(kw)], [a, b, c, 3], "user's dictionary unmodified", 0)

    return f


def profile_local(ctx):
    """every profile value, torque and current speed"""
    tau = ctx.real("tau", 1e-5, 1e-2)
    t, w0, T = ctx.real("t", 0, 10), ctx.real("omega", -500, 500), ctx.real("T", -100, 100)
    seen = []
    nxt = ctx.real("next", -500, 500)

    def prof(t, gain):
        seen.append((t, gain))
        return nxt * gain

    l = ps().ExternalSpeedLoad(prof, tau=tau, speed_profile_kwargs=dict(gain=2.0))
    ctx.eq(first(l.reset()), 2 * nxt, "initial speed", 0)
    ctx.eq(l.omega, 2 * nxt, "declared speed", 0)
    ctx.eq([seen[0][0], seen[0][1]], [0, 2.0], "profile evaluated at zero with its arguments", 0)
    d = first(l.mechanical_ode(t, ctx.array([w0]), T))
    ctx.eq(seen[-1][0], t + tau, "profile evaluated one step ahead", 1e-9)
    ctx.eq(w0 + tau * d, 2 * nxt, "speed reaches the profile within the step", 1e-6)


def walk(n):
    def f(ctx):
        p = ps()
        with Draws(ctx):
            lo, hi = ctx.real("lo", -200, 200), ctx.real("hi", -200, 200)
            ctx.assume(lo <= hi)
            mu, th, sg = ctx.real("mu", -300, 300), ctx.real("theta", 0, 1e5), ctx.real("sigma", 0, 1e6)
            l = p.OrnsteinUhlenbeckLoad(mu=mu, sigma=sg, theta=th, tau=TAU, omega_range=(lo, hi))
            l.set_j_rotor(0.1)
            from gymnasium.spaces import Box

            for ep in range(2):
                y = first(l.reset(state_space=Box(-1, 1, (1,)), state_positions=dict(omega=0), nominal_state=np.array([300.0])))
                ctx.le(lo, y, "start not below the range", 1e-6)
                ctx.le(y, hi, "start not above the range", 1e-6)
                for k in range(n if ep == 0 else 1):
                    T = ctx.real(f"T{ep}{k}", -1000, 1000)
                    d = first(l.mechanical_ode(k * TAU, ctx.array([y]), T))
                    y = y + TAU * d
                    ctx.le(lo, y, "not below the range", 1e-6)
                    ctx.le(y, hi, "not above the range", 1e-6)
                    if k:
                        break
                    # the next step starts anywhere in the range
                    y = ctx.real(f"any{ep}{k}", -200, 200)
                    ctx.assume(And(lo <= y, y <= hi))

    return f


def walk_drive(name):
    def f(ctx):
        p = ps()
        with Draws(ctx):
            l = p.OrnsteinUhlenbeckLoad(mu=10.0, sigma=3e7, theta=3e3, tau=TAU, omega_range=(-100.0, 50.0))
            s = build(name, ctx, load=l, solver=p.EulerSolver())
            x = s.reset()
            for k in range(3):
                ctx.le([-100.0], [reported(ctx, s, x)], "reported speed not below the range", 1e-6)
                ctx.le([reported(ctx, s, x)], [50.0], "reported speed not above the range", 1e-6)
                x = s.simulate(action(ctx, name, f"{k}_"))

    return f


def cases(tier):
    out = [dict(name="const-" + h, fn=const(h)) for h in ("fixed", "initializer")]
    out.append(dict(name="profile-step", fn=profile_local))
    out.append(dict(name="walk", fn=walk(2)))
    for n in MOTORS:
        for h in ("fixed", "initializer"):
            if tier == "thorough" or h == "fixed" or n == "permex":
                out.append(dict(name=f"drive-{n}-{h}", fn=drive_const(n, h)))
        if n != "dfim":  # the rotor flux angle of the de-energised machine is undefined in the second step
            out.append(dict(name=f"profile-{n}", fn=profile(n, 4 if tier == "thorough" else 2)))
    for n in ("permex", "shunt", "extex"):
        out.append(dict(name=f"walk-{n}", fn=walk_drive(n)))
    return out
