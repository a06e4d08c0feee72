"""C11: Jacobians are the derivatives; evaluations are pure.

All right-hand sides are at most quadratic in every single state entry, for those the central difference quotient with any
step equals the derivative; the quotient is formed from the real right-hand side and compared with the real Jacobian at an
arbitrary state.  (For the polynomial load both evaluation points lie on the same piece.)"""
from .systems import *
from symex import shim

MOT = ("permex", "series", "shunt", "extex", "pmsm", "synrm", "eesm", "scim", "dfim")
BOUNDS = ("arbitrary states (currents +-300/500/20 A, fluxes +-2 Vs, speed +-1500 rad/s), voltages +-600 V, torques +-200 Nm, times [0, 10] s; default motor "
          "parameters; polynomial load with every combination of zero/non-zero a, b, c; constant speed load")


def nu(name):
    return {"extex": 2, "eesm": 3, "scim": 2, "dfim": 4}.get(name, 2 if name in ("pmsm", "synrm") else 1)


def volts(ctx, name, tag="u"):
    u = ctx.array([ctx.real(f"{tag}{k}", -600, 600) for k in range(nu(name))])
    return u.reshape(2, 2) if name == "dfim" else u


def x_of(ctx, name, tag=""):
    return ctx.array([ctx.real(tag + n, -BOX[n], BOX[n]) for n in MOTORS[name][2]])


def shifted(ctx, x, k, h):
    y = list(x)
    y[k] = y[k] + h
    return ctx.array(y)


def cp(ctx, a):
    return ctx.array([e for e in core.flat([a])])


def jac_of(m, *a):
    """deep copy of a tuple of arrays"""
    return [list(core.flat([q])) for q in m(*a)]


def motor(name):
    def f(ctx):
        m = shim.symbolify(make_motor(name))
        x, u, w = x_of(ctx, name), volts(ctx, name), ctx.real("omega", -1500, 1500)
        if not m.HAS_JACOBIAN:
            ctx.same(name in ("dfim_none",), True, "motor offers a Jacobian")
        n = len(x)
        J, Jw, Jt = m.electrical_jacobian(x, u, w)
        J, Jw, Jt = np.asarray(J, dtype=object), list(core.flat([Jw])), list(core.flat([Jt]))
        ctx.same(J.shape, (n, n), "shape of the Jacobian")
        for k in range(n):
            h = 0.5
            a, b = m.electrical_ode(shifted(ctx, x, k, h), u, w), m.electrical_ode(shifted(ctx, x, k, -h), u, w)
            ctx.eq([J[r, k] for r in range(n)], [(a[r] - b[r]) for r in range(n)], f"derivative with respect to {MOTORS[name][2][k]}", 1e-4)
            ta, tb = m.torque(shifted(ctx, x, k, h)), m.torque(shifted(ctx, x, k, -h))
            ctx.eq(Jt[k], ta - tb, f"torque derivative with respect to {MOTORS[name][2][k]}", 1e-4)
        a, b = m.electrical_ode(x, u, w + 0.5), m.electrical_ode(x, u, w - 0.5)
        ctx.eq(Jw, [a[r] - b[r] for r in range(n)], "derivative with respect to the speed", 1e-4)

    return f


def motor_pure(name):
    def f(ctx):
        m = shim.symbolify(make_motor(name))
        x, u, w = x_of(ctx, name), volts(ctx, name), ctx.real("omega", -1500, 1500)
        y, v, w2 = x_of(ctx, name, "y"), volts(ctx, name, "v"), ctx.real("omega2", -1500, 1500)
        x0, u0, y0 = cp(ctx, x), cp(ctx, u), cp(ctx, y)
        for lab, fn in (("equation", m.electrical_ode), ("Jacobian", m.electrical_jacobian)):
            r1 = fn(x, u, w)
            c1 = list(core.flat([r1]))
            r2 = fn(y, v, w2)
            ctx.eq(list(core.flat([r1])), c1, f"earlier result of the {lab} unchanged", 0)
            r3 = fn(x, u, w)
            ctx.eq(list(core.flat([r3])), c1, f"{lab} repeats", 0)
        t1 = m.torque(x)
        i1 = list(core.flat([m.i_in(x)]))
        m.torque(y), m.i_in(y)
        ctx.eq(m.torque(x), t1, "torque repeats", 0)
        ctx.eq(list(core.flat([m.i_in(x)])), i1, "input currents repeat", 0)
        ctx.eq(list(x), list(x0), "state argument unchanged", 0)
        ctx.eq(list(core.flat([u])), list(u0), "voltage argument unchanged", 0)
        ctx.eq(list(y), list(y0), "second argument unchanged", 0)

    return f


def poly_load(a, b, c):
    l = ps().PolynomialStaticLoad(dict(a=a, b=b, c=c, j_load=1e-3))
    l.set_j_rotor(2e-3)
    return l


def load(a, b, c):
    def f(ctx):
        l = poly_load(a, b, c)
        w, T, t = ctx.real("omega", -1500, 1500), ctx.real("T", -200, 200), ctx.real("t", 0, 10)
        # pieces: linear region around zero, beyond it on both sides
        lim = a / 3e-3 * l.tau_decay
        h = min(lim, 1.0) / 4 if a else 0.25
        if a:
            piece = ctx.choice("piece", ["low", "high", "neg"])
            if piece == "low":
                h = lim / 4
                ctx.assume(And(w + h < lim, w - h > -lim))
                if c:
                    # the quadratic part changes sign at zero
                    ctx.assume(Or(w > h, w < -h))
            else:
                ctx.assume(w - h > lim if piece == "high" else w + h < -lim)
        elif c:
            ctx.assume(Or(w > h, w < -h))
        else:
            # standstill without constant friction: cases load-standstill-*
            ctx.assume(Or(w > 0, w < 0))
        J, Jt = l.mechanical_jacobian(t, ctx.array([w]), T)
        d = lambda ww, tt: list(core.flat([l.mechanical_ode(t, ctx.array([ww]), tt)]))[0]
        ctx.eq(list(core.flat([J]))[0], (d(w + h, T) - d(w - h, T)) / (2 * h), "speed derivative of the load equation", 1e-4)
        ctx.eq(list(core.flat([Jt]))[0], d(w, T + 0.5) - d(w, T - 0.5), "torque derivative of the load equation", 1e-4)
        z = ctx.array([w])
        r1 = l.mechanical_ode(t, z, T)
        c1 = list(core.flat([r1]))
        l.mechanical_ode(t, ctx.array([w + 1]), T + 1)
        ctx.eq(list(core.flat([r1])), c1, "earlier result unchanged", 0)
        ctx.eq(list(core.flat([l.mechanical_ode(t, z, T)])), c1, "load equation repeats", 0)
        ctx.eq(list(z), [w], "argument unchanged", 0)

    return f


def load_zero(b):
    """without constant friction the equation is differentiable at standstill"""

    def f(ctx):
        l = poly_load(0.0, b, 0.0)
        T, t = ctx.real("T", -200, 200), ctx.real("t", 0, 10)
        J, _ = l.mechanical_jacobian(t, ctx.array([0.0]), T)
        d = lambda ww: list(core.flat([l.mechanical_ode(t, ctx.array([ww]), T)]))[0]
        ctx.eq(list(core.flat([J]))[0], d(0.5) - d(-0.5), "speed derivative of the load equation at standstill", 1e-4)

    return f


def system(name, kind):
    def f(ctx):
        p = ps()
        ld = p.PolynomialStaticLoad(dict(a=0.0, b=0.02, c=1e-4, j_load=1e-3)) if kind == "poly" else p.ConstantSpeedLoad(omega_fixed=50.0)
        sol = rec_solver(ctx)
        s = build(name, ctx, load=ld, solver=sol)
        equation, jacobian = sol._system_equation, sol._system_jacobian
        st, d = ode_state(ctx, name)
        t = ctx.real("t", 0, 10)
        u = volts(ctx, name)
        w = d["omega"]
        ctx.assume(Or(w > 1, w < -1))
        n = len(st)
        eq = lambda x: list(core.flat([equation(t, x, u)]))
        ref = list(core.flat([s.electrical_motor.electrical_ode(st[1:], u, w)]))
        ld_ref = list(core.flat([s.mechanical_load.mechanical_ode(t, st[:1], s.electrical_motor.torque(st[1:]))]))
        x0 = list(st)
        r1 = equation(t, st, u)
        c1 = list(core.flat([r1]))
        ctx.eq(c1, ld_ref + ref, "system equation is load equation and motor equation", 0)
        J = np.asarray(jacobian(t, st, u), dtype=object)
        ctx.same(J.shape, (n, n), "shape of the Jacobian")
        h = 0.5
        for k in range(n):
            a, b = eq(shifted(ctx, st, k, h)), eq(shifted(ctx, st, k, -h))
            ctx.eq([J[r, k] for r in range(n)], [a[r] - b[r] for r in range(n)], f"derivative with respect to state {k}", 1e-4)
        ctx.eq(list(core.flat([r1])), c1, "earlier result unchanged", 0)
        ctx.eq(eq(st), c1, "system equation repeats", 0)
        ctx.eq([J[r, k] for r in range(n) for k in range(n)], list(core.flat([np.asarray(jacobian(t, st, u), dtype=object).tolist()])), "Jacobian repeats", 0)
        ctx.eq(list(st), x0, "state argument unchanged", 0)

    return f


def cases(tier):
    out = []
    for n in MOT:
        out.append(dict(name="motor-" + n, fn=motor(n)))
        out.append(dict(name="pure-" + n, fn=motor_pure(n)))
        for k in ("poly", "const"):
            out.append(dict(name=f"system-{n}-{k}", fn=system(n, k)))
    for a in (0.0, 0.01):
        for b in (0.0, 0.02):
            for c in (0.0, 1e-4):
                out.append(dict(name=f"load-{a}-{b}-{c}", fn=load(a, b, c)))
    out += [dict(name=f"load-standstill-{b}", fn=load_zero(b)) for b in (0.0, 0.02)]
    return out
