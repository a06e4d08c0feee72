"""C16: ODE solvers."""
from .systems import *
from symex import shim

BOUNDS = ("systems with one, two and three states and polynomial right hand sides with arbitrary coefficients, arbitrary start values, inputs and times, one to "
          "eight Euler sub-steps, two intervals; the scipy wrappers against stand-ins with scipy's documented interface (scipy itself is not encoded)")
ASSUMPTIONS = ["scipy.integrate.ode, solve_ivp and odeint behave as documented: they are replaced by stand-ins that record how they are called and integrate "
               "with a fixed scheme"]


def sm():
    import gym_electric_motor.physical_systems.solvers as m

    return m


def field(ctx, n, seen):
    c = [ctx.real(f"c{k}", -3, 3) for k in range(3)]

    def f(t, y, *u):
        seen.append(t)
        s = sum(u[k] * (k + 1) for k in range(len(u)))
        if n == 1:
            return ctx.array([c[0] * y[0] + c[1] * t + s])
        if n == 2:
            return ctx.array([c[0] * y[1] + t, c[1] * y[0] + c[2] * y[1] + s])
        return ctx.array([c[0] * y[1], c[1] * y[2] + t, c[2] * y[0] - y[1] + s])

    def jac(t, y, *u):
        if n == 1:
            return ctx.array([[c[0]]])
        if n == 2:
            return ctx.array([[0.0, c[0]], [c[1], c[2]]])
        return ctx.array([[0.0, c[0], 0.0], [0.0, 0.0, c[1]], [c[2], -1.0, 0.0]])

    return f, jac


def euler_ref(f, t0, y, t1, u, n):
    h = (t1 - t0) / n
    y = list(y)
    for k in range(n):
        d = list(core.flat([f(t0 + k * h, y, *u)]))
        y = [a + h * b for a, b in zip(y, d)]
    return y


def inputs(ctx, n):
    y0 = [ctx.real(f"y{k}", -100, 100) for k in range(n)]
    t0 = ctx.real("t0", -10, 100)
    h1, h2 = ctx.real("h1", 0, 0.5), ctx.real("h2", 0, 0.5)
    u1 = [ctx.real("ua", -50, 50), ctx.real("ub", -50, 50)]
    u2 = [ctx.real("uc", -50, 50)]
    return y0, t0, h1, h2, u1, u2


def protocol(ctx, s, f, jac, n, sub, seen, exact=True):
    """the same story for every solver: two intervals with different inputs, a restored state, repetition"""
    y0, t0, h1, h2, u1, u2 = inputs(ctx, n)
    start = ctx.array(y0)
    tt = lambda: s.t
    yy = lambda: list(core.flat([s.y]))
    ref = euler_ref
    s.set_system_equation(f, jac)
    s.set_initial_value(start, t0)
    ctx.eq(tt(), t0, "time after setting the state", 0)
    ctx.eq(yy(), y0, "state after setting it", 0)
    s.set_f_params(*u1)
    r = s.integrate(t0 + h1)
    a = list(core.flat([r]))
    ra = ref(f, t0, y0, t0 + h1, u1, sub)
    ctx.eq(a, ra, "state after the first interval", 1e-6)
    ctx.eq(yy(), a, "stored state is the returned state", 0)
    ctx.eq(tt(), t0 + h1, "time after the first interval", 1e-9)
    ctx.eq(list(start), y0, "start state not modified", 0)
    s.set_f_params(*u2)
    b = list(core.flat([s.integrate(t0 + h1 + h2)]))
    rb = ref(f, t0 + h1, ra, t0 + h1 + h2, u2, sub)
    ctx.eq(b, rb, "state after the second interval with other inputs", 1e-6)
    ctx.eq(yy(), b, "stored state is the returned state", 0)
    ctx.eq(tt(), t0 + h1 + h2, "time after the second interval", 1e-9)
    ctx.eq(list(core.flat([r])), a, "earlier result unchanged", 0)
    s.set_initial_value(ctx.array(a), t0 + h1)
    ctx.eq(list(core.flat([s.integrate(t0 + h1 + h2)])), b, "integration from a restored state repeats", 0)
    s.set_initial_value(start)
    ctx.eq(tt(), 0, "time starts at zero by default", 0)
    ctx.eq(list(core.flat([s.integrate(h1)])), ref(f, 0, y0, h1, u2, sub), "next episode with the last inputs", 1e-6)


def euler(n, sub):
    def f(ctx):
        seen = []
        s = sm().EulerSolver() if sub == 0 else sm().EulerSolver(nsteps=sub)
        fn, jac = field(ctx, n, seen)
        protocol(ctx, s, fn, jac, n, sub or 1, seen)

    return f


def euler_times(sub):
    """instants at which the equation is evaluated"""

    def f(ctx):
        t0, h = ctx.real("t0", 0, 100), ctx.real("h", 1e-6, 1)
        seen = []
        s = sm().EulerSolver(nsteps=sub)
        s.set_system_equation(lambda t, y: (seen.append((t, y[0])), ctx.array([1.0]))[1])
        s.set_initial_value(ctx.array([t0]), t0)
        s.set_f_params()
        y = s.integrate(t0 + h)
        ctx.same(len(seen), sub, "number of evaluations")
        for k in range(sub):
            ctx.eq(seen[k][0], t0 + h * k / sub, f"instant of evaluation {k}", 1e-9)
            ctx.eq(seen[k][1], t0 + h * k / sub, f"state of evaluation {k}", 1e-9)
        ctx.eq(list(core.flat([y])), [t0 + h], "end", 1e-9)

    return f


class Stand:
    """scipy's interface; integrates with `sub` Euler steps"""

    def __init__(self, ctx, sub):
        self.ctx, self.sub, self.log = ctx, sub, []
        outer = self

        class ode:
            def __init__(self, f, jac=None):
                self.f, self.jac = f, jac
                self.f_params = self.jac_params = ()
                self._y, self.t = [], 0.0

            @property
            def y(self):
                return self._y

            def set_integrator(self, name, **kw):
                outer.log.append(("integrator", name, kw))
                return self

            def set_initial_value(self, y, t=0.0):
                self._y, self.t = ctx.array(list(core.flat([y]))), t
                return self

            def set_f_params(self, *a):
                self.f_params = a
                return self

            def set_jac_params(self, *a):
                self.jac_params = a
                return self

            def successful(self):
                return True

            def integrate(self, t, step=False, relax=False):
                outer.log.append(("jac", self.jac, self.f_params, self.jac_params))
                self._y = ctx.array(euler_ref(self.f, self.t, self._y, t, self.f_params, outer.sub))
                self.t = t
                return self._y

        def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
            t0, t1 = t_span
            y = ctx.array(euler_ref(fun, t0, list(core.flat([y0])), t1, tuple(args or ()), outer.sub))
            outer.log.append(("ivp", method, options, tuple(args or ())))
            te = list(t_eval) if t_eval is not None else [t0, t1]
            cols = [y if i == len(te) - 1 else ctx.array(list(core.flat([y0]))) for i in range(len(te))]
            r = type("R", (), {})()
            r.t = te
            r.y = ctx.array([list(c) for c in cols]).T
            r.success, r.status = True, 0
            return r

        def odeint(func, y0, t, args=(), Dfun=None, col_deriv=0, full_output=0, tfirst=False, **kw):
            outer.log.append(("odeint", Dfun, tfirst, col_deriv, kw, tuple(args)))
            f = func if tfirst else (lambda tt, y, *a: func(y, tt, *a))
            rows = [list(core.flat([y0]))]
            t = list(t)
            for a, b in zip(t, t[1:]):
                rows.append(euler_ref(f, a, rows[-1], b, tuple(args), outer.sub))
            return ctx.array(rows)

        self.repl = dict(ode=ode, solve_ivp=solve_ivp, odeint=odeint)

    def __enter__(self):
        import scipy.integrate as si

        m = sm()
        self.saved = []
        for n, g in self.repl.items():
            orig = getattr(si, n)
            for mod_ in (si, m):
                for k, v in list(vars(mod_).items()):
                    if v is orig:
                        self.saved.append((mod_, k, v))
                        setattr(mod_, k, g)
        return self

    def __exit__(self, *a):
        for mod_, k, v in reversed(self.saved):
            setattr(mod_, k, v)
        return False


def scipy_case(kind, n, kw, withjac=True):
    def f(ctx):
        seen = []
        with Stand(ctx, 2) as st:
            fn, jac = field(ctx, n, seen)
            s = getattr(sm(), kind)(**kw)
            protocol(ctx, s, fn, jac if withjac else None, n, 2, seen)
            want = jac if withjac else None
            used = [e for e in st.log if e[0] in ("jac", "ivp", "odeint")]
            ctx.same(len(used), 4, "one integration per interval")
            if kind == "ScipyOdeSolver":
                i = [e for e in st.log if e[0] == "integrator"]
                ctx.same((i[-1][1], i[-1][2]), (kw.get("integrator", "dopri5"), {k: v for k, v in kw.items() if k != "integrator"}), "integrator and its options")
                for e in used:
                    ctx.same(e[1] is want, True, "Jacobian handed on")
                    ctx.eq(list(e[3]), list(e[2]), "Jacobian gets the inputs", 0)
            elif kind == "ScipySolveIvpSolver":
                for e in used:
                    ctx.same(e[1], kw.get("method", "RK45"), "method")
                    opts = {k: v for k, v in e[2].items() if k != "jac"}
                    ctx.same(opts, {k: v for k, v in kw.items() if k != "method"}, "options")
                    if e[1] in ("Radau", "BDF", "LSODA"):
                        ctx.same(e[2].get("jac") is want, True, "Jacobian handed on")
            else:
                for e in used:
                    ctx.same((e[1] is want, e[3], e[4]), (True, 0, kw), "Jacobian and options handed on")

    return f


def base(ctx):
    """the base class keeps what it is given"""
    s = sm().OdeSolver()
    t, y = ctx.real("t", -10, 10), ctx.real("y", -10, 10)
    s.set_initial_value(ctx.array([y]), t)
    ctx.eq([s.t] + list(s.y), [t, y], "state and time", 0)
    s.set_initial_value(ctx.array([y]))
    ctx.eq(s.t, 0, "default time", 0)


def cases(tier):
    out = [dict(name="base", fn=base)]
    subs = (0, 1, 2, 3, 4) if tier != "thorough" else (0, 1, 2, 3, 4, 5, 6, 7, 8)
    for n in (1, 2, 3):
        for sub in subs:
            if sub > 4 and n == 3 and sub > 6:
                continue
            out.append(dict(name=f"euler-{n}-{sub}", fn=euler(n, sub)))
    for sub in (1, 2, 3, 5, 8):
        out.append(dict(name=f"euler-instants-{sub}", fn=euler_times(sub)))
    for n in (1, 2, 3):
        for k, kw in enumerate([{}, dict(integrator="vode", rtol=1e-3), dict(integrator="dop853", nsteps=7)]):
            out.append(dict(name=f"ode-{n}-{k}", fn=scipy_case("ScipyOdeSolver", n, kw)))
        for k, kw in enumerate([{}, dict(method="Radau"), dict(method="BDF", rtol=1e-3), dict(method="LSODA"), dict(method="DOP853", max_step=1.0)]):
            out.append(dict(name=f"solve_ivp-{n}-{k}", fn=scipy_case("ScipySolveIvpSolver", n, kw)))
        for k, kw in enumerate([{}, dict(rtol=1e-3)]):
            out.append(dict(name=f"odeint-{n}-{k}", fn=scipy_case("ScipyOdeIntSolver", n, kw)))
    out.append(dict(name="ode-nojac", fn=scipy_case("ScipyOdeSolver", 2, {}, False)))
    out.append(dict(name="solve_ivp-nojac", fn=scipy_case("ScipySolveIvpSolver", 2, dict(method="Radau"), False)))
    out.append(dict(name="odeint-nojac", fn=scipy_case("ScipyOdeIntSolver", 2, {}, False)))
    return out
