"""C33: instances are isolated from each other and from their inputs."""
import types

from .refgen import *
from .wrap import wr, wsystem, W_NAMES
from .c12 import NOMBOX
from .c39 import make as make_controller, DC as CDC, AC as CAC
from symex import shim

BOUNDS = ("every ODE state, voltage, speed, torque, time, normalised state, reference and action of the probe within its physical range; an instance made before, and one made "
          "after, other instances of the same and of related classes were configured differently and used; user inputs: every value of every number in the dictionaries, lists and arrays")


class V:
    """inputs by name, the same ones in every probe"""

    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}

    def __call__(self, n, lo, hi):
        if n not in self.d:
            self.d[n] = self.ctx.real(n, lo, hi)
        return self.d[n]

    def vec(self, n, k, lo, hi):
        return self.ctx.array([self(f"{n}{j}", lo, hi) for j in range(k)])


def seed(x, k):
    if hasattr(x, "seed"):
        x.seed(np.random.SeedSequence(k))


def plain(x):
    return list(core.flat([x]))


# --- the behaviour of an instance -------------------------------------------------------------------------------------
def p_motor(v, m, name):
    names = MOTORS[name][2]
    x = []
    for n in names:
        x.append(v(n, -BOX[n], BOX[n]))
    if name in ("scim", "dfim"):
        v.ctx.assume(x[2] * x[2] + x[3] * x[3] >= 1e-2)
    x = v.ctx.array(x)
    nu = {"extex": 2, "eesm": 3, "scim": 2, "dfim": 4}.get(name, 2 if name in ("pmsm", "synrm") else 1)
    u = v.vec("u", nu, -600, 600)
    w = v("omega", -1500, 1500)
    arg = u.reshape(2, 2) if name == "dfim" else (u if nu > 1 else [u[0]])
    o = dict(ode=plain(m.electrical_ode(x, arg, w)), torque=plain(m.torque(x)), i_in=plain(m.i_in(x)),
             jac=plain(list(m.electrical_jacobian(x, arg, w))) if m.HAS_JACOBIAN else [])
    o["par"] = sorted((k, q) for k, q in m.motor_parameter.items())
    o["lim"] = sorted(m.limits.items())
    o["nom"] = sorted(m.nominal_values.items())
    o["lists"] = [list(m.CURRENTS), list(m.VOLTAGES), [int(k) for k in m.CURRENTS_IDX], list(getattr(m, "IO_CURRENTS", [])), list(getattr(m, "IO_VOLTAGES", [])),
                  list(getattr(m, "FLUXES", []))]
    return o


def p_load(v, l):
    t, w, T = v("t", 0, 10), v("omega", -1500, 1500), v("T", -100, 100)
    o = dict(ode=plain(l.mechanical_ode(t, v.ctx.array([w]), T)), j=l.j_total, lim=sorted(l.limits.items()), nom=sorted(l.nominal_values.items()),
             names=list(l.state_names), jac=plain(list(l.mechanical_jacobian(t, v.ctx.array([w]), T))) if l.HAS_JACOBIAN else [])
    return o


def p_initial(v, s):
    from gymnasium.spaces import Box

    s.next_generator() if hasattr(s, "next_generator") else None
    return plain(s.reset(state_space=Box(-1, 1, (8,)), state_positions=dict(omega=0), nominal_state=np.array([300.0] + 7 * [1.0])))


def p_supply(v, s):
    o = dict(range=plain(list(s.supply_range)), u=s.u_nominal, first=plain(s.reset()))
    t, dt, i = v("ts", 0, 1e-3), v("dts", 0, 1e-3), v("is", -100, 100)
    o["v0"] = plain(s.get_voltage(t, i))
    o["v1"] = plain(s.get_voltage(t + dt, i))
    return o


def p_converter(v, c, n_in, cont, acts):
    c.tau = TAU
    o = dict(first=plain(c.reset()), space=repr(c.action_space))
    i = list(v.vec("ic", n_in, -10, 10))
    o["times"] = []
    for k in range(2):
        a = v.vec(f"a{k}_", len(acts[k]) if hasattr(acts[k], "__len__") else 1, -1.5, 1.5) if cont else acts[k]
        ts = list(c.set_action(a, k * TAU))
        o["times"] += plain(ts)
        for j, t in enumerate(ts):
            o[f"u{k}{j}"] = plain(c.convert(i, t))
            o[f"i{k}{j}"] = plain(c.i_sup(i))
    o["volt"], o["cur"] = plain(c.voltages), plain(c.currents)
    return o


def p_system(v, s, name):
    o = {}
    for part, q in (("motor ", p_motor(v, s.electrical_motor, name)), ("load ", p_load(v, s.mechanical_load)), ("supply ", p_supply(v, s.supply))):
        o.update({part + k: x for k, x in q.items()})
    o["names"] = list(s.state_names)
    o["positions"] = sorted(s.state_positions.items())
    o["limits"], o["nominal"] = plain(s.limits), plain(s.nominal_state)
    o["low"], o["high"], o["tau"] = plain([float(x) for x in s.state_space.low]), plain([float(x) for x in s.state_space.high]), s.tau
    o["actions"] = repr(s.action_space)
    return o


def p_env(v, e, name, cont):
    o = p_system(v, e.physical_system.unwrapped if hasattr(e.physical_system, "unwrapped") else e.physical_system, name)
    n = len(e.physical_system.state_names)
    x = v.vec("x", n, -1.2, 1.2)
    r = v.vec("r", n, -1, 1)
    o["violation"] = plain(e.constraint_monitor.check_constraints(x))
    d = v("deg", 0, 1)
    o["reward"] = plain(e.reward_function.reward(x, r, 0, None, d))
    o["rrange"] = plain(list(e.reward_function.reward_range))
    o["env"] = [e.sim.tau, list(e.state_names), [e.reference_names[k] for k in range(len(e.reference_names))], repr(e.observation_space), repr(e.action_space)]
    (x0, r0), _ = e.reset(seed=3)
    o["first"] = plain(x0) + plain(r0)
    a = v.vec("act", n_act(name), -1, 1) if cont else finite_action(name)
    (x1, r1), rew, term, trunc, _ = e.step(a)
    o["step"] = plain(x1) + plain(r1) + plain(rew)
    o["term"] = bool(term)
    return o


def finite_action(name):
    return {"extex": np.array([1, 2]), "eesm": np.array([5, 1]), "dfim": np.array([3, 6])}.get(name, 1)


def compare(ctx, want, got, what):
    ctx.same(sorted(want), sorted(got), f"{what} answers the same questions")
    for k in want:
        a, b = want[k], got[k]
        num = lambda z: all(isinstance(q, (int, float, np.floating, np.integer, core.Sym)) and not isinstance(q, bool) for q in z) if isinstance(z, list) else False
        if num(a) and num(b):
            ctx.same(len(b), len(a), f"{what}: {k}, number of values")
            ctx.eq(b, a, f"{what}: {k}", 0)
        elif isinstance(a, list) and a and isinstance(a[0], tuple):
            ctx.same([q[0] for q in b], [q[0] for q in a], f"{what}: {k}, names")
            ctx.eq([q[1] for q in b], [q[1] for q in a], f"{what}: {k}", 0)
        else:
            ctx.same(b, a, f"{what}: {k}")


def isolated(mk, others, probe):
    """`probe` answers the same for an instance made before and one made after `others` were made and used as for one that was
    alone in the world"""
    def h(ctx):
        with Draws(ctx) as dr:
            dr.quiet = True
            v = V(ctx)
            r, a = concretely(mk), concretely(mk)
            shim.symbolify(r)
            want = probe(v, r)
            concretely(others)
            shim.symbolify(a)
            compare(ctx, want, probe(v, a), "existing instance")
            concretely(others)
            b = concretely(mk)
            shim.symbolify(b)
            compare(ctx, want, probe(v, b), "later instance")

    return h


# --- other instances --------------------------------------------------------------------------------------------------
def custom_motor(name, scale=1.7):
    cls = getattr(ps(), MOTORS[name][0])
    par = {k: (v * scale if k not in ("p",) else v + 1) for k, v in cls._default_motor_parameter.items()}
    lim = {k: v * 0.5 for k, v in cls._default_limits.items()}
    nom = {k: v * 0.25 for k, v in cls._default_nominal_values.items()}
    order = list(reversed(MOTORS[name][2]))
    return cls(motor_parameter=par, limit_values=lim, nominal_values=nom, motor_initializer=dict(states={n: 0.0 if n.startswith("psi") else 0.0001 for n in order}))


def use_motor(m, name):
    nu = {"extex": 2, "eesm": 3, "scim": 2, "dfim": 4}.get(name, 2 if name in ("pmsm", "synrm") else 1)
    x = np.linspace(0.1, 0.4, len(MOTORS[name][2]))
    u = np.linspace(1.0, 4.0, nu)
    u = u.reshape(2, 2) if name == "dfim" else u
    m.electrical_ode(x, u, 12.0)
    m.torque(x)
    m.i_in(x)
    if m.HAS_JACOBIAN:
        m.electrical_jacobian(x, u, 12.0)
    seed(m, 5)


def custom_load(kind):
    p = ps()
    if kind == "poly":
        return p.PolynomialStaticLoad(dict(a=1.0, b=2.0, c=3.0, j_load=4.0), limits=dict(omega=123.0), load_initializer=dict(states=dict(omega=5.0), interval=[[1.0, 9.0]]))
    if kind == "const":
        return p.ConstantSpeedLoad(omega_fixed=33.0, load_initializer=dict(states=dict(omega=2.0)))
    if kind == "ext":
        return p.ExternalSpeedLoad(lambda t, amp, bias: amp * t + bias, tau=2e-4, speed_profile_kwargs=dict(amp=3.0, bias=1.0))
    return p.OrnsteinUhlenbeckLoad(mu=1.0, sigma=2.0, theta=3.0, tau=2e-4, omega_range=(-5.0, 5.0))


def use_load(l):
    l.set_j_rotor(0.7)
    p_initial(None, l)
    l.mechanical_ode(0.1, np.array([20.0]), 3.0)
    if l.HAS_JACOBIAN:
        l.mechanical_jacobian(0.1, np.array([20.0]), 3.0)


def default_load(kind):
    p = ps()
    if kind == "ext":
        return p.ExternalSpeedLoad(lambda t: 5.0 * t + 1.0)
    return {"poly": p.PolynomialStaticLoad, "const": p.ConstantSpeedLoad, "walk": p.OrnsteinUhlenbeckLoad}[kind]()


SUPPLIES = ("IdealVoltageSupply", "RCVoltageSupply", "AC1PhaseSupply", "AC3PhaseSupply")


def custom_supply(kind):
    p = ps()
    if kind == "IdealVoltageSupply":
        return p.IdealVoltageSupply(u_nominal=12.0)
    if kind == "RCVoltageSupply":
        return p.RCVoltageSupply(u_nominal=48.0, supply_parameter=dict(R=0.5, C=1e-3))
    return getattr(p, kind)(u_nominal=110.0, supply_parameter=dict(frequency=60.0, phase=0.3))


def use_supply(s):
    s.reset()
    s.get_voltage(0.001, 3.0)
    s.get_voltage(0.002, 3.0)
    seed(s, 9)


def conv_of(kind, cont, **k):
    p = ps()
    pre = "Cont" if cont else "Finite"
    if kind == "Multi":
        subs = [getattr(p, pre + "FourQuadrantConverter")(**k), getattr(p, pre + "B6BridgeConverter")(**k)]
        return getattr(p, pre + "MultiConverter")(subs, **k)
    return getattr(p, pre + kind)(**k)


CONVS = {"OneQuadrantConverter": (1, (1, 0), 1), "TwoQuadrantConverter": (1, (1, 2), 1), "FourQuadrantConverter": (1, (1, 2), 1), "B6BridgeConverter": (3, (5, 2), 3),
         "Multi": (4, (np.array([1, 5]), np.array([2, 3])), 4)}


def use_converter(c, acts, n_in):
    c.reset()
    for k, a in enumerate(acts):
        for t in c.set_action(a, k * 1e-3):
            c.convert(list(np.linspace(-1, 1, n_in)), t)
            c.i_sup(list(np.linspace(-1, 1, n_in)))


def converter_case(kind, cont):
    n_in, acts, n_a = CONVS[kind]
    if cont:
        acts = tuple(np.linspace(-0.3, 0.6 + 0.1 * k, n_a) for k in range(2))

    def others():
        for k in CONVS:
            n, a, na = CONVS[k]
            for q in (dict(tau=1e-3, interlocking_time=1e-5), dict(tau=1e-3)):
                use_converter(conv_of(k, False, **q), a, n)
                use_converter(conv_of(k, True, **q), tuple(np.full(na, 0.4) for _ in range(2)), n)

    return isolated(lambda: conv_of(kind, cont), others, lambda v, c: p_converter(v, c, n_in, cont, acts))


# --- generators -----------------------------------------------------------------------------------------------------------
def p_generator(v, g):
    """runs under the constant draws: the sequence of references"""
    ctx = v.ctx
    g.set_modules(stub_system(ctx, lambda n: ctx.array([v(f"st{q}", -1, 1) for q in range(5)])))
    seed(g, 3)
    x = v.vec("st", 5, -1, 1)
    r, o, _ = g.reset(x)
    out = dict(first=plain(r) + plain(o), names=list(g.reference_names), ref=[bool(q) for q in g.referenced_states], space=repr(g.reference_space))
    for k in range(3):
        out[f"r{k}"] = plain(g.get_reference(x))
        out[f"o{k}"] = plain(g.get_reference_observation(x))
    return out


def any_generator(kind, custom):
    m = rg()
    L = 5 if custom else 2
    st = "u" if custom else "omega"
    if kind == "const":
        return m.ConstReferenceGenerator(reference_state=st, reference_value=0.7 if custom else 0.2)
    if kind == "zero":
        return m.ZeroReferenceGenerator()
    if kind == "multiple":
        return m.MultipleReferenceGenerator([any_generator(k, custom) if k != "sinus" else generator("sinus", "i", L, "float") for k in ("wiener", "sinus")])
    if kind == "switched":
        return m.SwitchedReferenceGenerator([generator(k, st, L, "tuple" if custom else "float") for k in ("laplace", "triangle")], p=[0.1, 0.9] if custom else None,
                                            super_episode_length=(3, 9) if custom else 2)
    return generator(kind, st, L, "tuple" if custom else "none")


GENS = KINDS + ("const", "zero", "multiple", "switched")


def use_generator(g):
    g.set_modules(stub_system(None, lambda n: np.full(5, 0.3)))
    seed(g, 4)
    x = np.full(5, 0.3)
    g.reset(x)
    for k in range(3):
        g.get_reference(x)
        g.get_reference_observation(x)
    g.reset(x, np.full(5, 0.2))


def generator_case(kind):
    def h(ctx):
        with Sawtooth(ctx, functional=True):
            isolated(lambda: any_generator(kind, False), lambda: [use_generator(any_generator(k, True)) for k in GENS], p_generator)(ctx)

    return h


# --- wrappers -------------------------------------------------------------------------------------------------------------
def cc(names=W_NAMES, box=(-1.0, 1.0), n=3, motor=None):
    import gymnasium as gym

    class Q:
        ctx = None

    s = stub_system(None, lambda k: np.linspace(0.1, 0.3, len(names)) + 0.01 * k, list(names), [200.0, 40.0, 60.0, 90.0, float(np.pi), 420.0][: len(names)],
                    [150.0, 30.0, 50.0, 80.0, float(np.pi), 400.0][: len(names)], [-1.0] * len(names), 1e-4)
    s._action_space = gym.spaces.Box(*box, shape=(n,), dtype=np.float64)
    s.electrical_motor = motor
    return s


WRAPPERS = {
    "cossin": (lambda m, c: m.CosSinProcessor(remove_angle=c), 3), "sum": (lambda m, c: m.CurrentSumProcessor(["i_a", "i_b"], limit="sum" if c else "max"), 3),
    "dead": (lambda m, c: m.DeadTimeProcessor(steps=3 if c else 1), 3), "noise": (lambda m, c: m.StateNoiseProcessor(["i_a", "omega"] if c else ["torque"], "normal", dict(scale=0.2 if c else 0.1), 2), 3),
}


def p_wrapper(v, pair):
    w, s = pair
    n = len(w.state_names)
    seed(w, 3)
    o = dict(names=list(w.state_names), positions=sorted(w.state_positions.items()), limits=plain(w.limits), nominal=plain(w.nominal_state),
             low=plain([float(x) for x in w.state_space.low]), high=plain([float(x) for x in w.state_space.high]), actions=repr(w.action_space))
    vals = [v.vec(f"s{k}_", len(W_NAMES), -1, 1) for k in range(4)]
    s._next = lambda: vals[min(len(s.log) + s.resets, 3)]
    o["first"] = plain(w.reset())
    for k in range(2):
        o[f"x{k}"] = plain(w.simulate(v.vec(f"act{k}_", 3, -1, 1)))
    o["acts"] = [q for _, a in s.log for q in plain(a)]
    return o


def mk_wrapper(kind, custom):
    s = cc()
    f, n = WRAPPERS[kind]
    w = f(wr(), custom)
    w.set_physical_system(s)
    return w, s


def wrapper_case(kind):
    def others():
        for k in WRAPPERS:
            w, s = mk_wrapper(k, True)
            seed(w, 11)
            w.reset()
            w.simulate(np.array([0.1, 0.2, 0.3]))
            w.reset()

    return isolated(lambda: mk_wrapper(kind, False), others, p_wrapper)


# --- environments ---------------------------------------------------------------------------------------------------------
FAMILY = {"PermExDc": ("SeriesDc", "ExtExDc"), "SeriesDc": ("ShuntDc",), "ShuntDc": ("ExtExDc", "SeriesDc"), "ExtExDc": ("PermExDc", "ShuntDc"), "PMSM": ("SynRM", "EESM"),
          "SynRM": ("PMSM", "EESM"), "EESM": ("PMSM", "SynRM"), "SCIM": ("DFIM", "PMSM"), "DFIM": ("SCIM", "EESM")}


def env_of(motor_, task, cont, **k):
    import gym_electric_motor as gem
    from gym_electric_motor.physical_systems.solvers import EulerSolver

    kw = dict(dict(ode_solver=EulerSolver(), visualization=dict(state_plots=())), **k)
    return gem.make(f"{'Cont' if cont else 'Finite'}-{task}-{motor_}-v0", **kw).unwrapped


def custom_kw(motor):
    name = KEY[motor]
    p, m = ps(), wr()
    wrappers = [m.DeadTimeProcessor(steps=1), m.StateNoiseProcessor(["omega"], "normal", dict(scale=0.1))]
    if name in ("pmsm", "synrm", "eesm", "scim", "dfim"):
        wrappers.append(m.CosSinProcessor(remove_angle=True))
    return dict(motor=custom_motor(name), load=custom_load("poly"), supply=p.RCVoltageSupply(u_nominal=100.0), tau=2e-3, physical_system_wrappers=tuple(wrappers),
                reward_function=dict(reward_weights=dict(omega=2.0, torque=1.0), gamma=0.1, bias="positive", reward_power=2), constraints=("omega",),
                reference_generator=rg().SinusoidalReferenceGenerator(reference_state="omega", limit_margin=0.3), state_filter=["omega", "torque"])


def use_env(e):
    e.reset(seed=5)
    for k in range(2):
        *_, term, _, _ = e.step(e.action_space.sample())
        if term:
            e.reset()
    e.reset()


def other_envs(motor, task, cont):
    use_env(env_of(motor, task, cont, **custom_kw(motor)))
    use_env(env_of(motor, task, cont, physical_system_wrappers=custom_kw(motor)["physical_system_wrappers"], tau=3e-4))
    for m in (motor,) + FAMILY[motor]:
        use_env(env_of(m, "SC" if task == "TC" else "TC", not cont))


def env_case(motor, task, cont):
    return isolated(lambda: env_of(motor, task, cont), lambda: other_envs(motor, task, cont), lambda v, e: p_env(v, e, KEY[motor], cont))


# --- user inputs ----------------------------------------------------------------------------------------------------------
class Inputs:
    """remembers the structure and contents of what the user hands over"""

    def __init__(self, ctx):
        self.ctx, self.kept = ctx, []

    def snap(self, x):
        if isinstance(x, dict):
            return ("dict", type(x), [(k, self.snap(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return ("seq", type(x), [self.snap(v) for v in x])
        if isinstance(x, np.ndarray):
            return ("arr", x.shape, list(x.reshape(-1)))
        return ("leaf", x)

    def __call__(self, x, what):
        self.kept.append((x, self.snap(x), what))
        return x

    def compare(self, a, b, what):
        if a[0] != b[0]:
            self.ctx.same(b[0], a[0], f"{what}: kind of container")
        elif a[0] == "leaf":
            x, y = a[1], b[1]
            if isinstance(x, core.Sym) or isinstance(y, core.Sym) or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool)):
                self.ctx.eq(y, x, f"{what} unmodified", 0)
            else:
                self.ctx.same(y is x or y == x, True, f"{what} unmodified")
        elif a[0] == "arr":
            self.ctx.same(b[1], a[1], f"{what}: shape")
            self.ctx.eq(b[2], a[2], f"{what} unmodified", 0)
        else:
            self.ctx.same(b[1] is a[1], True, f"{what}: type")
            if a[0] == "dict":
                self.ctx.same([k for k, _ in b[2]], [k for k, _ in a[2]], f"{what}: keys")
                for (k, x), (_, y) in zip(a[2], b[2]):
                    self.compare(x, y, f"{what}[{k!r}]")
            else:
                self.ctx.same(len(b[2]), len(a[2]), f"{what}: length")
                for n, (x, y) in enumerate(zip(a[2], b[2])):
                    self.compare(x, y, f"{what}[{n}]")

    def check(self):
        for x, s, what in self.kept:
            self.compare(s, self.snap(x), what)


def in_motor(name):
    def h(ctx):
        with Draws(ctx) as dr:
            dr.quiet = True
            I = Inputs(ctx)
            cls = getattr(ps(), MOTORS[name][0])
            par = {}
            for k, q in cls._default_motor_parameter.items():
                par[k] = q if k in ("p", "k", "l_m", "l_sigs", "l_sigr", "r_r", "r_s", "l_d", "l_q", "l_e") and name in ("scim", "dfim", "eesm") else (q + 1 if k == "p" else ctx.real("par_" + k, 0.5 * q, 2 * q))
            lim = {k: ctx.real("lim_" + k, 0.9 * q, 2 * q) for k, q in cls._default_limits.items() if k not in ("torque",)}
            nom = {k: ctx.real("nom_" + k, 0.6 * q, 0.9 * q) for k, q in cls._default_nominal_values.items() if k not in ("torque", "epsilon")}
            states = {n: ctx.real("x_" + n, -0.02, 0.02) for n in reversed(MOTORS[name][2])}
            init = dict(states=states, interval=None, random_init=None, random_params=(None, None))
            for q, w in ((par, "motor_parameter"), (lim, "limit_values"), (nom, "nominal_values"), (init, "motor_initializer")):
                I(q, w)
            m = cls(motor_parameter=par, limit_values=lim, nominal_values=nom, motor_initializer=init)
            I.check()
            sol = rec_solver(ctx)
            s = build(name, ctx, motor=m, solver=sol, load=ps().ConstantSpeedLoad(omega_fixed=0.0), conv=converter(name))
            s.reset()
            s.reset()
            I.check()

    return h


def in_random(name, kind):
    """random initial values are not written into the user's dictionary"""
    def h(ctx):
        with Draws(ctx) as dr:
            I = Inputs(ctx)
            order = MOTORS[name][2]
            init = I(dict(states={n: 0.0 for n in order}, random_init=kind, interval=[[-0.5 * NOMBOX[name][n], 0.5 * NOMBOX[name][n]] for n in order]), "motor_initializer")
            linit = I(dict(states=dict(omega=0.0), random_init=kind, interval=[[-5.0, ctx.real("top", 1, 10)]]), "load_initializer")
            lpar = I(dict(a=ctx.real("a", 0, 1), b=0.1, c=0.2, j_load=ctx.real("j", 1e-3, 1)), "load_parameter")
            llim = I(dict(omega=ctx.real("olim", 100, 900)), "limits")
            m = make_motor(name, motor_initializer=init)
            l = ps().PolynomialStaticLoad(load_parameter=lpar, limits=llim, load_initializer=linit)
            s = build(name, ctx, motor=m, solver=rec_solver(ctx), load=l, conv=converter(name))
            s.reset()
            s.reset()
            I.check()

    return h


def in_loads(ctx):
    with Draws(ctx) as dr:
        dr.quiet = True
        I = Inputs(ctx)
        p = ps()
        w = ctx.real("w", 1, 100)
        init = I(dict(states=dict(omega=ctx.real("w0", -100, 100))), "load_initializer")
        kw = I(dict(amp=ctx.real("amp", 0, 10), bias=ctx.real("bias", 0, 10)), "speed_profile_kwargs")
        rng = I([ctx.real("lo", -100, -1), ctx.real("hi", 1, 100)], "omega_range")
        loads = [p.ConstantSpeedLoad(omega_fixed=w, load_initializer=init), p.ConstantSpeedLoad(load_initializer=init),
                 p.ExternalSpeedLoad(lambda t, amp, bias: amp * t + bias, load_initializer=init, tau=1e-4, speed_profile_kwargs=kw),
                 p.OrnsteinUhlenbeckLoad(omega_range=rng)]
        for l in loads:
            use_load(l)
        I.check()


def in_supplies(ctx):
    with Draws(ctx) as dr:
        dr.quiet = True
        I = Inputs(ctx)
        p = ps()
        for k in ("RCVoltageSupply", "AC1PhaseSupply", "AC3PhaseSupply"):
            for ph in (True, False):
                if k[0] == "R":
                    par = dict(R=ctx.real("R", 0.1, 10), C=ctx.real("C", 1e-3, 1))
                else:
                    par = dict(frequency=ctx.real("f", 1, 100))
                    if ph:
                        par["phase"] = ctx.real("phi", 0, 6)
                I(par, f"supply_parameter of {k}")
                use_supply(getattr(p, k)(u_nominal=100.0, supply_parameter=par))
        I.check()


def in_converters(ctx):
    I = Inputs(ctx)
    p = ps()
    for cont in (True, False):
        pre = "Cont" if cont else "Finite"
        subs = I([getattr(p, pre + "FourQuadrantConverter")(), getattr(p, pre + "TwoQuadrantConverter")()], "subconverters")
        c = getattr(p, pre + "MultiConverter")(subs, interlocking_time=ctx.real("til", 0, 1e-5))
        c.reset()
        i = I(ctx.array([ctx.real("i0", -10, 10), ctx.real("i1", -10, 10)]), "i_out")
        for k in range(2):
            a = I(ctx.array([ctx.real(f"a{k}", -2, 2), ctx.real(f"b{k}", -2, 2)]) if cont else np.array([1 + k, 2 - k]), "action")
            for t in c.set_action(a, k * TAU):
                c.convert(i, t)
                c.i_sup(i)
    for n in ("B6BridgeConverter",):
        for cont in (True, False):
            c = getattr(p, ("Cont" if cont else "Finite") + n)()
            c.reset()
            i = I(ctx.array([ctx.real(f"j{k}", -10, 10) for k in range(3)]), "i_out")
            a = I(ctx.array([ctx.real(f"c{k}", -2, 2) for k in range(3)]), "action") if cont else 5
            for t in c.set_action(a, 0.0):
                c.convert(i, t)
                c.i_sup(i)
    I.check()


def in_rewards(kind, normed):
    def h(ctx):
        from gym_electric_motor.reward_functions import WeightedSumOfErrors

        I = Inputs(ctx)
        s = stub_system(ctx, lambda n: ctx.array([0.1] * 5))
        w = [ctx.real(f"w{k}", 0.1, 2) for k in range(5)]
        e = [ctx.choice(f"n{k}", [1, 2]) if False else 1 + k % 2 for k in range(5)]
        if kind == "dict":
            w, e = dict(zip(NAMES, w)), dict(zip(NAMES, e))
        elif kind == "array":
            w, e = ctx.array(w), ctx.array(e)
        I(w, "reward_weights")
        I(e, "reward_power")
        r = WeightedSumOfErrors(reward_weights=w, normed_reward_weights=normed, reward_power=e, bias="positive")
        r.set_modules(s, rec_generator(ctx, [[0.0]]), types.SimpleNamespace())
        x, y = (I(ctx.array([ctx.real(f"{q}{k}", -1, 1) for k in range(5)]), "state" if q == "x" else "reference") for q in "xy")
        r.reset(x, y)
        r.reward(x, y, 0, 0, ctx.real("d", 0, 1))
        I.check()

    return h


def in_generators(ctx):
    m = rg()
    with Draws(ctx) as dr, Sawtooth(ctx, functional=True):
        dr.quiet = True
        I = Inputs(ctx)
        rngs = [I([ctx.real(f"{n}lo", 0.1, 0.4), ctx.real(f"{n}hi", 0.4, 0.8)], n) for n in ("amplitude_range", "frequency_range", "offset_range")]
        mar = I((0.55, 0.75), "limit_margin")
        ln = I([2, 4], "episode_lengths")
        c = dict(reference_state="omega", episode_lengths=ln)
        k = dict(amplitude_range=rngs[0], frequency_range=rngs[1], offset_range=rngs[2])
        subs = I([m.SinusoidalReferenceGenerator(**c, **k), m.TriangularReferenceGenerator(**c, **k), m.SawtoothReferenceGenerator(**c, **k),
                  m.StepReferenceGenerator(**c, **k)], "sub_generators")
        sig = I([0.1, 0.2], "sigma_range")
        two = I([m.WienerProcessReferenceGenerator(sigma_range=sig, limit_margin=mar, **c), m.LaplaceProcessReferenceGenerator(sigma_range=sig, **c)], "sub_generators")
        p = I([0.1, 0.2, 0.3, 0.4], "p")
        sw = m.SwitchedReferenceGenerator(subs, p=p, super_episode_length=I([2, 5], "super_episode_length"))
        sw2 = m.SwitchedReferenceGenerator(two, super_episode_length=3)
        mult = I([sw, concretely(lambda: m.ConstReferenceGenerator("u", 0.2))], "sub_generators")
        x = I(ctx.array([ctx.real(f"x{k}", -1, 1) for k in range(5)]), "state")
        r0 = I(ctx.array([ctx.real(f"r{k}", -0.3, 0.3) for k in range(5)]), "initial reference")
        for g in (m.MultipleReferenceGenerator(mult), sw2):
            g.set_modules(stub_system(ctx, lambda n: x))
            seed(g, 1)
            g.reset(x, r0)
            for _ in range(4):
                g.get_reference(x)
                g.get_reference_observation(x)
            g.reset(x)
        I.check()


def in_wrappers(ctx):
    with Draws(ctx) as dr:
        dr.quiet = True
        I = Inputs(ctx)
        m = wr()
        cur = I(["i_a", "i_b"], "currents")
        st = I(["omega", "i_a"], "states")
        rk = I(dict(scale=ctx.real("sc", 0.1, 1), loc=ctx.real("loc", -1, 1)), "random_kwargs")
        for mk in (lambda: m.CurrentSumProcessor(cur), lambda: m.CurrentSumProcessor(cur, limit="sum"), lambda: m.StateNoiseProcessor(st, "normal", rk, 2),
                   lambda: m.CosSinProcessor(remove_angle=True), lambda: m.DeadTimeProcessor(steps=2)):
            sts = [ctx.array([ctx.real(f"s{k}_{q}", -1, 1) for q in W_NAMES]) for k in range(5)]
            import gymnasium as gym

            s = wsystem(ctx, sts, space=gym.spaces.Box(-1.0, 1.0, shape=(3,), dtype=np.float64))
            s._next = lambda s=s: sts[min(len(s.log) + s.resets, 4)]
            w = mk()
            w.set_physical_system(s)
            w.reset()
            for k in range(3):
                w.simulate(I(ctx.array([ctx.real(f"act{k}{q}", -1, 1) for q in range(3)]), "action"))
            w.reset()
        I.check()


def in_make(motor, cont):
    """nested dictionaries handed to gem.make"""
    def h(ctx):
        with Draws(ctx) as dr:
            dr.quiet = True
            I = Inputs(ctx)
            name = KEY[motor]
            cls = getattr(ps(), MOTORS[name][0])
            states = {n: 0.0 if n.startswith("psi") else 0.01 for n in MOTORS[name][2]}
            kw = I(dict(motor=dict(motor_parameter=dict(cls._default_motor_parameter), motor_initializer=dict(states=states), limit_values=dict(omega=500.0), nominal_values=dict(omega=300.0)),
                        load=dict(load_initializer=dict(states=dict(omega=1.0))), supply=dict(u_nominal=200.0), reward_function=dict(reward_weights=dict(omega=1.0)),
                        visualization=dict(state_plots=("omega",)), constraints=["omega"], state_filter=["omega", "torque"], physical_system_wrappers=[wr().DeadTimeProcessor(steps=1)],
                        callbacks=[]), "keyword arguments")

            def f():
                e = env_of(motor, "TC", cont, **kw)
                e2 = env_of(motor, "TC", cont, **dict(kw, physical_system_wrappers=[]))
                for q in (e, e2):
                    use_env(q)
                return e2

            e = concretely(f)
            I.check()
            shim.symbolify(e)
            (x0, r0), _ = e.reset(seed=1)
            a = I(ctx.array([ctx.real(f"a{k}", -1, 1) for k in range(n_act(name))]) if cont else finite_action(name), "action")
            e.step(a)
            I.check()

    return h


# --- controllers ----------------------------------------------------------------------------------------------------------
def controller_case(motor, task, const=False):
    eid = f"Cont-{task}-{motor}-v0"

    def h(ctx):
        v = V(ctx)

        def ask(env, c):
            n = len(env.physical_system.state_names)
            nr = len(env.reference_names)
            out = {}
            for k in range(2):
                s, r = v.vec(f"s{k}_", n, -1, 1), v.vec(f"r{k}_", nr, *((-1, 1) if not const else (0.01, 0.02)))
                if const:  # the references vary around one working point
                    s = ctx.array([0.02 + 0.01 * j for j in range(n)])
                out[f"u{k}"] = plain(c.control(s, r))
            return out

        env, r = make_controller(ctx, eid)
        _, a = make_controller(ctx, eid)
        want = ask(env, r)
        others = [(e, dict(base=b, speed=q, decoupling=False)) for e, b, q in ((eid, "ThreePoint" if motor in CDC else "PI", "PID"), (eid, "PI", "P"),
                                                                            (f"Cont-CC-{motor}-v0", "PI", "PI"))]
        for e, k in others:
            oe, oc = make_controller(ctx, e, **k)
            n, nr = len(oe.physical_system.state_names), len(oe.reference_names)
            for j in range(2):
                oc.control(ctx.array([0.1] * n), ctx.array([0.2] * nr))
        compare(ctx, want, ask(env, a), "existing controller")
        _, b = make_controller(ctx, eid)
        compare(ctx, want, ask(env, b), "later controller")

    return h


def cases(tier):
    out = []
    th = tier == "thorough"
    for name in MOTORS:
        def others(name=name):
            for n in MOTORS:
                use_motor(custom_motor(n), n)
                use_motor(make_motor(n), n)
        out.append(dict(name=f"motor-{name}", fn=isolated(lambda name=name: make_motor(name), others, lambda v, m, name=name: p_motor(v, m, name))))
    for k in ("poly", "const", "ext", "walk"):
        out.append(dict(name=f"load-{k}", fn=isolated(lambda k=k: default_load(k), lambda: [(use_load(custom_load(q)), use_load(default_load(q))) for q in ("poly", "const", "ext", "walk")],
                                                     lambda v, l: dict(p_load(v, l), first=p_initial(v, l)))))
    for k in SUPPLIES:
        out.append(dict(name=f"supply-{k}", fn=isolated(lambda k=k: getattr(ps(), k)(), lambda: [use_supply(custom_supply(q)) for q in SUPPLIES], p_supply)))
    for k in CONVS:
        for cont in (True, False):
            out.append(dict(name=f"conv-{k}-{cont}", fn=converter_case(k, cont)))
    for k in GENS:
        out.append(dict(name=f"gen-{k}", fn=generator_case(k)))
    for k in WRAPPERS:
        out.append(dict(name=f"wrap-{k}", fn=wrapper_case(k)))
    for m in KEY:
        for task, cont in (("TC", True), ("CC", False), ("SC", True)) if th else (("CC", True), ("TC", False)):
            out.append(dict(name=f"env-{m}-{task}-{cont}", fn=env_case(m, task, cont)))
        out.append(dict(name=f"in-make-{m}", fn=in_make(m, True)))
    for name in MOTORS:
        out.append(dict(name=f"in-motor-{name}", fn=in_motor(name)))
    for name in MOTORS:
        if name not in ("scim", "dfim"):
            for k in ("uniform", "gaussian"):
                out.append(dict(name=f"in-random-{name}-{k}", fn=in_random(name, k)))
    for f, n in ((in_loads, "in-loads"), (in_supplies, "in-supplies"), (in_converters, "in-converters"), (in_generators, "in-generators"), (in_wrappers, "in-wrappers")):
        out.append(dict(name=n, fn=f))
    for k in ("dict", "list", "array"):
        for normed in (True, False):
            out.append(dict(name=f"in-reward-{k}-{normed}", fn=in_rewards(k, normed)))
    for m in CDC:
        out.append(dict(name=f"ctl-{m}", fn=controller_case(m, "CC")))
        if th:
            out.append(dict(name=f"ctl-{m}-TC", fn=controller_case(m, "TC")))
    for m in ("PMSM", "SynRM", "EESM", "SCIM"):
        out.append(dict(name=f"ctl-{m}-CC", fn=controller_case(m, "CC", True)))
    out.append(dict(name="ctl-SCIM-TC", fn=controller_case("SCIM", "TC", True)))
    return out
