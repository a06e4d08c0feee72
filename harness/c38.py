"""C38: operating points deliver the requested torque within the limits."""
import contextlib
import types
from .ctl import *
from .c10 import sym_motor
from .c35 import R
import gem_controllers.stages.operation_point_selection.eesm_ops as m_eesm
import gem_controllers.stages.operation_point_selection.pmsm_ops as m_pmsm
import gem_controllers.stages.operation_point_selection.scim_ops as m_scim

BOUNDS = ("every torque request within +-1.5 times the limit, currents and speeds within the limits; DC machines with default parameters and every parameter in [0.5, 2] times its default, "
          "margins 0.2 and 0.5; three phase machines with default parameters: lookup table entries replaced by arbitrary entries satisfying what is checked for every entry of the real "
          "tables, root finder replaced by an arbitrary root, two control steps of the modulation and flux controllers")
ite = core.ite
DC = ("SeriesDc", "ShuntDc", "PermExDc", "ExtExDc")


def dc_stage(ctx, motor, par, margin, names=None):
    names = names or DC_NAMES
    m, mp = sym_motor(ctx, KEY[motor], par)
    shim.symbolify(m)
    lim = {n: 100.0 for n in names}
    lim.update(omega=300.0, torque=50.0, i=100.0, i_a=100.0, i_e=20.0, u=60.0, u_a=60.0, u_e=60.0)
    L = [lim[n] for n in names]
    env = Env(ctx, names, L, [-1.0] * len(names), motor=types.SimpleNamespace(motor_parameter=mp))
    st = gc().stages.torque_to_current_function[motor]()
    st.tune(env, f"Cont-TC-{motor}-v0", margin)
    return names, lim, m, mp, st


def permex(par, margin):
    def h(ctx):
        names, lim, m, mp, st = dc_stage(ctx, "PermExDc", par, margin)
        w, t = ctx.real("omega", -300, 300), ctx.real("t", -75, 75)
        s = [w if n == "omega" else ctx.real("s_" + n, -100, 100) for n in names]
        i = list(core.flat([st(ctx.array(list(s)), ctx.array([t]))]))
        ctx.same(len(i), 1, "one current")
        aw = ite(w < 0, -w, w)
        reach = (lim["u"] - mp["psi_e"] * aw) / mp["r_a"]  # current that the voltage limit allows for motoring
        inside = Or(And(w > 0, t <= reach * mp["psi_e"]), And(w <= 0, t >= -reach * mp["psi_e"]))
        got = m.torque([i[0]])
        if bool(inside):
            ctx.eq(got, t, "the machine delivers the requested torque", 1e-5)
        else:
            ctx.eq(i[0], ite(w > 0, reach, -reach), "the current the voltage limit allows", 1e-4)

    return h


def series(par, margin):
    def h(ctx):
        names, lim, m, mp, st = dc_stage(ctx, "SeriesDc", par, margin)
        t = ctx.real("t", -75, 75)
        i = list(core.flat([st(ctx.array(R(ctx, "s", len(names), -100, 100)), ctx.array([t]))]))
        ctx.same(len(i), 1, "one current")
        got = m.torque([i[0]])
        ctx.eq(got, ite(t > 0, t, 0.0), "the machine delivers every torque it can deliver", 1e-5)

    return h


def shunt(par, margin):
    def h(ctx):
        names, lim, m, mp, st = dc_stage(ctx, "ShuntDc", par, margin)
        ie, t = ctx.real("i_e", -30, 30), ctx.real("t", -75, 75)
        s = [ie if n == "i_e" else ctx.real("s_" + n, -100, 100) for n in names]
        i = list(core.flat([st(ctx.array(list(s)), ctx.array([t]))]))
        ctx.same(len(i), 1, "one current")
        le, la = lim["i_e"] * (1 - margin), lim["i_a"] * (1 - margin)
        if bool(Or(ie > le, ie < -le)):
            ctx.eq(i[0], ite(ie > le, -la, la), "an excessive excitation current is driven back by the limit current", 1e-6)
        elif bool(Or(ie >= 1e-4, ie <= -1e-4)):
            ctx.eq(m.torque([i[0], ie]), t, "the machine delivers the requested torque", 1e-5)
        else:
            got = m.torque([i[0], ie])
            ctx.check(got * t >= -1e-9, "the torque has the sign of the request")
            ctx.check(And(got * got <= t * t + 1e-6), "the torque does not exceed the request")

    return h


def extex(par, margin):
    def h(ctx):
        names, lim, m, mp, st = dc_stage(ctx, "ExtExDc", par, margin)
        ie, t = ctx.real("i_e", -30, 30), ctx.real("t", -75, 75)
        s = [ie if n == "i_e" else ctx.real("s_" + n, -100, 100) for n in names]
        i = list(core.flat([st(ctx.array(list(s)), ctx.array([t]))]))
        ctx.same(len(i), 2, "two currents")
        if bool(ie >= 1e-4):
            ctx.eq(m.torque([i[0], ie]), t, "the machine delivers the requested torque at its present excitation", 1e-5)
        else:
            ctx.check(i[0] * t >= 0, "the armature current follows the sign of the request")
        ctx.le(0, i[1], "positive excitation")
        # settled excitation: armature current t/(l' i_e); loss optimal excitation r_e i_e^4 = r_a (t/l')^2
        ctx.eq(mp["r_e"] * i[1] ** 4 * mp["l_e_prime"] * mp["l_e_prime"], mp["r_a"] * t * t, "excitation of least losses", 1e-3)

    return h


def policy(ctx):
    """a user supplied excitation policy is used"""
    names, lim, m, mp, st = dc_stage(ctx, "ExtExDc", False, 0.2)
    e = ctx.real("e", 0, 20)
    seen = []
    st.i_e_policy = lambda state, reference: seen.append((state, reference)) or e
    t = ctx.real("t", -75, 75)
    s, r = ctx.array(R(ctx, "s", len(names), 1, 20)), ctx.array([t])
    i = list(core.flat([st(s, r)]))
    ctx.eq(i[1], e, "excitation of the policy")
    ctx.check(seen[0][0] is s and seen[0][1] is r, "the policy sees state and reference")


def reachable(motor, margin):
    """operating point, clipping and the current controller together: limits are respected"""
    def h(ctx):
        names = DC_NAMES
        m, mp = sym_motor(ctx, KEY[motor], False)
        lim = {n: 100.0 for n in names}
        lim.update(omega=300.0, torque=50.0, i=100.0, i_a=100.0, i_e=20.0, u=60.0, u_a=60.0, u_e=60.0)
        env = Env(ctx, names, [lim[n] for n in names], [-1.0] * len(names), motor=types.SimpleNamespace(motor_parameter=mp))
        seen = []

        class Cur(gc().CurrentController):
            t_n = [1.0]
            references = {}
            referenced_states = []

            def tune(self, *a, **k):
                pass

            def reset(self):
                seen.append("reset")

            def current_control(self, state, current_reference):
                seen.append(list(core.flat([current_reference])))
                return current_reference

        tc = gc().TorqueController(env, f"Cont-TC-{motor}-v0", current_controller=Cur())
        tc.tune(env, f"Cont-TC-{motor}-v0", current_safety_margin=margin)
        t = ctx.real("t", -75, 75)
        s = [ctx.real("s_" + n, -lim[n] * 1.2, lim[n] * 1.2) for n in names]
        tc.control(ctx.array(list(s)), ctx.array([t]))
        cur = gc().parameter_reader.currents[motor]
        ctx.same(len(seen[0]), len(cur), "one reference per controlled current")
        for x, n in zip(seen[0], cur):
            b = lim[n] * (1 - margin)
            ctx.le(x, b, "current reference within the limit less the margin")
            ctx.le(-b, x, "current reference within the limit less the margin")
        ctx.eq(list(core.flat([tc.current_reference])), seen[0], "reported current reference")
        raw = list(core.flat([tc.torque_to_current_stage(ctx.array(list(s)), ctx.array([t]))]))
        for x, y, n in zip(seen[0], raw, cur):
            b = lim[n] * (1 - margin)
            ctx.check(Implies(And(y <= b, y >= -b), And(x - y < 1e-6, y - x < 1e-6)), "an operating point inside the limits is used as it is")
        tc.reset()
        ctx.same(seen[-1], "reset", "the current controller is reset, too")

    return h


# --- three phase machines ------------------------------------------------------------------------------------------
_cache = {}


def ops_of(motor):
    """the operation point selection tuned by the real code for the default drive"""
    import copy

    if motor not in _cache:
        import gym_electric_motor as gem
        from gym_electric_motor.physical_system_wrappers import FluxObserver

        def mk():
            kw = dict(physical_system_wrappers=(FluxObserver(),)) if motor == "SCIM" else {}
            env = gem.make(f"Cont-TC-{motor}-v0", **kw).unwrapped
            o = gc().stages.torque_to_current_function[motor]()
            if motor == "EESM":  # the tables are replaced
                o._calculate_luts = lambda: None
            o.tune(env, f"Cont-TC-{motor}-v0", 0.2)
            return o, list(env.state_names), np.array(env.limits)

        if core.CTX is not None and core.CTX.symbolic:
            with shim.Suspended():
                _cache[motor] = mk()
        else:
            _cache[motor] = mk()
    o, names, lim = _cache[motor]
    o2 = copy.copy(o)
    for k, v in list(o2.__dict__.items()):
        if isinstance(v, gc().stages.BaseController):
            o2.__dict__[k] = copy.deepcopy(v)
            if core.CTX is not None and core.CTX.symbolic:
                shim.symbolify(o2.__dict__[k])
    return o2, names, lim


def any_state(ctx, names, lim, **given):
    return [given[n] if n in given else ctx.real("s_" + n, -l, l) for n, l in zip(names, lim)]


def modulation(motor, steps):
    def h(ctx):
        o, names, lim = ops_of(motor)
        o.reset()
        udc = 3 ** 0.5 * float(lim[names.index("u_a" if "u_a" in names else "u_sa")])
        p = o.p
        first = None
        ctx.check(And(o.psi_low < 0, o.psi_high > 0), "the flux correction has two signs")
        for k in range(steps):
            w, ud, uq = ctx.real(f"w{k}", -400, 400), ctx.real(f"ud{k}", -400, 400), ctx.real(f"uq{k}", -400, 400)
            s = ctx.array([{"omega": w, "u_sd": ud, "u_sq": uq}.get(n, 0.1) for n in names])
            psi = o.modulation_control(s)
            aw = ite(w < 0, -w, w)
            aw = ite(aw < 1e-4, 1e-4, aw)
            # psi = u_dc / (sqrt(3) w p) + correction
            d = psi - udc / (3 ** 0.5 * p * aw)
            ctx.le(d, o.psi_high, "the correction of the voltage limited flux is bounded", 1e-6)
            ctx.le(o.psi_low, d, "the correction of the voltage limited flux is bounded", 1e-6)
            if k == 0:
                first = (w, ud, uq, psi)
        o.reset()
        w, ud, uq, psi = first
        s = ctx.array([{"omega": w, "u_sd": ud, "u_sq": uq}.get(n, 0.1) for n in names])
        ctx.eq(o.modulation_control(s), psi, "after a reset the answer is the one of a fresh controller", 1e-6)

    return h


@contextlib.contextmanager
def no_int(mod):
    """int() keeps proxies (the value is integral already)"""
    if core.CTX is not None and core.CTX.symbolic:
        mod.__dict__["int"] = lambda x: x
        try:
            yield
        finally:
            del mod.__dict__["int"]
    else:
        yield


def index(motor, fn, lo, hi, count, mod, wrap, grid):
    """the table index belongs to the grid value next to the argument"""
    def h(ctx):
        o, names, lim = ops_of(motor)
        if motor == "EESM":
            o.psi_max, o.t_max = 0.9, 140.0
        a, b, n = lo(o), hi(o), count(o)
        x = ctx.real("x", a - 0.5 * (b - a), b + 0.5 * (b - a)) if wrap != "inside" else ctx.real("x", a, b)
        with no_int(mod):
            k = getattr(o, fn)(ctx.array([x]) if wrap == "vec" or wrap == "inside" else x)
        ctx.check(And(k >= 0, k <= n - 1), "the index lies inside the table")
        c = ite(x < a, a, ite(x > b, b, x))
        step = (b - a) / (n - 1)
        ctx.le(a + k * step - c, 0.5 * step, "the table entry next to the argument", 1e-6)
        ctx.le(c - a - k * step, 0.5 * step, "the table entry next to the argument", 1e-6)

    return h


def roots_stub(mod, answer):
    real = mod.np

    class NPX:
        def __getattr__(self, k):
            return getattr(real, k)

        def roots(self, poly):
            return answer(list(poly))

    @contextlib.contextmanager
    def cm():
        mod.np = NPX()
        try:
            yield
        finally:
            mod.np = real

    return cm()


def analytic(motor):
    """the polynomial handed to the root finder is the flux equation of the machine, the returned pair solves torque and flux equation"""
    def h(ctx):
        o, names, lim = ops_of(motor)
        mod = m_pmsm if motor != "EESM" else m_eesm
        if motor == "EESM":  # the polynomial is a closure over the tuned object: use this one
            o = _cache[motor][0]
            old = dict(o.__dict__)
            try:
                analytic_(ctx, motor, o, mod)
            finally:
                o.__dict__.clear()
                o.__dict__.update(old)
        else:
            analytic_(ctx, motor, o, mod)

    return h


def analytic_(ctx, motor, o, mod):
    # an arbitrary parameter set
    o.l_d, o.l_q = ctx.real("l_d", 1e-4, 1), ctx.real("l_q", 1e-4, 1)
    p = 3
    o.p = p
    d, q = ctx.real("i_d", -500, 500), ctx.real("i_q", -500, 500)
    if motor == "EESM":
        o.l_m = ctx.real("l_m", 1e-4, 1)
        e = ctx.real("i_e", 0.1, 100)
        ex = o.l_m * e
    else:
        ex = o.psi_p = ctx.real("psi_p", 0, 2) if motor == "PMSM" else 0.0
    k = ex + (o.l_d - o.l_q) * d
    ctx.assume(Or(k > 1e-3, k < -1e-3))
    T = 1.5 * p * k * q
    psi2 = (ex + o.l_d * d) * (ex + o.l_d * d) + o.l_q * o.l_q * q * q
    psi = core.sqrt_(psi2) if core.has_sym(psi2) else float(psi2) ** 0.5
    seen = []

    def answer(poly):
        seen.append(poly)
        return ctx.array([0.0, 0.0, 0.0, d])

    with roots_stub(mod, answer):
        out = o.solve_analytical(T, psi, e) if motor == "EESM" else o.solve_analytical(T, psi)
    ctx.same(len(seen[0]), 5, "polynomial of degree four")
    x = sum(c * d ** (4 - j) for j, c in enumerate(seen[0]))
    ctx.eq(x, 0.0, "currents of this torque and flux solve the polynomial", 1e-3)
    ctx.eq(out[0], d, "direct current", 1e-6)
    ctx.eq(out[1] * k, q * k, "quadrature current of the torque equation", 1e-4)



def pmsm_tables(motor):
    """what the selection below relies on holds for every entry of the tuned tables"""
    def h(ctx):
        o, names, lim = ops_of(motor)
        inv = o.invert
        tor = lambda d, q: 1.5 * o.p * (o.psi_p + (o.l_d - o.l_q) * d) * q
        for t, d, q, psi in np.array(o.mtpc, dtype=float):
            ctx.check(bool(abs(tor(d, q) - t) <= 1e-6 * (1 + abs(t))), "table entry delivers its torque")
            ctx.check(bool(abs((o.psi_p + o.l_d * d) ** 2 + (o.l_q * q) ** 2 - psi ** 2) <= 1e-9), "table entry has its flux")
            ctx.check(bool(d <= 1e-12), "no flux increasing direct current")
        for psi, t, d, q in np.array(o.mtpf, dtype=float):
            ctx.check(bool(abs(abs(tor(d, q)) - abs(t)) <= 1e-6 * (1 + abs(t))), "table entry delivers its torque")
            ctx.check(bool(d <= 0 and d * d + q * q <= float(o.i_sq_limit) ** 2 + 1e-6), "table entry inside the current limit")
            ctx.check(bool((o.psi_p + (o.l_d - o.l_q) * d) * inv >= 0), "torque factor of the entry")
        ctx.real("unused", 0, 1)

    return h


def pmsm_select(motor):
    def h(ctx):
        o, names, lim = ops_of(motor)
        o.reset()
        L = {n: float(l) for n, l in zip(names, lim)}
        inv = o.invert
        D = o.l_d - o.l_q
        tor = lambda d, q: 1.5 * o.p * (o.psi_p + D * d) * q
        il = L["i_sd"]
        T = ctx.real("t", -L["torque"], L["torque"])
        # arbitrary entries with the properties of the real tables; the MTPC entry belongs to a torque next to the request
        step = 2 * float(o.max_torque) / (o.t_count - 1)
        d1, q1 = ctx.real("mtpc_d", -2.5 * il, 0), ctx.real("mtpc_q", -2.5 * il, 2.5 * il)
        d2, q2 = ctx.real("mtpf_d", -il, 0), ctx.real("mtpf_q", -il, il)
        t1, t2 = tor(d1, q1), tor(d2, q2)
        ctx.assume(And(t1 - T <= 0.51 * step, T - t1 <= 0.51 * step))
        ctx.assume((o.psi_p + D * d2) * inv > 0)
        psi1 = ctx.real("psi1", 0, 2)
        o.mtpc = ctx.array([[t1, d1, q1, psi1]])
        o.mtpf = ctx.array([[psi1, t2, d2, q2]])
        asked = []
        o._get_t_idx_mtpc = lambda ref: asked.append(ref[0]) or 0
        o._get_psi_idx_mtpf = lambda psi: asked.append(psi) or 0
        pm = ctx.real("psi_mod", 0, 2)
        o.modulation_control = lambda state: pm
        root = ctx.real("root", -3 * il, 3 * il)
        f = o.psi_p + D * root
        ctx.assume(Or(f > 1e-4, f < -1e-4))
        s = ctx.array([0.1] * len(names))
        with roots_stub(m_pmsm, lambda poly: ctx.array([0.0, 0.0, 0.0, root])):
            i = list(core.flat([o(s, ctx.array([T]))]))
        ctx.same(len(i), 2, "two currents")
        ctx.eq(asked[0], T, "the optimal entry of the requested torque is looked up")
        ctx.eq(asked[1], ite(pm < psi1, pm, psi1), "the entry of the limited flux is looked up")
        a2 = ite(t2 < 0, -t2, t2)
        Tc = ite(T > a2, a2, ite(T < -a2, -a2, T))
        got = tor(i[0], i[1])
        ab = lambda x, y, tol: And(x - y <= tol, y - x <= tol)
        sg = ite(T > 0, 1.0, ite(T < 0, -1.0, 0.0))
        tol = 1e-4
        if bool(root > d1):
            # the flux allows more than the optimum: take the optimum, if it respects the flux limit
            if bool(d1 < d2):
                ctx.check(ab(got, sg * a2, tol), "maximum torque of the flux with the sign of the request")
            else:
                ctx.check(ab(got, t1, tol), "the optimal entry delivers its torque")
        elif bool(root < d2):
            ctx.check(ab(got, sg * a2, tol), "maximum torque of the flux with the sign of the request")
        else:
            ctx.check(ab(got, Tc, tol), "the analytic operating point delivers the torque allowed by the flux")

    return h


def eesm_select(ctx):
    o, names, lim = ops_of("EESM")
    o.reset()
    o.psi_max, o.t_max = 0.9, 140.0
    T = ctx.real("t", -150, 150)
    po, tm, pm = ctx.real("psi_opt", 0, 0.9), ctx.real("t_max", 0, 140), ctx.real("psi_mod", -0.2, 2)
    asked = {}
    o.psi_opt = lambda t: asked.setdefault("opt", t) is None or po
    o.t_max_psi = lambda psi: asked.setdefault("tmax", psi) is None or tm
    o._get_t_idx = lambda t: asked.setdefault("t", t) is None or 0
    o._get_psi_idx = lambda psi: asked.setdefault("psi", psi) is None or 0

    def first(v, k):
        def f(x):
            asked[k] = x
            return v
        return f

    o.psi_opt, o.t_max_psi, o._get_t_idx, o._get_psi_idx = first(po, "opt"), first(tm, "tmax"), first(0, "t"), first(0, "psi")
    o.modulation_control = lambda s: pm
    e = R(ctx, "e", 3, -100, 100)
    ctx.assume(e[1] >= 0)
    o.i_d_inter, o.i_q_inter, o.i_e_inter = (ctx.array([[x]]) for x in e)
    i = list(core.flat([o(ctx.array([0.1] * len(names)), ctx.array([T]))]))
    aT = ite(T < 0, -T, T)
    c = ite(aT > 140.0, 140.0, aT)
    ctx.eq(asked["opt"], c, "the optimal flux of the amount of the request")
    ppos = ite(pm > 0, pm, 0.0)
    psi = ite(po < ppos, po, ppos)
    ctx.eq(asked["psi"], psi, "the flux limited by the modulation")
    ctx.eq(asked["tmax"], psi, "the torque limit of the limited flux")
    ctx.eq(asked["t"], ite(c > tm, tm, c), "the torque limited for this flux")
    sg = ite(T > 0, 1.0, ite(T < 0, -1.0, 0.0))
    ctx.eq(i, [e[0], sg * e[1], e[2]], "the entry with the sign of the request", 1e-6)


def scim_select(steps):
    def h(ctx):
        o, names, lim = ops_of("SCIM")
        L = {n: float(l) for n, l in zip(names, lim)}
        il = float(o.i_sd_limit)
        ctx.eq(float(o.i_sq_limit), il, "equal limits of both currents")
        o.reset()
        pc = o.psi_controller
        c = 1.5 * o.p * o.l_m / o.l_r
        I = 0.0
        kp, ki = float(np.ravel(pc.p_gain)[0]), float(np.ravel(pc.i_gain)[0])
        ctx.check(kp > 0 and ki > 0, "positive gains of the flux controller")
        for k in range(steps):
            T, psi = ctx.real(f"t{k}", -1.5 * L["torque"], 1.5 * L["torque"]), ctx.real(f"psi{k}", 0, 2)
            po, tm, pm = ctx.real(f"psi_opt{k}", 0, 2), ctx.real(f"t_max{k}", -20, 20), ctx.real(f"psi_mod{k}", -1, 3)
            asked = {}

            def first(v, key):
                def f(x):
                    asked[key] = x
                    return v
                return f

            o.psi_opt_t = ctx.array([[0.0], [po]])
            o.t_max_psi = ctx.array([[tm]])
            o._get_psi_opt, o._get_t_max = first(0, "opt"), first(o.psi_count, "max")
            o.modulation_control = lambda s: pm
            s = ctx.array([psi if n == "psi_abs" else 0.1 for n in names])
            i = list(core.flat([o(s, ctx.array([T]))]))
            ctx.same(len(i), 2, "two currents")
            ctx.eq(asked["opt"], T, "the optimal flux of the requested torque")
            pl = ite(po < pm, po, pm)
            ctx.eq(asked["max"], pl, "the torque limit of the limited flux")
            raw = kp * (pl - psi) + ki * I
            ctx.eq(i[0], ite(raw > il, il, ite(raw < -il, -il, raw)), "flux controller with limited output", 1e-4)
            I = I + ite(Or(raw > il, raw < -il), 0.0, float(o.tau) * (pl - psi))
            ctx.le(i[0] * i[0] + i[1] * i[1], il * il, "current vector inside the limit", 1e-5)
            ctx.check(i[1] * T >= -1e-9, "the torque producing current has the sign of the request")
            a = ite(tm < 0, -tm, tm)
            Tc = ite(T > a, a, ite(T < -a, -a, T))
            if bool(psi >= 1e-3):
                got = c * psi * i[1]
                ctx.check(got * got <= Tc * Tc + 1e-5, "not more than the allowed torque")
                want = Tc / (c * psi)
                ctx.check(Implies(want * want + i[0] * i[0] <= il * il - 1e-6, And(i[1] - want <= 1e-5, want - i[1] <= 1e-5)),
                          "the allowed torque is delivered by the present flux if the current limit permits")
        o.reset()
        ctx.eq(list(core.flat([pc.integrator])), [0.0], "a reset clears the flux controller")

    return h


def cases(tier):
    out = [dict(name="policy", fn=policy)]
    for n, f in (("permex", permex), ("series", series), ("shunt", shunt), ("extex", extex)):
        for par, mg in ((False, 0.2), (True, 0.5)):
            out.append(dict(name=f"{n}{'-par' if par else ''}", fn=f(par, mg)))
    for m in DC:
        for mg in (0.2, 0.5):
            out.append(dict(name=f"limits-{m}-{mg}", fn=reachable(m, mg)))
    for m in ("PMSM", "SynRM", "SCIM", "EESM"):
        out.append(dict(name="modulation-" + m, fn=modulation(m, 2 if tier == "quick" else 3)))
    for m in ("PMSM", "SynRM", "EESM"):
        out.append(dict(name="analytic-" + m, fn=analytic(m)))
    for m in ("PMSM", "SynRM"):
        out.append(dict(name="tables-" + m, fn=pmsm_tables(m)))
        out.append(dict(name="select-" + m, fn=pmsm_select(m)))
        out.append(dict(name="idx-t-" + m, fn=index(m, "_get_t_idx", lambda o: float(o.t_min), lambda o: float(o.t_max), lambda o: o.t_count, m_pmsm, "vec", None)))
        out.append(dict(name="idx-psi-" + m, fn=index(m, "_get_psi_idx", lambda o: float(o.psi_min), lambda o: float(o.psi_max), lambda o: o.psi_count, m_pmsm, "", None)))
        out.append(dict(name="idx-mtpc-" + m, fn=index(m, "_get_t_idx_mtpc", lambda o: -float(o.max_torque), lambda o: float(o.max_torque), lambda o: o.t_count, m_pmsm, "inside", None)))
    out.append(dict(name="idx-t-EESM", fn=index("EESM", "_get_t_idx", lambda o: 0.0, lambda o: float(o.t_max), lambda o: o.t_grid_count, m_eesm, "", None)))
    out.append(dict(name="idx-psi-EESM", fn=index("EESM", "_get_psi_idx", lambda o: 0.0, lambda o: float(o.psi_max), lambda o: o.psi_grid_count, m_eesm, "", None)))
    out.append(dict(name="idx-t-SCIM", fn=index("SCIM", "_get_psi_opt", lambda o: float(o.t_minimum), lambda o: float(o.t_maximum), lambda o: o.t_count, m_scim, "", None)))
    out.append(dict(name="idx-psi-SCIM", fn=index("SCIM", "_get_t_max", lambda o: 0.0, lambda o: float(o.psi_max), lambda o: o.psi_count, m_scim, "", None)))
    out.append(dict(name="select-EESM", fn=eesm_select))
    out.append(dict(name="select-SCIM", fn=scim_select(1 if tier == "quick" else 2)))
    return out
