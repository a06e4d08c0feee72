"""C35: base controllers follow their discrete laws; anti-windup; reset."""
import types
from .ctl import *

BOUNDS = ("one to three controlled quantities, three control steps, every gain in [0, 1000] (given) or from every motor parameter in [1e-4, 1] (tuned, a in [1.5, 10]), sampling time "
          "in [1e-5, 1e-2], states and references +-1000, limits in [0.1, 1000]; the sequence of clipping patterns is arbitrary")
NAMES = ["omega", "i_b", "torque", "i_a", "i_e", "u_a", "u_e"]
ite = core.ite


def R(ctx, name, n, lo, hi):
    return list(ctx.reals(name, n, lo, hi))


def bc():
    return gc().stages.base_controllers


def clip(x, lo, hi):
    return ite(x < lo, lo, ite(x > hi, hi, x))


def setup(ctx, kind, n, task="CC"):
    """a controller with gains given by the user"""
    c = bc().get(kind)(task)
    idx = [3, 0, 4][:n]
    g = {}
    if kind != "I":
        g["p"] = R(ctx, "kp", n, 0, 1000)
        c.p_gain = ctx.array(list(g["p"]))
    g["tau"] = ctx.real("tau", 1e-5, 1e-2)
    if kind in ("I", "PI", "PID"):
        g["i"] = R(ctx, "ki", n, 0, 1000)
        c.i_gain = ctx.array(list(g["i"]))
        c.tau = g["tau"]
    if kind == "PID":
        g["d"] = R(ctx, "kd", n, 0, 10)
        c.d_gain = ctx.array(list(g["d"]))
    c.state_indices = idx
    return c, g, idx


def law(kind, n, steps=3):
    def h(ctx):
        c, g, idx = setup(ctx, kind, n)
        c.reset()
        for ep in range(2):
            I = [0.0] * n
            last = [0.0] * n
            for k in range(steps if ep == 0 else 1):
                s = R(ctx, f"s{ep}{k}_", len(NAMES), -1000, 1000)
                r = R(ctx, f"r{ep}{k}_", n, -1000, 1000)
                sa, ra = ctx.array(list(s)), ctx.array(list(r))
                out = c(sa, ra) if k % 2 == 0 else c.control(sa, ra)
                e = [r[j] - s[idx[j]] for j in range(n)]
                want = [0.0] * n
                if "p" in g:
                    want = [w + p * x for w, p, x in zip(want, g["p"], e)]
                if "i" in g:
                    want = [w + i * x for w, i, x in zip(want, g["i"], I)]
                if "d" in g:
                    want = [w + d * (x - y) / g["tau"] for w, d, x, y in zip(want, g["d"], e, last)]
                    last = e
                ctx.same(len(list(core.flat([out]))), n, "one command per controlled quantity")
                ctx.eq(list(core.flat([out])), want, f"output of the control law, step {k}", 1e-3)
                ctx.eq(list(sa) + list(ra), s + r, "the inputs are left alone")
                if "i" in g:
                    c.integrate(sa[idx], ra)
                    I = [a + g["tau"] * x for a, x in zip(I, e)]
                    ctx.eq(list(core.flat([c.integrator])), I, "integrated error", 1e-6)
            c.reset()
            if "i" in g:
                ctx.eq(list(core.flat([c.integrator])), [0.0] * n, "a reset clears the integrator")

    return h


def freeze(n):
    """integrate() with the clipping pattern"""
    def h(ctx):
        c, g, idx = setup(ctx, "PI", n)
        c.reset()
        I = [0.0] * n
        for k in range(3):
            s = R(ctx, f"s{k}_", n, -1000, 1000)
            r = R(ctx, f"r{k}_", n, -1000, 1000)
            b = [ctx.bool(f"b{k}{j}") for j in range(n)]
            c._clipped = ctx.array(b) if core.has_sym(b) else np.array([bool(x) for x in b])
            c.integrate(ctx.array(s), ctx.array(r))
            I = [i + ite(q, 0.0, g["tau"] * (y - x)) for i, q, x, y in zip(I, b, s, r)]
            ctx.eq(list(core.flat([c.integrator])), I, "a clipped component is not integrated", 1e-6)

    return h


def antiwindup(task, motor, cur):
    def h(ctx):
        names = AC_NAMES if motor in gc().parameter_reader.ac_motors else DC_NAMES
        tau = ctx.real("tau", 1e-5, 1e-2)
        env = Env(ctx, names, [1.0] * len(names), [-1.0] * len(names), tau=tau)
        st = gc().stages.AntiWindup(task)
        st.tune(env, f"Cont-{task}-{motor}-v0")
        s = R(ctx, "s", len(names), -1000, 1000)
        r = R(ctx, "r", len(cur), -1000, 1000)
        d = R(ctx, "d", len(cur), -10, 10)
        out = st(ctx.array(list(s)), ctx.array(list(r)), ctx.array(list(d)))
        for o, x, n, q in zip(out, r, cur, d):
            ctx.eq(o, ite(q == 0, tau * (x - s[names.index(n)]), 0.0), "only unclipped components are integrated", 1e-6)

    return h


def par(ctx, d):
    return types.SimpleNamespace(motor_parameter={k: (ctx.real("par_" + k, 1e-4, 1.0) if v is None else v) for k, v in d.items()})


MP = {
    "SeriesDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime"], "ShuntDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime"],
    "ExtExDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime"], "PermExDc": ["r_a", "l_a", "psi_e"],
    "PMSM": ["l_d", "l_q", "r_s", "psi_p"], "SynRM": ["l_d", "l_q", "r_s"], "EESM": ["l_d", "l_q", "l_m", "l_e", "r_s", "r_e"],
}
IND = {
    "SeriesDc": lambda m: [m["l_a"] + m["l_e"]], "ShuntDc": lambda m: [m["l_a"]], "ExtExDc": lambda m: [m["l_a"], m["l_e"]],
    "PermExDc": lambda m: [m["l_a"]], "PMSM": lambda m: [m["l_d"], m["l_q"]], "SynRM": lambda m: [m["l_d"], m["l_q"]],
    "EESM": lambda m: [m["l_d"], m["l_q"], m["l_e"]],
}
TAU_CL = {  # time constants of the current loops
    "SeriesDc": lambda m: [(m["l_a"] + m["l_e"]) / (m["r_a"] + m["r_e"])], "ShuntDc": lambda m: [m["l_a"] / m["r_a"]],
    "ExtExDc": lambda m: [m["l_a"] / m["r_a"], m["l_e"] / m["r_e"]], "PermExDc": lambda m: [m["l_a"] / m["r_a"]],
}
CUR = {"SeriesDc": ["i"], "ShuntDc": ["i_a"], "ExtExDc": ["i_a", "i_e"], "PermExDc": ["i"], "PMSM": ["i_sd", "i_sq"], "SynRM": ["i_sd", "i_sq"],
       "EESM": ["i_sd", "i_sq", "i_e"]}
VOL = {"SeriesDc": ["u"], "ShuntDc": ["u"], "ExtExDc": ["u_a", "u_e"], "PermExDc": ["u"], "PMSM": ["u_sd", "u_sq"], "SynRM": ["u_sd", "u_sq"],
       "EESM": ["u_sd", "u_sq", "u_e"]}
DC = ("SeriesDc", "ShuntDc", "ExtExDc", "PermExDc")


def tuned_env(ctx, motor, uni=False):
    names = DC_NAMES if motor in DC else AC_NAMES
    m = par(ctx, {**{k: None for k in MP[motor]}, "p": 3})
    tau = ctx.real("tau", 1e-5, 1e-2)
    lim = [ctx.real("lim_" + n, 0.1, 1000) for n in names]
    env = Env(ctx, names, lim, [0.0 if uni else -1.0] * len(names), tau=tau, motor=m)
    env.physical_system.mechanical_load = types.SimpleNamespace(j_total=ctx.real("j_total", 1e-4, 10))
    return env, names, lim, m.motor_parameter, tau


def tune_cc(motor, kind):
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, motor)
        a = ctx.real("a", 1.5, 10)
        c = bc().get(kind)("CC")
        c.tune(env, f"Cont-CC-{motor}-v0", a)
        c.reset()
        L = IND[motor](m)
        n = len(L)
        kp = [l / (tau * a) for l in L]
        for x, l in zip(core.flat([c.p_gain]), L):
            ctx.eq(x * tau * a, l, "proportional gain of the symmetrical optimum", 1e-6)
        if kind != "P":
            for x, l in zip(core.flat([c.i_gain]), L):
                ctx.eq(x * (tau * tau * a * a * a), l, "integral gain of the symmetrical optimum", 1e-6)
        ctx.same([int(k) for k in c.state_indices], [names.index(q) for q in CUR[motor]], "controlled currents")
        ctx.eq([list(x) for x in c.action_range], [[-lim[names.index(q)] for q in VOL[motor]], [lim[names.index(q)] for q in VOL[motor]]], "range of the voltages")
        s = R(ctx, "s", len(names), -100, 100)
        r = R(ctx, "r", n, -100, 100)
        out = c(ctx.array(list(s)), ctx.array(list(r)))
        f = 1 if kind != "PID" else 2
        for o, l, x, q in zip(core.flat([out]), L, r, CUR[motor]):
            ctx.eq(o * tau * a, f * l * (x - s[names.index(q)]), "first output of the tuned controller", 1e-5)

    return h


def tune_sc(kind):
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, "PermExDc")
        a, t_n = ctx.real("a", 1.5, 10), ctx.real("t_n", 1e-3, 1)
        j = env.physical_system.mechanical_load.j_total
        c = bc().get(kind)("SC")
        c.tune(env, "Cont-SC-PermExDc-v0", a=a, t_n=t_n)
        c.reset()
        ctx.eq(c.p_gain[0] * (a * t_n), j, "proportional gain of the speed controller", 1e-6)
        if kind != "P":
            ctx.eq(c.i_gain[0] * (a * a * t_n * t_n), j, "integral gain of the speed controller", 1e-6)
        ctx.same([int(k) for k in c.state_indices], [0], "the speed is controlled")
        T = lim[names.index("torque")]
        ctx.eq([list(x) for x in c.action_range], [[-T], [T]], "range of the torque")
        s = R(ctx, "s", len(names), -100, 100)
        r = ctx.real("r", -100, 100)
        out = c(ctx.array(list(s)), ctx.array([r]))
        ctx.same(len(list(core.flat([out]))), 1, "one torque")
        ctx.eq(out[0] * (a * t_n), (1 if kind != "PID" else 2) * j * (r - s[0]), "first output of the tuned controller", 1e-5)

    return h


def threepoint(n):
    def h(ctx):
        c = bc().ThreePointController("CC")
        hi, lo = R(ctx, "hi", n, 0, 100), R(ctx, "lo", n, -100, 0)
        hy = R(ctx, "hy", n, 0, 10)
        idx = [3, 0, 4][:n]
        c.high_action, c.low_action, c.idle_action, c.hysteresis, c.referenced_state_indices = ctx.array(hi), ctx.array(lo), ctx.array([0.0] * n), ctx.array(hy), idx
        s, r = R(ctx, "s", len(NAMES), -1000, 1000), R(ctx, "r", n, -1000, 1000)
        out = c(ctx.array(list(s)), ctx.array(list(r)))
        for k in range(n):
            x = s[idx[k]]
            ctx.eq(out[k], ite(x + hy[k] < r[k], hi[k], ite(x - hy[k] > r[k], lo[k], 0.0)), "high below, low above, idle inside the hysteresis band")

    return h


def tune_three(task, motor, uni):
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, motor, uni)
        c = bc().ThreePointController(task)
        if task == "SC":
            c.tune(env, f"Finite-SC-{motor}-v0", t_n=0.01, a=4)
        else:
            c.tune(env, f"Finite-CC-{motor}-v0", 4)
        out_q = VOL[motor] if task == "CC" else ["torque"]
        in_q = CUR[motor] if task == "CC" else ["omega"]
        c.reset()
        hi = [lim[names.index(q)] for q in out_q]
        lo = [0.0 if uni else -x for x in hi]
        ctx.eq([list(x) for x in c.action_range], [lo, hi], "range of the action")
        s, r = R(ctx, "s", len(names), -1000, 1000), R(ctx, "r", len(out_q), -1000, 1000)
        out = c(ctx.array(list(s)), ctx.array(list(r)))
        band = [x for x in core.flat([c.hysteresis])]
        for k, q in enumerate(in_q):
            x = s[names.index(q)]
            ctx.eq(out[k], ite(x + band[k] < r[k], hi[k], ite(x - band[k] > r[k], lo[k], 0.0)), "three point law of the tuned controller")
            ctx.le(band[k], 0.05 * lim[names.index(q)] if task == "SC" else 0.05 * hi[k], "the hysteresis is a small part of the range")
            ctx.check(band[k] > 0, "the hysteresis is positive")

    return h



def current_controller(motor, kind, decoupling, steps=2):
    """PICurrentController over histories: law, clipping and anti-windup together"""
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, motor)
        a = ctx.real("a", 1.5, 10)
        c = gc().PICurrentController(env, f"Cont-CC-{motor}-v0", base_current_controller=kind, decoupling=decoupling)
        c.tune(env, f"Cont-CC-{motor}-v0", a=a)
        c.reset()
        base = c.current_base_controller
        # any gains (the tuning has its own cases)
        n = len(CUR[motor])
        kp = R(ctx, "kp", n, 0, 100)
        base.p_gain = ctx.array(list(kp))
        ki = [0.0] * n
        if kind == "PI":
            ki = R(ctx, "ki", n, 0, 100)
            base.i_gain = ctx.array(list(ki))
            base.reset()
        ff = None
        if decoupling:
            F = R(ctx, "ff", n, -100, 100)
            c.emf_feedforward = _ff(ctx, F)
        else:
            F = [0.0] * n
        L = [lim[names.index(q)] for q in VOL[motor]]
        I = [0.0] * n
        for k in range(steps):
            s = R(ctx, f"s{k}_", len(names), -1000, 1000)
            r = R(ctx, f"r{k}_", n, -1000, 1000)
            u = c.control(ctx.array(list(s)), ctx.array(list(r)))
            e = [x - s[names.index(q)] for x, q in zip(r, CUR[motor])]
            raw = [p * x + i * y + f for p, x, i, y, f in zip(kp, e, ki, I, F)]
            ctx.eq(list(u), [clip(x, -l, l) for x, l in zip(raw, L)], f"limited output of the control law, step {k}", 1e-4)
            ctx.eq(list(c.voltage_reference), list(u), "reported voltage reference")
            if kind == "PI":
                I = [y + ite(Or(x > l, x < -l), 0.0, tau * z) for y, x, l, z in zip(I, raw, L, e)]
                ctx.eq(list(core.flat([base.integrator])), I, "the integrator holds while the output is clipped", 1e-4)
        c.reset()
        s = R(ctx, "sr", len(names), -1000, 1000)
        r = R(ctx, "rr", n, -1000, 1000)
        u = c.control(ctx.array(list(s)), ctx.array(list(r)))
        raw = [p * (x - s[names.index(q)]) + f for p, x, q, f in zip(kp, r, CUR[motor], F)]
        ctx.eq(list(u), [clip(x, -l, l) for x, l in zip(raw, L)], "output after a reset", 1e-4)

    return h


def _ff(ctx, F):
    class FF(gc().stages.EMFFeedforward):
        def __call__(self, state, reference):
            return reference + ctx.array(list(F))

    return FF()


def speed_controller(kind, steps=2):
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, "PermExDc")
        tn = ctx.real("t_n", 1e-3, 1)
        seen = []

        class Torque(gc().GemController):
            t_n = ctx.array([tn])

            def tune(self, *a, **k):
                seen.append("tune")

            def control(self, state, reference):
                seen.append(list(reference))
                return reference

            def reset(self):
                seen.append("reset")

        c = gc().PISpeedController(env, "Cont-SC-PermExDc-v0", torque_controller=Torque(), base_speed_controller=kind)
        c.tune(env, "Cont-SC-PermExDc-v0", a=4)
        ctx.same(seen, ["tune"], "the torque controller is tuned")
        c.reset()
        kp = ctx.real("kp", 0, 100)
        ki = ctx.real("ki", 0, 100) if kind == "PI" else 0.0
        b = c.speed_control_stage
        b.p_gain = ctx.array([kp])
        if kind == "PI":
            b.i_gain = ctx.array([ki])
            b.reset()
        T = lim[names.index("torque")]
        I = 0.0
        for k in range(steps + 1):
            if k == steps:
                c.reset()
                ctx.same(seen[-1], "reset", "the torque controller is reset, too")
                I = 0.0
            s = R(ctx, f"s{k}_", len(names), -1000, 1000)
            r = ctx.real(f"r{k}", -1000, 1000)
            c.control(ctx.array(list(s)), ctx.array([r]))
            e = r - s[0]
            raw = kp * e + ki * I
            ctx.eq(seen[-1], [clip(raw, -T, T)], "limited torque reference", 1e-4)
            ctx.eq(list(c.torque_reference), seen[-1], "reported torque reference")
            I = I + ite(Or(raw > T, raw < -T), 0.0, tau * e)
            if kind == "PI":
                ctx.eq(list(core.flat([b.integrator])), [I], "the integrator holds while the output is clipped", 1e-4)

    return h


def time_constant(motor, kind):
    def h(ctx):
        env, names, lim, m, tau = tuned_env(ctx, motor)
        c = gc().PICurrentController(env, f"Cont-CC-{motor}-v0", base_current_controller=kind)
        a = ctx.real("a", 1.5, 10)
        c.tune(env, f"Cont-CC-{motor}-v0", a=a)
        t = list(core.flat([c.t_n]))
        if kind == "PI":
            ctx.eq(t, [tau * a * a] * len(t), "time constant of the current loop", 1e-6)
        else:
            for x, w in zip(t, TAU_CL[motor](m)):
                ctx.eq(x, w, "time constant of the current loop", 1e-6)
        ctx.check(min_(c.t_n) > 0, "usable by the speed controller")

    return h


def min_(t):
    r = None
    for x in t:
        r = x if r is None else ite(x < r, x, r)
    return r


def cases(tier):
    out = []
    for kind in ("P", "I", "PI", "PID"):
        for n in (1, 2, 3) if kind != "PID" else (1, 2):
            out.append(dict(name=f"law-{kind}-{n}", fn=law(kind, n, 3 if tier == "quick" else 5)))
    for n in (1, 2):
        out.append(dict(name=f"freeze-{n}", fn=freeze(n)))
        out.append(dict(name=f"threepoint-{n}", fn=threepoint(n)))
    for motor, cur in CUR.items():
        out.append(dict(name=f"aw-CC-{motor}", fn=antiwindup("CC", motor, cur)))
        for kind in ("P", "PI", "PID"):
            out.append(dict(name=f"tune-CC-{motor}-{kind}", fn=tune_cc(motor, kind)))
        out.append(dict(name=f"tune3-CC-{motor}", fn=tune_three("CC", motor, False)))
    out.append(dict(name="tune3-CC-uni", fn=tune_three("CC", "ExtExDc", True)))
    out.append(dict(name="tune3-SC", fn=tune_three("SC", "PermExDc", False)))
    out.append(dict(name="aw-SC", fn=antiwindup("SC", "PermExDc", ["omega"])))
    out.append(dict(name="aw-TC", fn=antiwindup("TC", "PMSM", ["torque"])))
    for kind in ("P", "PI", "PID"):
        out.append(dict(name=f"tune-SC-{kind}", fn=tune_sc(kind)))
    for motor in DC:
        for kind in ("P", "PI"):
            for d in (False, True) if motor in ("PermExDc",) else (True,):
                out.append(dict(name=f"cc-{motor}-{kind}-{'ff' if d else 'noff'}", fn=current_controller(motor, kind, d, 2)))
            out.append(dict(name=f"tn-{motor}-{kind}", fn=time_constant(motor, kind)))
    for kind in ("P", "PI"):
        out.append(dict(name=f"sc-{kind}", fn=speed_controller(kind, 2)))
    return out
