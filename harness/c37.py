"""C37: input, output and transformation stages of the controllers."""
import types
from .ctl import *
from .c35 import R, CUR, VOL

BOUNDS = ("every observation and reference in +-10, limits in [0.1, 1000], every voltage command within +-5000 V; every order of the states tried and every finite converter of the DC drives; "
          "angles and speeds arbitrary, pole pairs 1 to 4, sampling times in [1e-6, 1e-2]")
DC = ("SeriesDc", "ShuntDc", "PermExDc", "ExtExDc")
OUT = {"SeriesDc": ["u"], "ShuntDc": ["u"], "PermExDc": ["u"], "ExtExDc": ["u_a", "u_e"], "PMSM": ["u_a", "u_b", "u_c"], "SynRM": ["u_a", "u_b", "u_c"],
       "EESM": ["u_a", "u_b", "u_c", "u_sup"], "SCIM": ["u_sa", "u_sb", "u_sc"]}
SC_NAMES = ["torque", "omega", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "epsilon", "psi_angle", "psi_abs", "u_sup"]


def names_of(motor):
    return SC_NAMES if motor == "SCIM" else DC_NAMES if motor in DC else AC_NAMES


def inputs(refs, names):
    def h(ctx):
        lim = [ctx.real("lim_" + n, 0.1, 1000) for n in names]
        env = Env(ctx, names, lim, [-1.0] * len(names), reference_names=refs)
        st = gc().stages.InputStage()
        st.tune(env, "Cont-CC-PermExDc-v0")
        for k in range(2):
            s, r = R(ctx, f"s{k}", len(names), -10, 10), R(ctx, f"r{k}", len(refs), -10, 10)
            sa, ra = ctx.array(list(s)), ctx.array(list(r))
            out = st(sa, ra)
            ctx.eq(list(sa), [x * l for x, l in zip(s, lim)], "the state holds physical values afterwards")
            ctx.eq(list(out), [x * lim[names.index(n)] for x, n in zip(r, refs)], "physical references")
            ctx.eq(list(env.limits), lim, "the limits of the drive are left alone")
            st.reset()

    return h


def cont(motor):
    def h(ctx):
        names = names_of(motor)
        lim = [ctx.real("lim_" + n, 0.1, 1000) for n in names]
        env = Env(ctx, names, lim, [-1.0] * len(names))
        st = gc().stages.ContOutputStage()
        st.tune(env, f"Cont-CC-{motor}-v0")
        n = len(OUT[motor])
        L = [lim[names.index(q)] for q in OUT[motor]]
        v, s = R(ctx, "v", n, -5000, 5000), R(ctx, "s", len(names), -10, 10)
        va = ctx.array(list(v))
        a = st(ctx.array(s), va)
        ctx.same(len(list(core.flat([a]))), n, "one action per voltage")
        for x, y, l in zip(core.flat([a]), v, L):
            ctx.eq(x * l, y, "normalised command", 1e-6)
            ctx.check(Implies(And(y <= l, y >= -l), And(x <= 1 + 1e-9, x >= -1 - 1e-9)), "a command inside the limits is an action inside [-1, 1]")
        ctx.eq(list(va), v, "the command is left alone")

    return h


def disc(motor, n_actions, uni):
    """n_actions: sizes of the discrete action space per voltage; 2: one quadrant, 3: two quadrant, 4: four quadrant"""
    def h(ctx):
        import gymnasium as gym

        names = names_of(motor)
        lim = [ctx.real("lim_" + n, 0.1, 1000) for n in names]
        low = [0.0 if (n in VOL[motor] and uni[VOL[motor].index(n)]) else -1.0 for n in names]
        space = gym.spaces.Discrete(n_actions[0]) if len(n_actions) == 1 else gym.spaces.MultiDiscrete(list(n_actions))
        env = Env(ctx, names, lim, low, action_space=space, converter=object())
        st = gc().stages.DiscOutputStage()
        st.tune(env, f"Finite-CC-{motor}-v0")
        v = R(ctx, "v", len(n_actions), -5000, 5000)
        a = st(ctx.array(R(ctx, "s", len(names), -10, 10)), ctx.array(list(v)))
        acts = list(core.flat([a]))
        ctx.same(len(acts), len(n_actions), "one action per converter")
        for x, y, n, q, un in zip(acts, v, n_actions, VOL[motor], uni):
            l = lim[names.index(q)]
            span = l if un else 2 * l
            ctx.check(Or(*[x == k for k in range(n)]), "the action exists")
            # 0: freewheeling / off, 1: positive voltage, 2: negative (4QC) or zero (2QC) voltage, 3: zero
            ctx.check(Implies(x == 1, y > 0), "positive voltage only for positive commands")
            ctx.check(Implies(x == 2, y < 0), "negative voltage only for negative commands")
            ctx.check(Implies(y >= 0.5 * span, x == 1), "a large positive command switches the positive voltage")
            if n > 2:
                ctx.check(Implies(y <= -0.5 * span, x == 2), "a large negative command switches the negative voltage")
            else:
                ctx.check(Implies(y <= 0, x == 0), "a one quadrant converter is switched off for negative commands")
            ctx.check(Implies(And(y < 0.1 * span, y > -0.1 * span), Not(Or(x == 1, x == 2))), "no voltage for a small command")

    return h


def abc(motor, p, dead):
    def h(ctx):
        names = names_of(motor)
        tau = ctx.real("tau", 1e-6, 1e-2)
        conv = types.SimpleNamespace(dead_time=dead) if dead is not None else object()
        lim = [1.0] * len(names)
        mot = types.SimpleNamespace(motor_parameter=dict(p=p))
        env = Env(ctx, names, lim, [-1.0] * len(names), tau=tau, motor=mot, converter=conv)
        st = gc().stages.AbcTransformation()
        st.tune(env, f"Cont-CC-{motor}-v0")
        n = 3 if motor == "EESM" else 2
        u = R(ctx, "u", n, -600, 600)
        w, e = ctx.real("omega", -300, 300), ctx.real("angle", -3.2, 3.2)
        vals = {"omega": w, ("psi_angle" if motor == "SCIM" else "epsilon"): e}
        s = ctx.array([vals.get(q, 0.3) for q in names])
        ua = ctx.array(list(u))
        out = st(s, ua)
        ctx.eq(list(ua), u, "the command is left alone")
        ctx.same(len(out), len(OUT[motor]), "one voltage per output")
        eps = e + (1.5 if dead else 0.5) * tau * p * w
        abc_ = list(out[:3])
        ctx.eq(sum(abc_), 0.0, "no zero sequence voltage", 1e-5)
        ctx.eq(park(abc_, eps), u[:2], "the drive's transformation at the advanced angle returns the command", 1e-4)
        # and with the drive's own transformation
        M = ps().electric_motors.SynchronousMotor
        ctx.eq(list(M.q_inv(M.t_23(ctx.array(abc_)), eps)), u[:2], "consistent with the drive's own transformation", 1e-4)
        if n == 3:
            ctx.eq(out[3], u[2], "the excitation voltage is passed through")

    return h


def adapter(ctx):
    """the adapter passes physical values in and normalised actions out and keeps the observation"""
    names = DC_NAMES
    lim = [ctx.real("lim_" + n, 0.1, 1000) for n in names]
    env = Env(ctx, names, lim, [-1.0] * len(names), reference_names=["i"])
    seen = []

    class C(gc().GemController):
        def control(self, state, reference):
            seen.append((list(state), list(reference)))
            return ctx.array([v])

    v = ctx.real("v", -1000, 1000)
    c = gc().GymElectricMotorAdapter(env, "Cont-CC-PermExDc-v0", C())
    c.input_stage.tune(env, "Cont-CC-PermExDc-v0")
    c.output_stage.tune(env, "Cont-CC-PermExDc-v0")
    s, r = R(ctx, "s", len(names), -10, 10), R(ctx, "r", 1, -10, 10)
    sa, ra = ctx.array(list(s)), ctx.array(list(r))
    a = c.control(sa, ra)
    ctx.eq(list(sa) + list(ra), s + r, "observation and reference of the caller are left alone")
    ctx.eq(seen[0][0], [x * l for x, l in zip(s, lim)], "the controller sees physical states")
    ctx.eq(seen[0][1], [r[0] * lim[names.index("i")]], "the controller sees physical references")
    ctx.eq(a[0] * lim[names.index("u")], v, "the action is the normalised voltage", 1e-6)


def cases(tier):
    out = [dict(name="adapter", fn=adapter)]
    for refs, names in ((["i"], DC_NAMES), (["torque"], AC_NAMES), (["i_sd", "i_sq"], AC_NAMES), (["i_sq", "i_sd"], list(reversed(AC_NAMES))), (["omega"], DC_NAMES),
                        (["i_a", "i_e"], DC_NAMES), (["i_sd", "i_sq", "i_e"], AC_NAMES)):
        out.append(dict(name="in-" + "_".join(refs) + ("-rev" if names[0] == "u_sup" else ""), fn=inputs(refs, names)))
    for m in OUT:
        out.append(dict(name="cont-" + m, fn=cont(m)))
    for m in ("SeriesDc", "ShuntDc", "PermExDc"):
        for n, uni in ((2, True), (3, True), (4, False)):
            out.append(dict(name=f"disc-{m}-{n}", fn=disc(m, (n,), (uni,))))
    for na, uni in (((4, 3), (False, True)), ((4, 2), (False, True)), ((2, 4), (True, False)), ((4, 4), (False, False))):
        out.append(dict(name="disc-ExtExDc-" + "".join(map(str, na)), fn=disc("ExtExDc", na, uni)))
    for m in ("PMSM", "SynRM", "EESM", "SCIM"):
        for p in (1, 3, 4) if m == "PMSM" else (3,):
            for dead in (None, True, False) if m == "PMSM" else (None, True):
                out.append(dict(name=f"abc-{m}-{p}-{dead}", fn=abc(m, p, dead)))
    return out
