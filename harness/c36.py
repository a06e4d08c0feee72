"""C36: the tuned feedforward removes the speed dependence of the motor's own equations."""
import types
from .ctl import *
from .c10 import sym_motor

BOUNDS = ("currents +-300 A (DC), +-500 A (synchronous), +-20 A (induction), rotor flux in [0.01, 2] Vs, voltages +-600 V, speeds +-1500 rad/s; default machines and every parameter "
          "independently in [0.5, 2] times its default (cases *-par); the induction machine in the frame of its rotor flux")
DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")
VOL = {"SeriesDc": 1, "ShuntDc": 1, "ExtExDc": 2, "PermExDc": 1, "PMSM": 2, "SynRM": 2, "SCIM": 2, "EESM": 3}


def stage(ctx, motor, par, names):
    m, mp = sym_motor(ctx, KEY[motor], par)
    shim.symbolify(m)
    env = Env(ctx, names, [ctx.real("lim_" + n, 0.1, 1000) for n in names], [-1.0] * len(names), motor=types.SimpleNamespace(motor_parameter=mp))
    # the current controller selects the feedforward of the motor
    c = gc().PICurrentController(env, f"Cont-CC-{motor}-v0", decoupling=True)
    ff = c.emf_feedforward
    ff.tune(env, f"Cont-CC-{motor}-v0")
    return m, mp, ff


def fill(ctx, names, vals, tag=""):
    return ctx.array([vals[n] if n in vals else ctx.real(f"s{tag}_{n}", -1000, 1000) for n in names])


def decouple(motor, par, names):
    def h(ctx):
        m, mp, ff = stage(ctx, motor, par, names)
        st = MOTORS[KEY[motor]][2]
        d = {n: ctx.real(n, -BOX[n], BOX[n]) for n in st}
        u = [ctx.real(f"u{k}", -600, 600) for k in range(VOL[motor])]
        w = ctx.real("omega", -1500, 1500)
        x = ctx.array([d[n] for n in st])
        s = fill(ctx, names, {**d, "omega": w})
        s0 = list(s)
        ua = ctx.array(list(u))
        v = ff(s, ua)
        ctx.eq(list(s), s0, "the state is left alone")
        ctx.eq(list(ua), u, "the command is left alone")
        ctx.same(len(list(core.flat([v]))), len(u), "one voltage per command")
        v0 = ff(fill(ctx, names, {**d, "omega": 0.0}, "0"), ctx.array(list(u)))
        if motor != "EESM":
            ctx.eq(list(core.flat([v0])), u, "nothing is added at standstill")
        f = list(m.electrical_ode(x, list(v), w))
        f0 = list(m.electrical_ode(x, list(v0), 0.0))
        cur = {"ShuntDc": ["i_a"]}.get(motor, [n for n in st if n.startswith("i")])
        for n in cur:
            k = st.index(n)
            if motor == "EESM" and n != "i_sq":
                # the windings follow their own command voltages
                sig = 1 - 1.5 * mp["l_m"] * mp["l_m"] / (mp["l_d"] * mp["l_e"])
                l, r, q = (mp["l_d"], mp["r_s"], 0) if n == "i_sd" else (mp["l_e"], mp["r_e"], 2)
                ctx.eq(sig * l * f[k], sig * u[q] - r * d[n], f"{n} follows its command voltage alone", 1e-3)
            ctx.eq(f[k], f0[k], f"the derivative of {n} does not depend on the speed", 1e-2)

    return h


def induction(par, names):
    def h(ctx):
        m, mp, ff = stage(ctx, "SCIM", par, names)
        i = [ctx.real("i_sd", -20, 20), ctx.real("i_sq", -20, 20)]
        u = [ctx.real("u_sd", -600, 600), ctx.real("u_sq", -600, 600)]
        ls, lr, lm, rr, rs = mp["l_m"] + mp["l_sigs"], mp["l_m"] + mp["l_sigr"], mp["l_m"], mp["r_r"], mp["r_s"]
        psi = ctx.real("psi", 0.01, 2)
        w = ctx.real("omega", -1500, 1500)
        s = fill(ctx, names, dict(i_sd=i[0], i_sq=i[1], psi_abs=psi, omega=w))
        ua = ctx.array(list(u))
        v = list(ff(s, ua))
        ctx.eq(list(ua), u, "the command is left alone")
        # the machine in the frame of its rotor flux: stationary components at flux angle zero, minus the rotation of the frame
        dx = list(m.electrical_ode(ctx.array([i[0], i[1], psi, 0.0, 0.0]), ctx.array([[v[0], v[1]], [0.0, 0.0]]) if False else ctx.array(v), w))
        wf_psi = dx[3]  # speed of the flux times the flux
        sig = ls - lm * lm / lr
        req = rs + lm * lm * rr / (lr * lr)
        # sigma l_s di/dt = u - r i
        for k, (q, sgn) in enumerate(((i[1], 1), (i[0], -1))):
            lhs = sig * (psi * dx[k] + sgn * wf_psi * q)
            ctx.eq(lhs, psi * (u[k] - req * i[k]), f"stator current {'dq'[k]} follows its command voltage alone", 1e-3)

    return h


def switch(ctx):
    """decoupling=False: the controller adds nothing"""
    names = AC_NAMES
    m = types.SimpleNamespace(motor_parameter=dict(l_d=1e-3, l_q=2e-3, psi_p=0.2, p=3, r_s=0.1))
    env = Env(ctx, names, [100.0] * len(names), [-1.0] * len(names), motor=m)
    for dec in (False, True):
        c = gc().PICurrentController(env, "Cont-CC-PMSM-v0", base_current_controller="P", decoupling=dec)
        c.tune(env, "Cont-CC-PMSM-v0")
        c.current_base_controller.p_gain = ctx.array([0.0, 0.0])
        c._coordinate_transformation_required = False
        c.reset()
        w = ctx.real("w", -10, 10)
        s = fill(ctx, names, dict(omega=w, i_sd=0.0, i_sq=0.0))
        out = c.current_control(s, ctx.array([0.0, 0.0]))
        ctx.eq(list(out), [0.0, 3 * w * 0.2 if dec else 0.0], "feedforward active only if requested", 1e-6)


def cases(tier):
    out = [dict(name="switch", fn=switch)]
    for par in (False, True):
        for mot in DC + ("PMSM", "SynRM", "EESM"):
            for tag, names in (("", DC_NAMES if mot in DC else AC_NAMES), ("-rev", list(reversed(DC_NAMES if mot in DC else AC_NAMES)))):
                if tag and par:
                    continue
                out.append(dict(name=f"{mot}{'-par' if par else ''}{tag}", fn=decouple(mot, par, names)))
        names = ["omega", "torque", "i_sd", "i_sq", "u_sd", "u_sq", "psi_angle", "psi_abs"]
        out.append(dict(name=f"SCIM{'-par' if par else ''}", fn=induction(par, names)))
    return out
