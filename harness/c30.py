"""C30: the flux observer reproduces the rotor flux of the induction machine."""
from .wrap import *

BOUNDS = ("any normalised currents and speeds in every step, three steps (thorough: 5) and two episodes; SCIM and DFIM with default and modified parameters; tau 1e-4 s and 1e-5 s; the observer "
          "is the explicit Euler step of the rotor flux equation of the motor with the currents and the speed of the new state")

NAMES_I = ["omega", "i_sc", "i_sa", "i_sb", "i_sd", "i_sq", "epsilon"]
LIM_I = [300.0, 8.0, 8.0, 8.0, 8.0, 8.0, PI]


def run(kind, par, tau, steps):
    def h(ctx):
        mk = lambda: make_motor(kind, motor_parameter=par) if par else make_motor(kind)
        if core.CTX is not None and core.CTX.symbolic:
            with shim.Suspended():
                m = mk()
        else:
            m = mk()
        mp = m.motor_parameter
        vals = states(ctx, steps + 4, NAMES_I)
        s = wsystem(ctx, vals, None, tau, NAMES_I, LIM_I, LIM_I, [-1.0] * 7, m)
        w = wr().FluxObserver(physical_system=s)
        lm, lr, rr, p = mp["l_m"], mp["l_m"] + mp["l_sigr"], mp["r_r"], mp["p"]
        pl = lm * 8.0
        ctx.same(list(w.state_names), NAMES_I + ["psi_abs", "psi_angle"], "state names")
        ctx.same(dict(w.state_positions), {n: k for k, n in enumerate(NAMES_I + ["psi_abs", "psi_angle"])}, "state positions")
        ctx.eq(list(w.limits), LIM_I + [pl, PI], "limits")
        ctx.eq(list(w.nominal_state), LIM_I + [pl, PI], "nominal values")
        ctx.same((len(w.state_space.low), len(w.state_space.high)), (9, 9), "length of the state space")
        for e in range(2):
            out = w.reset()
            n = len(s.log) + s.resets - 1
            ctx.eq(list(out), vals[n] + [0, 0], "the estimate starts at zero")
            psi = [0.0, 0.0]
            for k in range(steps if e == 0 else 1):
                out = w.simulate(2)
                ctx.same(s.log[-1][1], 2, "the action passes unchanged")
                n = len(s.log) + s.resets - 1
                d = {q: v * l for q, v, l in zip(NAMES_I, vals[n], LIM_I)}
                ia = clarke([d["i_sa"], d["i_sb"], d["i_sc"]])
                wel = p * d["omega"]
                psi = [psi[0] + tau * (rr * lm / lr * ia[0] - rr / lr * psi[0] - wel * psi[1]),
                       psi[1] + tau * (rr * lm / lr * ia[1] - rr / lr * psi[1] + wel * psi[0])]
                ctx.same(len(out), 9, "length of the state")
                ctx.eq(list(out[:7]), vals[n], "measured states pass unchanged")
                a, g = out[7] * pl, out[8] * PI
                ctx.le(0, a, "magnitude is not negative", 1e-9)
                ctx.eq(a * a, psi[0] * psi[0] + psi[1] * psi[1], "magnitude of the rotor flux", 1e-7)
                c, sn = trig(g)
                ctx.eq([a * c, a * sn], psi, "angle of the rotor flux", 1e-6)

    return h


def cases(tier):
    n = 3 if tier == "quick" else 5
    return [dict(name="scim", fn=run("scim", None, 1e-4, n)), dict(name="dfim", fn=run("dfim", None, 1e-4, n)),
            dict(name="scim-parameters", fn=run("scim", dict(l_m=0.5, l_sigr=0.1, r_r=3.5, p=3), 1e-5, n))]
