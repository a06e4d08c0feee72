"""C28: the dq-action wrapper applies the commanded rotating-frame voltage."""
from .wrap import *

BOUNDS = ("any normalised state (angles within +-pi, speeds within the limit), any dq action in [-1, 1] per component, three steps and a reset in between; PMSM, SCIM, EESM and DFIM "
          "default parameters; with and without dead time of 1 and 3 steps; tau 1e-4 s")

SYS = {
    # names, angle the command refers to, number of actions
    "PMSM": (["omega", "i_sd", "i_sq", "epsilon", "u_sup"], "epsilon", 2, "pmsm"),
    "SCIM": (["omega", "i_sd", "psi_angle", "epsilon"], "psi_angle", 2, "scim"),
    "EESM": (["omega", "epsilon", "i_e"], "epsilon", 3, "eesm"),
    "DFIM": (["omega", "i_sd", "epsilon", "psi_abs", "psi_angle"], "psi_angle", 4, "dfim"),
}
LIMS = dict(omega=300.0, i_sd=50.0, i_sq=60.0, i_e=20.0, epsilon=PI, psi_angle=PI, psi_abs=1.5, u_sup=400.0)


def system(ctx, motor, vals, dead):
    names = SYS[motor][0]
    lim = [LIMS[n] for n in names]
    m = concretely(lambda: make_motor(SYS[motor][3]))
    import gymnasium as gym

    n = {"EESM": 4, "DFIM": 6}.get(motor, 3)
    s = wsystem(ctx, vals, gym.spaces.Box(-1, 1, shape=(n,), dtype=np.float64), 1e-4, names, lim, lim, [-1.0] * len(names), m)
    inner = s
    if dead:
        s = wr().DeadTimeProcessor(dead, None, s)
    return s, inner, m.motor_parameter["p"]


def concretely(f):
    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            return f()
    return f()


def run(motor, dead=0, part="all"):
    names, angle, nact, _ = SYS[motor]

    def h(ctx):
        vals = states(ctx, 6, names)
        s, inner, p = system(ctx, motor, vals, dead)
        w = wr().DqToAbcActionProcessor.make(motor)
        w.set_physical_system(s)
        ctx.same(w.action_space.shape, (nact,), "size of the action space")
        ctx.same((w.action_space.low.tolist(), w.action_space.high.tolist()), ([-1.0] * nact, [1.0] * nact), "action space")
        adv = 0.5 + dead
        k = 0
        phase = []

        def one(tag):
            nonlocal k
            last = {n: v * LIMS[n] for n, v in zip(names, vals[k - 1])}
            a = ctx.reals(tag, nact, -1, 1)
            a0 = list(a)
            out = w.simulate(a)
            ctx.eq(list(a), a0, "the action is left alone")
            got = list(core.flat([inner.log[-1][1]]))
            phase.append((a0, last))
            if len(phase) <= dead:
                k += 1
                return
            a0, last = phase[len(phase) - 1 - dead]
            ctx.same(len(got), {"EESM": 4, "DFIM": 6}.get(motor, 3), "number of phase actions")
            da = adv * 1e-4 * p * last["omega"]
            if motor == "DFIM":
                if part in ("all", "rotor"):
                    ctx.eq(park(got[3:], last["psi_angle"] - last["epsilon"] - da), a0[2:], "rotor command", 1e-6)
                if part in ("all", "stator"):
                    ctx.eq(park(got[:3], last["psi_angle"] + da), a0[:2], "stator command", 1e-6)
                ctx.eq([sum(got[:3]), sum(got[3:])], [0, 0], "no zero component", 1e-6)
            else:
                ctx.eq(park(got[:3], last[angle] + da), a0[:2], "the command seen in the rotating frame", 1e-6)
                ctx.eq(sum(got[:3]), 0, "no zero component", 1e-6)
                if motor == "EESM":
                    ctx.eq(got[3], a0[2], "the excitation action passes unchanged")
            ctx.eq(list(out), vals[k], "the state passes unchanged")
            k += 1

        st = w.reset()
        k = 1
        ctx.eq(list(st), vals[0], "the reset state passes unchanged")
        for j in range(2 + (1 if dead else 0)):
            one(f"a{j}_")
        w.reset()
        k += 1
        phase.clear()
        if not dead:
            one("b")

    return h


def cases(tier):
    out = [dict(name=m, fn=run(m)) for m in ("PMSM", "SCIM", "EESM")]
    out += [dict(name=m + "-dead-1", fn=run(m, 1)) for m in ("PMSM", "SCIM", "EESM")]
    out += [dict(name="PMSM-dead-2", fn=run("PMSM", 2))]
    out += [dict(name="DFIM-rotor", fn=run("DFIM", 0, "rotor")), dict(name="DFIM-stator", fn=run("DFIM", 0, "stator"))]
    return out
