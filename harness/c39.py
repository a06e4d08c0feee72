"""C39: complete controllers, made and tuned by the real code for real environments."""
import types
from .ctl import *
from .c35 import R

BOUNDS = ("default drives and default tuning; two consecutive control steps from the tuned state with every normalised state and reference in [-1.5, 1.5] (one arbitrary earlier step), "
          "base controllers PI, P, PID, ThreePoint; the operating points of the three phase drives (C38) replaced by arbitrary currents")
DC = ("SeriesDc", "ShuntDc", "PermExDc", "ExtExDc")
AC = ("PMSM", "SynRM", "EESM", "SCIM")
_envs = {}


class AnyPoint(gc().stages.OperationPointSelection):
    """arbitrary operating points, the same for the same call"""

    def __init__(self, points):
        self.points, self.k = points, 0

    def tune(self, *a, **k):
        pass

    def __call__(self, state, reference):
        p = self.points[min(self.k, len(self.points) - 1)]
        self.k += 1
        return p

    def reset(self):
        pass


def make(ctx, eid, base="PI", speed="PI", decoupling=True):
    import gym_electric_motor as gem
    from gym_electric_motor.physical_system_wrappers import FluxObserver

    motor = eid.split("-")[2]

    def f():
        if eid not in _envs:
            kw = dict(physical_system_wrappers=(FluxObserver(),)) if motor == "SCIM" else {}
            _envs[eid] = gem.make(eid, **kw).unwrapped
        env = _envs[eid]
        S = gc().stages.torque_to_current_function.get(motor)
        old = S.__dict__.get("_calculate_luts") if S else None
        if motor == "EESM" and old:
            S._calculate_luts = lambda self: None
        try:
            return env, gc().GemController.make(env, eid, block_diagram=False, plot_references=False, base_current_controller=base,
                                                base_speed_controller=speed, decoupling=decoupling)
        finally:
            if motor == "EESM" and old:
                S._calculate_luts = old

    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            env, c = f()
        shim.symbolify(c)
    else:
        env, c = f()
    return env, c


def contained(ctx, env, a, what):
    sp = env.action_space
    import gymnasium as gym

    if isinstance(sp, gym.spaces.Box):
        v = list(core.flat([a]))
        ctx.same(len(v), sp.shape[0], "one action per converter input")
        for x, lo, hi in zip(v, sp.low, sp.high):
            ctx.le(x, float(hi), what, 1e-6)
            ctx.le(float(lo), x, what, 1e-6)
    else:
        if isinstance(sp, gym.spaces.Discrete):
            v, n = [a], [int(sp.n)]
            ctx.check(not hasattr(a, "shape") or a.shape == (), "a single action")
        else:
            v, n = list(core.flat([a])), [int(k) for k in sp.nvec]
        ctx.same(len(v), len(n), "one action per converter")
        for x, k in zip(v, n):
            ctx.check(Or(*[x == j for j in range(k)]), what)


def run(eid, base="PI", speed="PI", decoupling=True, history=True):
    motor = eid.split("-")[2]

    def h(ctx):
        env, c = make(ctx, eid, base, speed, decoupling)
        nc = len(gc().parameter_reader.currents[motor])
        lim = np.array(env.limits, dtype=float)
        names, refs = list(env.state_names), list(env.reference_names)
        if motor in AC and "-CC-" not in eid:
            tc = c.controller if "-TC-" in eid else c.controller._torque_controller
            i = [ctx.array(R(ctx, f"op{k}", nc, -1000, 1000)) for k in range(2)]
            points = [i[0], i[1], i[1]]
            tc.torque_to_current_stage = AnyPoint(points)
        draw = lambda k: (R(ctx, f"s{k}", len(names), -1.5, 1.5), R(ctx, f"r{k}", len(refs), -1.5, 1.5))
        s0, r0 = draw(0)
        sa, ra = ctx.array(list(s0)), ctx.array(list(r0))
        a0 = c.control(sa, ra)
        ctx.eq(list(sa), s0, "the observation is left alone")
        ctx.eq(list(ra), r0, "the reference is left alone")
        contained(ctx, env, a0, "the first action is inside the action space")
        if not history:
            return
        s1, r1 = draw(1)
        a1 = c.control(ctx.array(list(s1)), ctx.array(list(r1)))
        contained(ctx, env, a1, "the second action is inside the action space")
        ctx.eq(np.array(env.limits, dtype=float).tolist(), lim.tolist(), "the limits of the drive are left alone")

    return h


def ac(eid, first=False):
    """every command of the base controller, every state: the action of the clipped, transformed, normalised command"""
    motor = eid.split("-")[2]

    def h(ctx):
        env, c = make(ctx, eid, decoupling=False)
        nc = len(gc().parameter_reader.currents[motor])
        names, refs = list(env.state_names), list(env.reference_names)
        cc = c.controller
        if "-CC-" not in eid:
            cc = cc if "-TC-" in eid else cc._torque_controller
            cc.torque_to_current_stage = AnyPoint([ctx.array(R(ctx, "op", nc, -1000, 1000))])
            cc = cc._current_controller
        # every command in polar form, relative to the voltage limit
        r, th = ctx.real("amplitude", 0, 100), ctx.real("angle", -7, 7)
        L = float(env.limits[names.index("u_sd")])
        v = ctx.array([L * r * shim.mcos(th), L * r * shim.msin(th)] + R(ctx, "v_e", nc - 2, -5000, 5000))
        cc._current_base_controller = lambda state, reference: v
        s0, r0 = R(ctx, "s", len(names), -1.5, 1.5), R(ctx, "r", len(refs), -1.5, 1.5)
        a = list(core.flat([c.control(ctx.array(list(s0)), ctx.array(list(r0)))]))
        ctx.same(len(a), env.action_space.shape[0], "one action per converter input")
        ctx.check(bool((env.action_space.low == -1).all() and (env.action_space.high == 1).all()), "the action space is [-1, 1]")
        # three phase currents without zero sequence and an amplitude up to one are inside [-1, 1] (case 'lemma')
        ctx.eq(a[0] + a[1] + a[2], 0.0, "no zero sequence voltage", 1e-7)
        amp2 = 2.0 / 3.0 * (a[0] * a[0] + a[1] * a[1] + a[2] * a[2])
        ctx.eq(amp2, ite(r < 1, r * r, 1.0), "the amplitude of the action is the one of the command limited to the action space", 1e-6)
        for x in a[3:]:
            ctx.le(x, 1.0, "the excitation action is inside the action space", 1e-6)
            ctx.le(-1.0, x, "the excitation action is inside the action space", 1e-6)

    return h


def lemma(ctx):
    a, b = ctx.real("a", -10, 10), ctx.real("b", -10, 10)
    c = -a - b
    ctx.check(Implies(2.0 / 3.0 * (a * a + b * b + c * c) <= 1 + 1e-6, And(a <= 1 + 1e-6, a >= -1 - 1e-6, b <= 1 + 1e-6, b >= -1 - 1e-6, c <= 1 + 1e-6, c >= -1 - 1e-6)),
              "amplitude bound of three phase quantities")


def reset(eid, base="PI", speed="PI"):
    motor = eid.split("-")[2]

    def h(ctx):
        env, c = make(ctx, eid, base, speed, motor not in ("EESM", "SCIM"))
        env, f = make(ctx, eid, base, speed, motor not in ("EESM", "SCIM"))
        nc = len(gc().parameter_reader.currents[motor])
        names, refs = list(env.state_names), list(env.reference_names)
        if motor in AC and "-CC-" not in eid:
            i = [np.array([-1.0 - k, 2.0, 1.0][:nc]) for k in range(2)]
            for x, points in ((c, [i[0], i[1]]), (f, [i[1]])):
                tc = x.controller if "-TC-" in eid else x.controller._torque_controller
                tc.torque_to_current_stage = AnyPoint(points)
        draw = lambda k: (R(ctx, f"s{k}", len(names), -1.5, 1.5), R(ctx, f"r{k}", len(refs), -1.5, 1.5))
        if motor in AC:
            s0, r0 = [0.05 * (k % 5) - 0.1 for k in range(len(names))], [0.3] * len(refs) if motor in ("EESM", "SCIM") else R(ctx, "r0", len(refs), -1.5, 1.5)
        else:
            s0, r0 = draw(0)
        c.control(ctx.array(list(s0)), ctx.array(list(r0)))
        c.reset()
        s1, r1 = draw(1)
        a = c.control(ctx.array(list(s1)), ctx.array(list(r1)))
        b = f.control(ctx.array(list(s1)), ctx.array(list(r1)))
        ctx.eq(list(core.flat([a])), list(core.flat([b])), "after a reset the answer is the one of a fresh controller", 1e-6)

    return h


def cases(tier):
    out = [dict(name="lemma", fn=lemma)]
    for t in ("CC", "TC", "SC"):
        for m in DC:
            out.append(dict(name=f"Cont-{t}-{m}", fn=run(f"Cont-{t}-{m}-v0")))
            out.append(dict(name=f"Finite-{t}-{m}", fn=run(f"Finite-{t}-{m}-v0", history=tier != "quick" or t != "SC")))
            out.append(dict(name=f"reset-{t}-{m}", fn=reset(f"Cont-{t}-{m}-v0")))
            # other base controllers
            if t == "CC":
                for b in ("P", "PID", "ThreePoint"):
                    out.append(dict(name=f"Cont-CC-{m}-{b}", fn=run(f"Cont-CC-{m}-v0", b)))
                    if True:
                        out.append(dict(name=f"reset-CC-{m}-{b}", fn=reset(f"Cont-CC-{m}-v0", b)))
            if t == "SC" and m != "ExtExDc":
                for b in ("P", "PID", "ThreePoint"):
                    out.append(dict(name=f"Cont-SC-{m}-{b}", fn=run(f"Cont-SC-{m}-v0", "PI", b)))
        for m in AC:
            out.append(dict(name=f"Cont-{t}-{m}", fn=ac(f"Cont-{t}-{m}-v0")))
            out.append(dict(name=f"reset-{t}-{m}", fn=reset(f"Cont-{t}-{m}-v0")))
    return out

