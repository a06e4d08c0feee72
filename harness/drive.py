"""One or two simulation steps of a complete drive with an arbitrary motor state, arbitrary solver results and arbitrary
supply voltages, next to an independent description of what has to happen."""
from .systems import *
from symex import shim

U_NOM = 400.0
EPSMAX = 7.0


def sqrt(x):
    return core.sqrt_(x) if core.has_sym(x) else float(x) ** 0.5


def fieldrot(v, d, inv=False):
    """rotation by the rotor flux angle (stationary -> field frame if inv)"""
    phi = shim.matan2(d["psi_rbeta"], d["psi_ralpha"])
    return irot(v, phi) if inv else rot(v, phi)


def rotor_current(name, d, mp):
    lr = mp["l_m"] + mp["l_sigr"]
    return [(d["psi_ralpha"] - mp["l_m"] * d["i_salpha"]) / lr, (d["psi_rbeta"] - mp["l_m"] * d["i_sbeta"]) / lr]


def converter_currents(name, d, mp):
    if name in ("permex", "series"):
        return [d["i"]]
    if name == "shunt":
        return [d["i_a"] + d["i_e"]]
    if name == "extex":
        return [d["i_a"], d["i_e"]]
    if name in ("pmsm", "synrm"):
        return ipark([d["i_sd"], d["i_sq"]], d["epsilon"])
    if name == "eesm":
        return ipark([d["i_sd"], d["i_sq"]], d["epsilon"]) + [d["i_e"]]
    s = iclarke([d["i_salpha"], d["i_sbeta"]])
    if name == "scim":
        return s
    return s + iclarke(irot(rotor_current(name, d, mp), d["epsilon"]))


def motor_voltages(name, u, d):
    """the voltages in the coordinates of the motor equations"""
    if name in ("pmsm", "synrm"):
        return park(u, d["epsilon"])
    if name == "eesm":
        return park(u[:3], d["epsilon"]) + [u[3]]
    if name == "scim":
        return clarke(u)
    if name == "dfim":
        return clarke(u[:3]) + rot(clarke(u[3:]), d["epsilon"])
    return list(u)


def torque(name, d, mp):
    if name == "permex":
        return mp["psi_e"] * d["i"]
    if name == "series":
        return mp["l_e_prime"] * d["i"] * d["i"]
    if name in ("shunt", "extex"):
        return mp["l_e_prime"] * d["i_a"] * d["i_e"]
    p = mp["p"]
    if name == "pmsm":
        return 1.5 * p * (mp["psi_p"] * d["i_sq"] + (mp["l_d"] - mp["l_q"]) * d["i_sd"] * d["i_sq"])
    if name == "synrm":
        return 1.5 * p * (mp["l_d"] - mp["l_q"]) * d["i_sd"] * d["i_sq"]
    if name == "eesm":
        # mutual flux: l_m k 3/2 times the stator referred excitation current 2/(3 k) i_e
        return 1.5 * p * (mp["l_m"] * d["i_e"] * d["i_sq"] + (mp["l_d"] - mp["l_q"]) * d["i_sd"] * d["i_sq"])
    return 1.5 * p * mp["l_m"] / (mp["l_m"] + mp["l_sigr"]) * (d["psi_ralpha"] * d["i_sbeta"] - d["psi_rbeta"] * d["i_salpha"])


def quantities(name, d, dv, u, mp):
    """reported physical quantities: d state at the reported instant, dv state at the start of the last segment,
    u converter side voltages of the last segment (epsilon is left out: it is reported modulo a turn)"""
    q = dict(omega=d["omega"], torque=torque(name, d, mp))
    if name in ("permex", "series"):
        q.update(i=d["i"], u=u[0])
    elif name == "shunt":
        q.update(i_a=d["i_a"], i_e=d["i_e"], u=u[0])
    elif name == "extex":
        q.update(i_a=d["i_a"], i_e=d["i_e"], u_a=u[0], u_e=u[1])
    elif name in ("pmsm", "synrm", "eesm"):
        q.update(zip(("i_a", "i_b", "i_c"), ipark([d["i_sd"], d["i_sq"]], d["epsilon"])))
        q.update(i_sd=d["i_sd"], i_sq=d["i_sq"])
        q.update(zip(("u_a", "u_b", "u_c"), u))
        q.update(zip(("u_sd", "u_sq"), park(u[:3], dv["epsilon"])))
        if name == "eesm":
            q.update(i_e=d["i_e"], u_e=u[3])
    else:
        s = "s"
        q.update(zip((f"i_{s}a", f"i_{s}b", f"i_{s}c"), iclarke([d["i_salpha"], d["i_sbeta"]])))
        q.update(zip(("i_sd", "i_sq"), fieldrot([d["i_salpha"], d["i_sbeta"]], d, True)))
        q.update(zip((f"u_{s}a", f"u_{s}b", f"u_{s}c"), u))
        q.update(zip(("u_sd", "u_sq"), fieldrot(clarke(u[:3]), dv, True)))
        if name == "dfim":
            ir = rotor_current(name, d, mp)
            q.update(zip(("i_ra", "i_rb", "i_rc"), iclarke(irot(ir, d["epsilon"]))))
            q.update(zip(("i_rd", "i_rq"), fieldrot(ir, d, True)))
            q.update(zip(("u_ra", "u_rb", "u_rc"), u[3:]))
            q.update(zip(("u_rd", "u_rq"), fieldrot(rot(clarke(u[3:]), dv["epsilon"]), dv, True)))
    return q


def any_state(ctx, name, tag, wrap=False):
    old = BOX["epsilon"]
    BOX["epsilon"] = EPSMAX if wrap else 3.1
    try:
        return ode_state(ctx, name, tag)
    finally:
        BOX["epsilon"] = old


def action_of(ctx, name, cont, tag, fixed=None):
    n = n_act(name)
    if cont:
        a = ctx.reals(tag, n, -1.5, 1.5)
        return a, [a[k] for k in range(n)]
    if fixed is not None:
        return fixed, fixed
    raise KeyError


def finite_actions(name):
    """pairs of consecutive discrete actions"""
    one = [(0, 1), (1, 2), (2, 2), (3, 0)]
    b6 = [(0, 5), (6, 1), (3, 3)]
    if name == "extex":
        return [(np.array([a, b]), np.array([c, d])) for (a, c), (b, d) in [((0, 3), (1, 2)), ((1, 1), (2, 1)), ((2, 1), (0, 0))]]
    if name == "eesm":
        return [(np.array([a, b]), np.array([c, d])) for (a, c), (b, d) in [((0, 5), (1, 2)), ((6, 1), (2, 2)), ((3, 3), (0, 3))]]
    if name == "dfim":
        return [(np.array([a, b]), np.array([c, d])) for (a, c), (b, d) in [((0, 5), (3, 3)), ((6, 1), (2, 5)), ((3, 3), (4, 6))]]
    return one if name in ("permex", "series", "shunt") else b6


def run(name, cont, inter, want, dq=False, pair=0):
    """want: subset of {'time','volt','isup','state','eps','consist'}"""

    def h(ctx):
        til = ctx.real("til", 1e-6, TAU / 2) if inter else 0.0
        nst = 2 if (inter and not cont) else 1
        if cont:
            acts = [action_of(ctx, name, True, f"a{k}")[0] for k in range(nst)]
            if dq:
                acts = [ctx.reals(f"dq{k}_", 2, -1, 1) for k in range(nst)]
        else:
            acts = list(finite_actions(name)[pair])[-nst:]
        states = [any_state(ctx, name, "x0", "eps" in want)]
        for k in range(3):
            states.append(any_state(ctx, name, f"y{k}", "eps" in want))
        volts = [ctx.real(f"us{k}", 0, U_NOM) for k in range(3)]
        solver = rec_solver(ctx)
        supply = rec_supply(ctx, U_NOM, volts)
        conv = converter(name, cont, til)
        twin = converter(name, cont, til)
        k = dict(control_space="dq") if dq else {}
        s = build(name, ctx, conv=conv, supply=supply, solver=solver, **k)
        twin.tau = TAU
        mp = s.electrical_motor.motor_parameter
        s.reset()
        twin.reset()
        solver.set_initial_value(states[0][0], 0)
        solver.succ = [x[0] for x in states[1:]]
        d = states[0][1]
        t = 0.0
        used = 0
        lim = list(s.limits)
        names = list(s.state_names)
        for n in range(nst):
            c0, s0, k0 = len(solver.calls), len(supply.calls), s.k
            out = s.simulate(acts[n])
            a = acts[n]
            if dq:
                if name == "scim":
                    a = ctx.array(iclarke(fieldrot(list(a), d)))
                else:
                    a = ctx.array(ipark(list(a), d["epsilon"]))
            times = list(twin.set_action(a, t))
            calls = solver.calls[c0:]
            sup = supply.calls[s0:]
            if "time" in want:
                ctx.same(len(calls), len(times), "one integration per switching segment")
                last = t
                for (f, to, _), e in zip(calls, times):
                    ctx.eq(f, last, "segment starts where the last ended", 1e-10)
                    ctx.eq(to, e, "segment ends at the switching instant", 1e-10)
                    last = e
                ctx.eq(to, t + TAU, "the step ends one step time later", 1e-10)
                ctx.same(s.k, k0 + 1, "step counter")
            ctx.same(len(calls) == len(times) and len(sup) == len(times), True, "one evaluation per segment")
            for j, e in enumerate(times):
                cur = converter_currents(name, d, mp)
                u = twin.convert(list(cur), e)
                isup = twin.i_sup(list(cur))
                us = volts[min(used, 2)]
                used += 1
                u = [x * us for x in u]
                if "volt" in want:
                    got = list(core.flat([calls[j][2]]))
                    ctx.eq(got, motor_voltages(name, u, d), "voltages applied to the motor in each segment", 1e-6)
                if "isup" in want:
                    ctx.eq(sup[j][1], isup, "supply current of the segment", 1e-6)
                    ctx.eq(sup[j][0], t, "supply is evaluated at the time of the step", 1e-10)
                dv = d
                d = states[used][1]
            t = t + TAU
            if n < nst - 1 and "state" not in want:
                continue
            ctx.same(len(out), len(names), "one entry per declared state")
            phys = {nm: out[p] * lim[p] for p, nm in enumerate(names)}
            if "state" in want:
                q = quantities(name, d, dv, u, mp)
                q["u_sup"] = us
                for nm in names:
                    if nm != "epsilon":
                        ctx.eq(phys[nm], q[nm], f"reported {nm}", 1e-6)
            if "eps" in want and "epsilon" in names:
                e = phys["epsilon"]
                ctx.le(e, np.pi, "angle at most pi", 1e-6)
                ctx.le(-np.pi, e, "angle at least -pi", 1e-6)
                c, sn = trig(e)
                c2, s2 = trig(d["epsilon"])
                ctx.eq([c, sn], [c2, s2], "reported angle is the integrated angle modulo a turn", 1e-6)
            if "consist" in want:
                consist(ctx, name, phys, d, dv)

    return h


def consist(ctx, name, phys, d, dv):
    """relations among the reported quantities only (angles of the voltages: start of the last segment)"""
    if name in ("pmsm", "synrm", "eesm"):
        ctx.eq([phys[n] for n in ("i_a", "i_b", "i_c")], ipark([phys["i_sd"], phys["i_sq"]], phys["epsilon"]),
               "phase currents are the dq currents at the reported angle", 1e-6)
        ctx.eq([phys["u_sd"], phys["u_sq"]], park([phys[n] for n in ("u_a", "u_b", "u_c")], dv["epsilon"]),
               "dq voltages are the phase voltages at the angle of application", 1e-6)
    elif name in ("scim", "dfim"):
        s = "s"
        ia = [phys[f"i_{s}{x}"] for x in "abc"]
        ua = [phys[f"u_{s}{x}"] for x in "abc"]
        ctx.eq(fieldrot(clarke(ia), d, True), [phys["i_sd"], phys["i_sq"]], "stator currents viewed in the field frame", 1e-6)
        ctx.eq(fieldrot(clarke(ua), dv, True), [phys["u_sd"], phys["u_sq"]], "stator voltages viewed in the field frame", 1e-6)
        ctx.eq(ia[0] + ia[1] + ia[2], 0, "phase currents sum to zero", 1e-6)
        if name == "dfim":
            ir = [phys[f"i_r{x}"] for x in "abc"]
            ur = [phys[f"u_r{x}"] for x in "abc"]
            ctx.eq(fieldrot(rot(clarke(ir), phys["epsilon"]), d, True), [phys["i_rd"], phys["i_rq"]], "rotor currents viewed in the field frame", 1e-6)
            ctx.eq(fieldrot(rot(clarke(ur), dv["epsilon"]), dv, True), [phys["u_rd"], phys["u_rq"]], "rotor voltages viewed in the field frame", 1e-6)


def reset_run(name, cont, want):
    """reset with an arbitrary (constant) initial state"""

    def h(ctx):
        st, d = ode_state(ctx, name, "x")
        for n in MOTORS[name][2]:
            pass
        solver = rec_solver(ctx)
        conv = converter(name, cont)
        s = build(name, ctx, conv=conv, solver=solver, supply=ps().IdealVoltageSupply(U_NOM))
        mp = s.electrical_motor.motor_parameter
        # arbitrary initial states: handed out by the motor and the load
        motor, load = s.electrical_motor, s.mechanical_load
        motor.reset = lambda **k: ctx.array([d[n] for n in MOTORS[name][2]])
        load.reset = lambda **k: ctx.array([d["omega"]])
        out = s.reset()
        lim, names = list(s.limits), list(s.state_names)
        ctx.same(len(out), len(names), "one entry per declared state")
        phys = {nm: out[p] * lim[p] for p, nm in enumerate(names)}
        twin = converter(name, cont)
        u = [x * U_NOM for x in twin.reset()]
        if "time" in want:
            ctx.eq(list(solver.init[-1][0]), list(st), "the solver starts at the reported state", 1e-9)
            ctx.same(solver.init[-1][1], 0, "the solver starts at time zero")
            ctx.same(s.k, 0, "step counter zero")
        if "state" in want:
            q = quantities(name, d, d, u, mp)
            q["u_sup"] = U_NOM
            for nm in names:
                if nm != "epsilon":
                    ctx.eq(phys[nm], q[nm], f"reported {nm} after reset", 1e-6)
        if "eps" in want and "epsilon" in names:
            e = phys["epsilon"]
            ctx.le(e, np.pi, "angle at most pi after reset", 1e-6)
            c, sn = trig(e)
            c2, s2 = trig(d["epsilon"])
            ctx.eq([c, sn], [c2, s2], "reported angle is the initial angle", 1e-6)
        if "consist" in want:
            consist(ctx, name, phys, d, d)

    return h


BOUNDS = ("one step from an arbitrary motor state (two consecutive steps for dead times), arbitrary solver results in every segment, "
          "arbitrary supply voltage in [0, 400] V per segment; currents +-300 A (DC), +-500 A (synchronous), +-20 A (induction), fluxes +-2 Vs with "
          "magnitude >= 0.1, speed +-1500 rad/s, electrical angle +-7 rad before wrapping, actions +-1.5 (continuous) resp. the listed "
          "pairs of discrete actions, interlocking time any value in [1e-6, tau/2]; default motor parameters")


def all_cases(tier, want, reset, motors=("permex", "series", "shunt", "extex", "pmsm", "synrm", "eesm", "scim", "dfim")):
    out = []
    for n in motors:
        out.append(dict(name=n + "-cont", fn=run(n, True, False, want)))
        out.append(dict(name=n + "-cont-interlocked", fn=run(n, True, True, want)))
        for k in range(len(finite_actions(n))):
            out.append(dict(name=f"{n}-finite-{k}", fn=run(n, False, False, want, pair=k)))
            if k == 0 or tier == "thorough":
                out.append(dict(name=f"{n}-finite-interlocked-{k}", fn=run(n, False, True, want, pair=k)))
        if reset:
            out.append(dict(name=n + "-reset", fn=reset_run(n, True, reset)))
    for n in ("pmsm", "synrm", "scim"):
        if n in motors:
            out.append(dict(name=n + "-dq", fn=run(n, True, False, want, dq=True)))
    # longest first
    return sorted(out, key=lambda c: ("dfim" not in c["name"], "interlocked" not in c["name"]))
