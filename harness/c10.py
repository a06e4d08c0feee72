"""C10: power balance of the motor equations."""
from .systems import *
from symex import shim

DC = ("permex", "series", "shunt", "extex")
SYN = ("pmsm", "synrm")
IND = ("scim", "dfim")
BOUNDS = ("currents +-300 A (DC), +-500 A (synchronous), +-20 A (induction), fluxes +-2 Vs, voltages +-600 V, speed +-1500 rad/s, every default parameter set and "
          "every parameter independently in [0.5, 2] times its default (cases *-par; rotor inertia and pole pairs as default)")


def sym_motor(ctx, name, par):
    m = make_motor(name)
    if not par:
        return m, m.motor_parameter
    d = {k: m.motor_parameter[k] for k in type(m)._default_motor_parameter}
    p = {}
    for k, v in d.items():
        if k in ("p", "j_rotor", "k"):
            p[k] = v
        elif name == "eesm" and k in ("l_d", "l_e", "l_m"):
            # ranges with leakage (l_d l_e > 3/2 l_m^2)
            p[k] = ctx.real("par_" + k, 0.8 * v, 2 * v) if k != "l_m" else ctx.real("par_l_m", 4e-4, 1e-3)
        else:
            p[k] = ctx.real("par_" + k, 0.5 * v, 2 * v)
    kw = dict(motor_parameter=p)
    m = make_motor(name, **kw)
    mp = m.motor_parameter
    for k in p:
        ctx.same(mp[k] is p[k] or not core.has_sym(p[k]), True, "parameter used as given")
    return m, {**mp, **p}


def states(ctx, name):
    d = {n: ctx.real(n, -BOX[n], BOX[n]) for n in MOTORS[name][2]}
    return ctx.array([d[n] for n in MOTORS[name][2]]), d


def h(name, par):
    def f(ctx):
        m, mp = sym_motor(ctx, name, par)
        shim.symbolify(m)
        x, d = states(ctx, name)
        w = ctx.real("omega", -1500, 1500)
        nu = {"extex": 2, "eesm": 3}.get(name, 4 if name in IND else 2 if name in SYN else 1)
        u = [ctx.real(f"u{k}", -600, 600) for k in range(nu)]
        if name == "scim":
            u = u[:2]
            arg = ctx.array(u)
            u = u + [0, 0]
        else:
            arg = ctx.array(u).reshape(2, 2) if name == "dfim" else u
        dx = list(m.electrical_ode(x, arg, w))
        d0 = list(m.electrical_ode(x, arg, 0.0))
        ctx.same(len(dx), len(MOTORS[name][2]), "one derivative per state")
        T = m.torque(x)
        D = dict(zip(MOTORS[name][2], dx))
        tol = 1e-5
        if name == "permex":
            i, u = d["i"], u[0]
            ctx.eq(mp["l_a"] * D["i"], u - mp["r_a"] * i - mp["psi_e"] * w, "voltage equation", tol)
            pel, loss, dw = u * i, mp["r_a"] * i * i, mp["l_a"] * i * D["i"]
        elif name == "series":
            i, u = d["i"], u[0]
            ctx.eq((mp["l_a"] + mp["l_e"]) * D["i"], u - (mp["r_a"] + mp["r_e"]) * i - mp["l_e_prime"] * w * i, "voltage equation", tol)
            pel, loss, dw = u * i, (mp["r_a"] + mp["r_e"]) * i * i, (mp["l_a"] + mp["l_e"]) * i * D["i"]
        elif name in ("shunt", "extex"):
            ia, ie = d["i_a"], d["i_e"]
            ua, ue = (u[0], u[0]) if name == "shunt" else u
            ctx.eq(mp["l_a"] * D["i_a"], ua - mp["r_a"] * ia - mp["l_e_prime"] * w * ie, "armature equation", tol)
            ctx.eq(mp["l_e"] * D["i_e"], ue - mp["r_e"] * ie, "excitation equation", tol)
            pel = ua * ia + ue * ie
            loss = mp["r_a"] * ia * ia + mp["r_e"] * ie * ie
            dw = mp["l_a"] * ia * D["i_a"] + mp["l_e"] * ie * D["i_e"]
        elif name in SYN + ("eesm",):
            p, ld, lq, rs = mp["p"], mp["l_d"], mp["l_q"], mp["r_s"]
            a, b = d["i_sd"], d["i_sq"]
            da, db = D["i_sd"], D["i_sq"]
            if name == "eesm":
                ie, de = d["i_e"], D["i_e"]
                lm = mp["l_m"]
                psid, dpsid = ld * a + lm * ie, ld * da + lm * de
                # physical excitation winding: flux l_e i_e + 3/2 l_m i_d
                ctx.eq(mp["l_e"] * de + 1.5 * lm * da, u[2] - mp["r_e"] * ie, "excitation equation", tol)
            else:
                psid, dpsid = ld * a + (mp["psi_p"] if name == "pmsm" else 0), ld * da
            ctx.eq(dpsid, u[0] - rs * a + p * w * lq * b, "d equation", tol)
            ctx.eq(lq * db, u[1] - rs * b - p * w * psid, "q equation", tol)
            ctx.eq(D["epsilon"], p * w, "electrical angle", 1e-9)
            pel = 1.5 * (u[0] * a + u[1] * b)
            loss = 1.5 * rs * (a * a + b * b)
            dw = 1.5 * (ld * a * da + lq * b * db)
            if name == "eesm":
                pel = pel + u[2] * ie
                loss = loss + mp["r_e"] * ie * ie
                dw = dw + mp["l_e"] * ie * de + 1.5 * lm * (a * de + da * ie)
        else:
            p, lm = mp["p"], mp["l_m"]
            ls, lr = lm + mp["l_sigs"], lm + mp["l_sigr"]
            i, r = [d["i_salpha"], d["i_sbeta"]], [d["psi_ralpha"], d["psi_rbeta"]]
            di, dr = [D["i_salpha"], D["i_sbeta"]], [D["psi_ralpha"], D["psi_rbeta"]]
            ir = [(r[k] - lm * i[k]) / lr for k in (0, 1)]
            dir_ = [(dr[k] - lm * di[k]) / lr for k in (0, 1)]
            rotr = [-r[1], r[0]]
            for k, n in ((0, "alpha"), (1, "beta")):
                ctx.eq(ls * di[k] + lm * dir_[k], u[k] - mp["r_s"] * i[k], f"stator equation {n}", tol)
                ctx.eq(dr[k], u[2 + k] - mp["r_r"] * ir[k] + p * w * rotr[k], f"rotor equation {n}", tol)
            ctx.eq(D["epsilon"], p * w, "electrical angle", 1e-9)
            pel = 1.5 * (u[0] * i[0] + u[1] * i[1] + u[2] * ir[0] + u[3] * ir[1])
            loss = 1.5 * (mp["r_s"] * (i[0] ** 2 + i[1] ** 2) + mp["r_r"] * (ir[0] ** 2 + ir[1] ** 2))
            dw = 1.5 * sum((ls * di[k] + lm * dir_[k]) * i[k] + dr[k] * ir[k] for k in (0, 1))
            # the magnetic energy is a function of the state: 1.5*(psi_s.i_s + psi_r.i_r)/2, its derivative is psi'.i for linear windings
        ctx.eq(pel, loss + dw + T * w, "power balance", 1e-2)
        # the electrical equations at standstill carry no induced voltage
        ctx.eq(m.torque(x), T, "torque is a function of the state", 0)
        ctx.eq([a - b for a, b in zip(dx, d0)], [w * (a - b) for a, b in zip(m.electrical_ode(x, arg, 1.0), d0)], "equations are affine in the speed", 1e-2)
        if name in ("permex",):
            ctx.eq(d0[0] - dx[0], w * mp["psi_e"] / mp["l_a"], "speed acts through the induced voltage only", 1e-2)

    return f


def energy(name):
    """the magnetic energy of the default machine is never negative (otherwise the currents grow without any supply)"""

    def f(ctx):
        m = make_motor(name)
        mp = m.motor_parameter
        x, d = states(ctx, name)
        if name == "eesm":
            a, b, e = d["i_sd"], d["i_sq"], d["i_e"]
            w = 0.75 * (mp["l_d"] * a * a + mp["l_q"] * b * b) + 0.5 * mp["l_e"] * e * e + 1.5 * mp["l_m"] * a * e
        elif name in SYN:
            w = 0.75 * (mp["l_d"] * d["i_sd"] ** 2 + mp["l_q"] * d["i_sq"] ** 2)
        else:
            lm = mp["l_m"]
            ls, lr = lm + mp["l_sigs"], lm + mp["l_sigr"]
            w = 0
            for i, r in ((d["i_salpha"], d["psi_ralpha"]), (d["i_sbeta"], d["psi_rbeta"])):
                ir = (r - lm * i) / lr
                w = w + 0.75 * (ls * i * i + 2 * lm * i * ir + lr * ir * ir)
        ctx.le(0, w, "magnetic energy is not negative", 1e-6)

    return f


def cases(tier):
    out = []
    for n in DC + SYN + ("eesm",) + IND:
        out.append(dict(name=n, fn=h(n, False)))
        out.append(dict(name=n + "-par", fn=h(n, True)))
    out += [dict(name="energy-" + n, fn=energy(n)) for n in SYN + ("eesm",) + IND]
    return out
