"""C12: initial motor states, limits and nominal values."""
import itertools

from .systems import *
from .rng import Draws
from symex import shim

BOUNDS = ("constant initial values: every value inside the nominal range, state dictionaries in every order (two orders in quick for machines with more than "
          "three states); random initial values: every draw, every interval intersecting the nominal range; limits/nominal values: every positive value with nominal <= limit")
NOMBOX = {"permex": dict(i=97), "series": dict(i=97), "shunt": dict(i_a=97, i_e=97), "extex": dict(i_a=97, i_e=97),
          "pmsm": dict(i_sd=240, i_sq=240, epsilon=3.14), "synrm": dict(i_sd=10, i_sq=10, epsilon=3.14),
          "eesm": dict(i_sd=120, i_sq=120, i_e=150, epsilon=3.14),
          "scim": dict(i_salpha=3.9, i_sbeta=3.9, psi_ralpha=0.3, psi_rbeta=0.3, epsilon=3.14),
          "dfim": dict(i_salpha=7.5, i_sbeta=7.5, psi_ralpha=0.3, psi_rbeta=0.3, epsilon=3.14)}


def start(ctx, name, init, omega=0.0, **k):
    """the ODE state the drive starts the episode with"""
    sol = rec_solver(ctx)
    m = make_motor(name, motor_initializer=init, **k)
    load = ps().ConstantSpeedLoad(omega_fixed=omega)
    conv = converter(name)
    s = build(name, ctx, motor=m, solver=sol, load=load, conv=conv)
    s.reset()
    y = list(core.flat([sol.init[-1][0]]))
    return dict(zip(["omega"] + MOTORS[name][2], y)), m, s, sol


def const(name, order, angle=None):
    def f(ctx):
        with Draws(ctx, fixed=angle):
            vals = {n: ctx.real("x" + n, -NOMBOX[name][n], NOMBOX[name][n]) for n in order}
            if name in ("scim", "dfim"):
                ctx.assume(vals["psi_ralpha"] ** 2 + vals["psi_rbeta"] ** 2 <= 0.09)
            init = dict(states=dict(vals))
            d, m, s, sol = start(ctx, name, init)
            for n in order:
                ctx.eq(d[n], vals[n], f"initial {n}", 0)
            s.reset()
            y = dict(zip(["omega"] + MOTORS[name][2], list(core.flat([sol.init[-1][0]]))))
            for n in order:
                ctx.eq(y[n], vals[n], f"initial {n} of the second episode", 0)
                ctx.eq(init["states"][n], vals[n], "user's dictionary unmodified", 0)

    return f


def rand(name, kind, interval, order):
    def f(ctx):
        with Draws(ctx):
            box = NOMBOX[name]
            init = dict(states={n: 0.0 for n in order}, random_init=kind)
            lo = {n: -box[n] for n in order}
            hi = dict(box)
            if interval:
                for n in order:
                    lo[n] = ctx.real("lo" + n, -1.5 * box[n], 0.9 * box[n])
                    hi[n] = ctx.real("hi" + n, -0.9 * box[n], 1.5 * box[n])
                    ctx.assume(lo[n] <= hi[n])
                    if n.startswith("psi"):  # the nominal flux range depends on a random field angle
                        ctx.assume(lo[n] <= 0.0)
                        ctx.assume(hi[n] >= 0.0)
                init["interval"] = [[lo[n], hi[n]] for n in order]
            d, m, s, _ = start(ctx, name, init)
            nom = m.nominal_values
            for n in order:
                ctx.le(lo[n], d[n], f"random {n} not below its interval", 1e-6) if interval else None
                ctx.le(d[n], hi[n], f"random {n} not above its interval", 1e-6) if interval else None
                if n.startswith("psi"):
                    top = m.motor_parameter["l_m"] * nom["i_sd"]
                    ctx.le(d[n] * d[n], top ** 2, f"random {n} within the nominal flux", 1e-6)
                else:
                    key = {"i_salpha": "i", "i_sbeta": "i"}.get(n, n) if n not in nom else n
                    ctx.le(d[n], nom[key], f"random {n} within the nominal range", 1e-6)
                    ctx.le(-nom[key], d[n], f"random {n} within the negative nominal range", 1e-6)

    return f


def limits(name):
    """limits and nominal values given by the user"""

    def f(ctx):
        v = {}
        three = name in ("pmsm", "synrm", "eesm", "scim", "dfim")
        for q, top in (("omega", 1000), ("u", 600), ("i", 500)) + ((("i_e", 300),) if name == "eesm" else ()):
            v[q] = (ctx.real("nom_" + q, 1, top), ctx.real("lim_" + q, 1, top))
            ctx.assume(v[q][0] <= v[q][1])
        L = {q: x[1] for q, x in v.items()}
        N = {q: x[0] for q, x in v.items()}
        if not three:
            for q in type(make_motor(name)).CURRENTS + [x for x in ("u_a", "u_e") if name == "extex"]:
                src = "u" if q.startswith("u") else "i"
                L[q], N[q] = L[src], N[src]
            L["torque"] = ctx.real("lim_T", 1, 100)
            N["torque"] = ctx.real("nom_T", 1, 100)
            ctx.assume(N["torque"] <= L["torque"])
        L0, N0 = dict(L), dict(N)
        m = make_motor(name, limit_values=L, nominal_values=N)
        lim, nom = m.limits, m.nominal_values
        for q in L0:
            ctx.eq(lim[q], L0[q], f"limit of {q} as given", 0)
            ctx.eq(nom[q], N0[q], f"nominal value of {q} as given", 0)
        ctx.same((set(L), set(N)), (set(L0), set(N0)), "user's dictionaries unmodified")
        if three:
            mp = m.motor_parameter
            for ph in ("u_sd", "u_sq", "u_a", "u_b", "u_c") if name != "dfim" else ("u_sd", "u_sq", "u_sa", "u_sb", "u_sc", "u_rd", "u_rq", "u_ra", "u_rb", "u_rc"):
                ph = ph if ph in lim else ph.replace("u_", "u_s") if len(ph) == 3 else ph
                ctx.eq([lim[ph], nom[ph]], [L0["u"] / 2, N0["u"] / 2], f"derived {ph}", 1e-9)
            for ph in [q.replace("u_", "i_") for q in lim if q.startswith("u_") and q not in ("u_e", "u_sup")]:
                ctx.eq([lim[ph], nom[ph]], [L0["i"], N0["i"]], f"derived {ph}", 1e-9)
        for q in lim:
            if q in nom:
                ctx.le(nom[q], lim[q], f"nominal {q} within its limit", 1e-6)

    return f


def default(name):
    def f(ctx):
        m = make_motor(name)
        s = build(name, ctx, motor=m)
        for q in m.limits:
            ctx.same(q in m.nominal_values, True, f"{q} has a nominal value")
            ctx.le(m.nominal_values[q], m.limits[q], f"nominal {q} within its limit", 1e-9)
        ctx.le(list(s.nominal_state), list(s.limits), "nominal state within the limits", 1e-9)
        # torque limit: no pair of currents of nominal magnitude exceeds it
        if name in ("pmsm", "synrm", "eesm"):
            i = m.nominal_values["i"]
            a, b = ctx.real("i_sd", -i, i), ctx.real("i_sq", -i, i)
            ctx.assume(a * a + b * b <= i * i)
            e = m.limits["i_e"] if name == "eesm" else 0.0
            x = ctx.array([a, b, e, 0.0] if name == "eesm" else [a, b, 0.0])
            ctx.le(m.torque(x), m.limits["torque"], "torque at nominal current within the derived limit", 1e-3)

    return f


def cases(tier):
    out = []
    for n in MOTORS:
        names = MOTORS[n][2]
        orders = list(itertools.permutations(names)) if len(names) <= 3 else [tuple(names), tuple(reversed(names)), tuple(names[1:] + names[:1])]
        if tier != "thorough":
            orders = orders[:1] + orders[-1:] if len(orders) > 1 else orders
        for k, o in enumerate(orders):
            out.append(dict(name=f"const-{n}-{k}", fn=const(n, o)))
        if n in ("scim", "dfim"):  # the field angle is drawn; the constant initial fluxes do not depend on it
            for k, a in enumerate((0.0, 0.2, 0.5, 0.77, 0.93)):
                out.append(dict(name=f"const-{n}-angle{k}", fn=const(n, orders[0], a)))
        for kind in ("uniform", "gaussian"):
            for iv in (False, True):
                out.append(dict(name=f"{kind}-{n}{'-interval' if iv else ''}", fn=rand(n, kind, iv, names)))
                if iv and len(names) > 1:
                    out.append(dict(name=f"{kind}-{n}-interval-reversed", fn=rand(n, kind, iv, names[::-1])))
        out.append(dict(name="limits-" + n, fn=limits(n)))
        out.append(dict(name="default-" + n, fn=default(n)))
    return out
