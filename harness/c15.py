"""C15: voltage supplies."""
from .systems import *
from .rng import Draws
from symex import shim
from symex.core import And, Or

BOUNDS = ("every nominal voltage up to 1000 V, frequency up to 400 Hz, phase in [0, 2 pi) (given or drawn), time up to 100 s and supply current; RC supply: every R in [1e-3, 100] "
          "and C in [1e-5, 1], three queries at arbitrary increasing times, range claim for load currents between zero and the short circuit current and queries closer than RC")


def first(x):
    return list(core.flat([x]))[0]


def sin(x):
    return shim.msin(x) if core.has_sym(x) else float(np.sin(x))


def ideal(ctx):
    u, t, i = ctx.real("u", 1, 1000), ctx.real("t", 0, 100), ctx.real("i", -1e4, 1e4)
    s = ps().IdealVoltageSupply(u_nominal=u)
    for k in range(2):
        ctx.eq(list(s.reset()), [u], "voltage at reset", 0)
        ctx.eq(list(s.get_voltage(t, i)), [u], "voltage", 0)
    ctx.eq([s.u_nominal] + list(s.supply_range), [u, u, u], "nominal value and range", 0)
    ctx.same(s.voltage_len, 1, "one voltage")


def rc(ctx):
    u, R, C = ctx.real("u", 1, 1000), ctx.real("R", 1e-3, 100), ctx.real("C", 1e-5, 1)
    par = dict(R=R, C=C)
    s = ps().RCVoltageSupply(u_nominal=u, supply_parameter=par)
    ctx.eq(list(s.supply_range), [0, u], "range", 0)
    ctx.same(s.voltage_len, 1, "one voltage")
    for ep in range(2):
        ctx.eq(list(s.reset()), [u], f"voltage at reset {ep}", 0)
        t, v = 0.0, u
        for k in range(3 if ep == 0 else 1):
            d, i = ctx.real(f"dt{ep}{k}", 0, 0.1), ctx.real(f"i{ep}{k}", -1e3, 1e3)
            t = t + d
            got = list(core.flat([s.get_voltage(t, i)]))
            ctx.same(len(got), 1, "one voltage delivered")
            ref = v + d * (u - v - R * i) / (R * C)
            ctx.eq(got, [ref], f"capacitor voltage after query {k} of episode {ep}", 1e-4)
            v = ref
    ctx.eq([par["R"], par["C"], len(par)], [R, C, 2], "user's dictionary unmodified", 0)


def rc_range(ctx):
    u, R, C = ctx.real("u", 1, 1000), ctx.real("R", 1e-3, 100), ctx.real("C", 1e-5, 1)
    s = ps().RCVoltageSupply(u_nominal=u, supply_parameter=dict(R=R, C=C))
    s.reset()
    v0 = ctx.real("v", 0, 1000)
    ctx.assume(v0 <= u)
    t0 = ctx.real("t", 0, 10)
    s._solver.set_initial_value(ctx.array([v0]), t0)
    d, i = ctx.real("dt", 0, 10), ctx.real("i", 0, 1e6)
    ctx.assume(d <= R * C)
    ctx.assume(R * i <= u)
    v = first(s.get_voltage(t0 + d, i))
    ctx.le(0.0, v, "not negative", 1e-6)
    ctx.le(v, u, "not above the source voltage", 1e-6)


def rc_steady(ctx):
    """without load the loaded capacitor keeps its voltage, with constant load u - R i is the rest point"""
    u, R, C = ctx.real("u", 1, 1000), ctx.real("R", 1e-3, 100), ctx.real("C", 1e-5, 1)
    s = ps().RCVoltageSupply(u_nominal=u, supply_parameter=dict(R=R, C=C))
    s.reset()
    d, i = ctx.real("dt", 0, 1), ctx.real("i", 0, 1e3)
    ctx.eq(first(s.get_voltage(d, 0.0)), u, "no load voltage", 1e-6)
    s._solver.set_initial_value(ctx.array([u - R * i]), 0.0)
    ctx.eq(first(s.get_voltage(d, i)), u - R * i, "rest point under load", 1e-6)


def ac(n, given):
    def f(ctx):
        with Draws(ctx):
            p = ps()
            u, fr = ctx.real("u", 1, 1000), ctx.real("f", 0.1, 400)
            amp = u * 2 ** 0.5 / (3 ** 0.5 if n == 3 else 1)
            par = dict(frequency=fr)
            if given == "given":
                par["phase"] = ctx.real("phi", 0, 6.28)
            par0 = dict(par)
            cls = p.AC1PhaseSupply if n == 1 else p.AC3PhaseSupply
            if given == "default":
                s = cls(u_nominal=u)
                fr = 50
            else:
                s = cls(u_nominal=u, supply_parameter=par)
            ctx.eq(list(s.supply_range), [-amp, amp], "declared range", 1e-6)
            ctx.same(s.voltage_len, n, "number of voltages")
            for ep in range(2):
                t, i = ctx.real(f"t{ep}", 0, 100), ctx.real(f"i{ep}", -100, 100)
                r = list(s.reset())
                phi = par0.get("phase", s._phi)
                if given != "given":
                    ctx.le(0.0, phi, "drawn phase not negative", 1e-9)
                    ctx.le(phi, 2 * np.pi, "drawn phase at most a turn", 1e-9)
                v = list(s.get_voltage(t, i))
                ctx.same((len(r), len(v)), (n, n), "delivered voltages")
                w = 2 * np.pi * fr
                for k in range(n):
                    off = k * 2 / 3 * np.pi
                    ctx.eq(r[k], amp * sin(phi + off), f"voltage {k} at reset {ep}", 1e-6)
                    ctx.eq(v[k], amp * sin(w * t + phi + off), f"voltage {k} at time t, episode {ep}", 1e-6)
                    if k == 0:  # the other phases are the same sine at another angle
                        ctx.le(-amp, v[k], "not below the range", 1e-6)
                        ctx.le(v[k], amp, "not above the range", 1e-6)
                if n == 3:
                    ctx.eq(v[0] + v[1] + v[2], 0.0, "phases sum to zero", 1e-6)
                v2 = list(s.get_voltage(t, i + 1))
                ctx.eq(v2, v, "independent of the current", 0)
            ctx.same(sorted(par), sorted(par0), "user's dictionary unmodified")

    return f


def cases(tier):
    out = [dict(name="ideal", fn=ideal), dict(name="rc", fn=rc), dict(name="rc-range", fn=rc_range), dict(name="rc-steady", fn=rc_steady)]
    for n in (1, 3):
        for g in ("given", "drawn", "default"):
            out.append(dict(name=f"ac{n}-{g}", fn=ac(n, g)))
    return out
