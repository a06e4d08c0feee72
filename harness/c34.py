"""C34: controller clipping keeps commands inside the allowed region."""
from .ctl import *

BOUNDS = ("every reference within +-50 times the limits; limits: any in [0.1, 1000] for the absolute stage, equal and different fixed limits for the vector stages; "
          "margins 0, 0.2 and 0.5; current, torque and speed stages of every motor type; unipolar and bipolar ranges")


def flags(ctx, st, ref, out):
    d = st.clipping_difference
    c = st.clipped
    ctx.same((len(list(core.flat([d]))), len(list(core.flat([c])))), (len(ref), len(ref)), "one flag per component")
    ctx.eq(list(core.flat([d])), [r - o for r, o in zip(ref, core.flat([out]))], "clipping difference")
    for r, o, f in zip(ref, core.flat([out]), core.flat([c])):
        ch = Or(r - o > 0, o - r > 0)
        ctx.check(Or(And(f, ch), And(Not(f), Not(ch))), "the flag is true exactly if the component was changed")


def zeroed(ctx, st, n):
    ctx.eq(list(core.flat([st.clipping_difference])), [0.0] * n, "a reset clears the difference")


def absolute(task, motor, names, uni, margin):
    def h(ctx):
        names_all = DC_NAMES
        lims = [ctx.real(f"l_{n}", 0.1, 1000) for n in names_all]
        low = [0.0 if uni else -1.0] * len(names_all)
        env = Env(ctx, names_all, lims, low)
        st = gc().stages.clipping_stages.AbsoluteClippingStage(task)
        st.tune(env, f"Cont-{task}-{motor}-v0", margin=margin)
        L = [lims[names_all.index(n)] * (1 - margin) for n in names]
        ctx.eq(list(st.action_range[0]), [0.0 if uni else -l for l in L], "lower bounds")
        ctx.eq(list(st.action_range[1]), L, "upper bounds")
        for k in range(2):
            ref = ctx.reals(f"r{k}", len(names), -5000, 5000)
            out = st(ctx.array(ctx.reals("s", len(names_all), -1, 1)), ctx.array(list(ref)))
            ctx.same(len(out), len(names), "one command per reference")
            for r, o, l in zip(ref, out, L):
                lo = 0.0 if uni else -l
                want = ite(r < lo, lo, ite(r > l, l, r))
                ctx.eq(o, want, "the reference limited to its bounds")
            flags(ctx, st, ref, out)
        st.reset()
        zeroed(ctx, st, len(names))

    return h


ite = core.ite


def vector(ctx, ref, out, lim, m):
    """out is ref shortened to the length m in units of lim"""
    s = sum((r / l) * (r / l) for r, l in zip(ref, lim))
    t = sum((o / l) * (o / l) for o, l in zip(out, lim))
    ctx.le(t, m * m, "the length of the vector stays within the limit", 1e-7)
    if decide(s <= m * m):
        ctx.eq(list(out), list(ref), "a vector inside is unchanged")
    else:
        ctx.eq(t, m * m, "a longer vector is shortened to the limit", 1e-7)
        ctx.eq(out[0] * ref[1] / (lim[0] * lim[1]), out[1] * ref[0] / (lim[0] * lim[1]), "the direction is preserved", 1e-6)
        ctx.le(0, out[0] * ref[0] + out[1] * ref[1], "the direction is preserved", 1e-9)


def decide(b):
    return bool(b)


def squared(task, motor, lims, margin):
    def h(ctx):
        names = AC_NAMES
        sel = {"CC": ["u_sd", "u_sq"], "TC": ["i_sd", "i_sq"]}[task]
        env = Env(ctx, names, [lims[sel.index(n)] if n in sel else 7.0 for n in names], [-1.0] * len(names))
        st = gc().stages.clipping_stages.SquaredClippingStage(task)
        if margin is None:
            st.tune(env, f"Cont-{task}-{motor}-v0")
        else:
            st.tune(env, f"Cont-{task}-{motor}-v0", margin=margin)
        for k in range(1):
            ref = [ctx.real(f"r{k}_{j}", -50 * l, 50 * l) for j, l in enumerate(lims)]
            a = ctx.array(list(ref))
            out = st(ctx.array(ctx.reals("s", len(names), -1, 1)), a)
            ctx.eq(list(a), ref, "the reference is left alone")
            ctx.same(len(out), 2, "one command per reference")
            vector(ctx, ref, out, lims, 1 - (margin or 0.0))
            flags(ctx, st, ref, out)
        st.reset()
        zeroed(ctx, st, 2)

    return h


def combined(task, lims, margin, uni):
    def h(ctx):
        names = AC_NAMES
        sel = {"CC": ["u_sd", "u_sq", "u_e"], "TC": ["i_sd", "i_sq", "i_e"]}[task]
        env = Env(ctx, names, [lims[sel.index(n)] if n in sel else 7.0 for n in names], [0.0 if uni and n == sel[2] else -1.0 for n in names])
        st = gc().stages.clipping_stages.CombinedClippingStage(task)
        if margin is None:
            st.tune(env, f"Cont-{task}-EESM-v0")
        else:
            st.tune(env, f"Cont-{task}-EESM-v0", margin=margin)
        m = 1 - (margin or 0.0)
        ref = [ctx.real(f"r{j}", -50 * l, 50 * l) for j, l in enumerate(lims)]
        a = ctx.array(list(ref))
        out = st(ctx.array(ctx.reals("s", len(names), -1, 1)), a)
        ctx.eq(list(a), ref, "the reference is left alone")
        ctx.same(len(out), 3, "one command per reference")
        hi, lo = lims[2] * m, 0.0 if uni else -lims[2] * m
        ctx.eq(out[2], ite(ref[2] < lo, lo, ite(ref[2] > hi, hi, ref[2])), "the excitation is limited to its bounds")
        vector(ctx, ref[:2], out[:2], lims[:2], m)
        flags(ctx, st, ref, out)
        ctx.eq([float(x) for x in core.flat([st.action_range[0]])][-1:], [lo], "lower bound of the excitation")
        ctx.eq([float(x) for x in core.flat([st.action_range[1]])][-1:], [hi], "upper bound of the excitation")
        st.reset()
        zeroed(ctx, st, 3)

    return h


def unknown(ctx):
    env = Env(ctx, DC_NAMES, [1.0] * len(DC_NAMES), [-1.0] * len(DC_NAMES))
    for cls in ("AbsoluteClippingStage", "CombinedClippingStage"):
        st = getattr(gc().stages.clipping_stages, cls)("XY")
        ctx.check(raises(lambda: st.tune(env, "Cont-CC-SeriesDc-v0"), AttributeError) is not None, "an unknown control task is refused")


def cases(tier):
    out = [dict(name="unknown", fn=unknown)]
    for motor, i, u in (("SeriesDc", ["i"], ["u"]), ("ShuntDc", ["i_a"], ["u"]), ("PermExDc", ["i"], ["u"]), ("ExtExDc", ["i_a", "i_e"], ["u_a", "u_e"])):
        for task, names in (("CC", u), ("TC", i), ("SC", ["torque"])):
            for uni, margin in ((False, 0.2), (True, 0.0)):
                out.append(dict(name=f"abs-{task}-{motor}-{'uni' if uni else 'bi'}", fn=absolute(task, motor, names, uni, margin)))
    for task in ("CC", "TC"):
        for motor in ("PMSM", "SynRM", "SCIM"):
            for tag, lims in (("equal", (10.0, 10.0)), ("different", (300.0, 200.0))):
                for mg in (None, 0.2) if motor == "PMSM" else (0.5,):
                    out.append(dict(name=f"sq-{task}-{motor}-{tag}-{mg}", fn=squared(task, motor, lims, mg)))
        for tag, lims in (("equal", (10.0, 10.0, 4.0)), ("different", (300.0, 200.0, 20.0))):
            for mg, uni in ((None, False), (0.2, True), (0.5, False)):
                out.append(dict(name=f"comb-{task}-{tag}-{mg}", fn=combined(task, lims, mg, uni)))
    return out
