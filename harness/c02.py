"""C02: finite converters - commanded switching state, freewheeling and interlocking (dead) time."""
from .convs import *

BOUNDS = ("tau = 1e-4; interlocking time 0 or any value in [1e-7, tau/2]; histories of three actions from reset (all "
          "action combinations for 1QC/2QC/4QC, all last-but-one/last pairs for the B6 bridge in the thorough tier, a fixed "
          "pairing in the quick tier); output current any value in +-1000 A per query; query instants anywhere in the step except a "
          "tau/250 neighbourhood of the end of the interlocking time (solver tolerance band of the converter)")


def expect(prev_levels, levels, til_active, currents):
    v = []
    for p, l, i in zip(prev_levels, levels, currents):
        if l is None:
            v.append(free(i))
        elif til_active and p is not None and p != l:
            v.append(free(i))
        else:
            v.append(float(l))
    return v


def legged(name, pairs=None):
    def h(ctx):
        inter = ctx.bool("interlocking")
        til = ctx.real("til", 1e-7, TAU / 2) if inter else 0.0
        conv = make(name, TAU, til)
        nact, n = FINITE[name][1], FINITE[name][2]
        conv.reset()
        t0 = ctx.real("t0", 0, 10)
        # the leg states right after a reset are not part of this claim: start with one whole step
        a0 = ctx.int("a0", 0, nact - 1)
        conv.set_action(a0, t0)
        i = ctx.reals("i", n, -1000, 1000)
        conv.convert(list(i), t0 + TAU)
        lv0, _ = leg_levels(name, a0)
        if pairs is None:
            a1 = ctx.int("a1", 0, nact - 1)
        else:
            a1 = pairs(ctx, a0)
        t1 = t0 + TAU
        conv.set_action(a1, t1)
        lv1, form = leg_levels(name, a1)
        # during the interlocking time
        i1 = ctx.reals("j", n, -1000, 1000)
        if inter:
            d = ctx.real("d", 0, TAU / 2)
            ctx.assume(d < til)
            u = conv.convert(list(i1), t1 + d)
            ctx.eq(u, form(expect(lv0, lv1, True, leg_currents(name, i1))), "output during the interlocking time")
        # after it
        e = ctx.real("e", 0, TAU)
        ctx.assume(e > til + TAU / 250)
        i2 = ctx.reals("k", n, -1000, 1000)
        u = conv.convert(list(i2), t1 + e)
        ctx.eq(u, form(expect(lv0, lv1, False, leg_currents(name, i2))), "output after the interlocking time")

    return h


def third(name):
    """a repeated action needs no new dead time; a leg that was off needs none either"""

    def h(ctx):
        til = ctx.real("til", 1e-7, TAU / 2)
        conv = make(name, TAU, til)
        nact, n = FINITE[name][1], FINITE[name][2]
        conv.reset()
        t = ctx.real("t0", 0, 10)
        lv = None
        a = ctx.int("a0", 0, nact - 1)
        for k in range(3):
            times = conv.set_action(a, t)
            for tt in times:
                i = ctx.reals(f"i{k}_{len(times)}_", n, -1000, 1000)
                conv.convert(list(i), tt)
            t = t + TAU
            lv, form = leg_levels(name, a)
            if k == 0:
                a = ctx.int("a1", 0, nact - 1)
        conv.set_action(a, t)
        d = ctx.real("d", 0, TAU)
        j = ctx.reals("j", n, -1000, 1000)
        u = conv.convert(list(j), t + d)
        ctx.eq(u, form(expect(lv, lv, False, leg_currents(name, j))), "holding an action causes no dead time")

    return h


def oneq(ctx):
    til = ctx.real("til", 0, TAU / 2)
    conv = make("F1QC", TAU, til)
    conv.reset()
    t = ctx.real("t0", 0, 10)
    for k in range(3):
        a = ctx.int(f"a{k}", 0, 1)
        conv.set_action(a, t)
        i = ctx.real(f"i{k}", -1000, 1000)
        d = ctx.real(f"d{k}", 0, TAU)
        u = conv.convert([i], t + d)
        ctx.eq(u, [ite(i < 0, 1.0, float(a))], "one-quadrant output")
        t = t + TAU


def reject(name):
    """actions outside the action space are refused, never mapped to a switching state"""

    def h(ctx):
        conv = make(name)
        n = FINITE[name][1]
        a = ctx.int("a", -3, n + 3)
        try:
            conv.set_action(a, 0.0)
            ok = True
        except (AssertionError, ValueError):
            ok = False
        ctx.check(ok == (0 <= a < n), "exactly the actions of the action space are accepted")

    return h


def cases(tier):
    def b6(ctx, a0):
        if tier == "thorough":
            return ctx.int("a1", 0, 7)
        return ctx.choice("a1", [a0 ^ 7, a0 ^ 4, a0 ^ 1, a0])

    out = [
        dict(name="F1QC", fn=oneq),
        dict(name="F2QC", fn=legged("F2QC")),
        dict(name="F4QC", fn=legged("F4QC")),
        dict(name="hold-F2QC", fn=third("F2QC")),
        dict(name="hold-F4QC", fn=third("F4QC")),
    ]
    if tier == "thorough":
        out.append(dict(name="hold-FB6", fn=third("FB6"), opts=dict(max_paths=100000)))
    # the B6 bridge is split by the first action so that the cases run in parallel
    for k in range(8):
        def fn(ctx, k=k):
            real_int = ctx.int
            ctx.int = lambda name, lo, hi: k if name == "a0" else real_int(name, lo, hi)
            try:
                legged("FB6", b6)(ctx)
            finally:
                ctx.int = real_int
        out.append(dict(name=f"FB6-from-{k}", fn=fn, opts=dict(max_paths=100000)))
    for n in FINITE:
        out.append(dict(name=f"reject-{n}", fn=reject(n)))
    return out
