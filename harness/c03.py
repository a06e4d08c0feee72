"""C03: continuous converters - duty cycle to averaged output voltage."""
from symex.core import min2, max2, clip_, sign_
from .convs import *

BOUNDS = ("tau = 1e-4; interlocking time any value in [0, tau/2]; actions any value in [-3, 3] per component; currents "
          "any value in +-1000 A")


def sgn(i):
    return ite(i > 0, 1.0, ite(i < 0, -1.0, 0.0))


def c1(ctx):
    til = ctx.real("til", 0, TAU / 2)
    conv = make("C1QC", TAU, til)
    conv.reset()
    a, i, t = ctx.real("a", -3, 3), ctx.real("i", -1000, 1000), ctx.real("t", 0, 10)
    conv.set_action(ctx.array([a]), t)
    ctx.eq(conv.convert([i], t), [ite(i >= 0, clip_(a, 0.0, 1.0), 1.0)], "one-quadrant average")


def c2(ctx):
    til = ctx.real("til", 0, TAU / 2)
    conv = make("C2QC", TAU, til)
    conv.reset()
    a, i, t = ctx.real("a", -3, 3), ctx.real("i", -1000, 1000), ctx.real("t", 0, 10)
    conv.set_action(ctx.array([a]), t)
    ref = clip_(clip_(a, 0.0, 1.0) - sgn(i) * til / TAU, 0.0, 1.0)
    ctx.eq(conv.convert([i], t), [ref], "two-quadrant average with dead-time discount")


def c4(ctx):
    conv = make("C4QC", TAU, 0.0)
    conv.reset()
    a, i, t = ctx.real("a", -3, 3), ctx.real("i", -1000, 1000), ctx.real("t", 0, 10)
    conv.set_action(ctx.array([a]), t)
    ctx.eq(conv.convert([i], t), [clip_(a, -1.0, 1.0)], "four-quadrant average")


def c4i(ctx):
    til = ctx.real("til", 0, TAU / 2)
    conv = make("C4QC", TAU, til)
    conv.reset()
    a, i, t = ctx.real("a", -3, 3), ctx.real("i", -1000, 1000), ctx.real("t", 0, 10)
    conv.set_action(ctx.array([a]), t)
    (u,) = conv.convert([i], t)
    c = clip_(a, -1.0, 1.0)
    ctx.le(abs(u - c), 2 * til / TAU, "dead time changes the average by at most both legs' interlocking shares", 1e-9)
    # the second leg carries the reversed current
    l0 = clip_(0.5 * (c + 1) - sgn(i) * til / TAU, 0.0, 1.0)
    l1 = clip_(0.5 * (1 - c) + sgn(i) * til / TAU, 0.0, 1.0)
    l1k = clip_(0.5 * (1 - c) - sgn(i) * til / TAU, 0.0, 1.0)
    ctx.check(Or(abs(u - (l0 - l1)) <= 1e-7, abs(u - (l0 - l1k)) <= 1e-7), "no deviation besides the listed one")
    ctx.eq(u, l0 - l1, "each leg discounts its own current")


def cb6(ctx):
    til = ctx.real("til", 0, TAU / 2)
    conv = make("CB6", TAU, til)
    conv.reset()
    a, i, t = ctx.reals("a", 3, -3, 3), ctx.reals("i", 3, -1000, 1000), ctx.real("t", 0, 10)
    conv.set_action(a, t)
    ref = [clip_(clip_(0.5 * (x + 1), 0.0, 1.0) - sgn(y) * til / TAU, 0.0, 1.0) - 0.5 for x, y in zip(a, i)]
    ctx.eq(conv.convert(list(i), t), ref, "B6 average")


def mono(name):
    """a larger duty cycle never gives a smaller voltage; the last set action is the one that counts"""

    def h(ctx):
        til = ctx.real("til", 0, TAU / 2)
        n = CONT[name][1]
        conv = make(name, TAU, til)
        conv.reset()
        a, b = ctx.reals("a", n, -3, 3), ctx.reals("b", n, -3, 3)
        i = ctx.reals("i", n, -1000, 1000)
        t = ctx.real("t", 0, 10)
        conv.set_action(a, t)
        ua = conv.convert(list(i), t)
        conv.set_action(b, t + TAU)
        ub = conv.convert(list(i), t + TAU)
        for k in range(n):
            ctx.check(Implies(a[k] <= b[k], ua[k] <= ub[k] + 1e-9), "monotone in the duty cycle")

    return h


def cases(tier):
    return [
        dict(name="C1QC", fn=c1),
        dict(name="C2QC", fn=c2),
        dict(name="C4QC", fn=c4),
        dict(name="C4QC-interlocked", fn=c4i),
        dict(name="CB6", fn=cb6),
    ] + [dict(name=f"monotone-{n}", fn=mono(n)) for n in CONT]
