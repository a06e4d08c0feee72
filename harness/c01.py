"""C01: converter output voltages stay inside the declared voltage box."""
from .convs import *

BOUNDS = ("tau = 1e-4; interlocking time any value in [0, tau/2]; currents any value in +-1000; histories of up to two "
          "actions after construction or reset, query instants anywhere in the step; continuous actions any value in "
          "[-3, 3] per component (beyond the action space, where saturation is promised); multi converters of two "
          "sub-converters")


def box(ctx, conv, u, what, half=False):
    lo = conv.voltages.low.tolist()
    hi = conv.voltages.high.tolist()
    ctx.same(len(u), len(lo), what + ": one voltage per declared output")
    for k in range(len(u)):
        ctx.le(u[k], hi[k], what + ": upper bound", 1e-9)
        ctx.le(lo[k], u[k], what + ": lower bound", 1e-9)
        if half:
            ctx.le(abs(u[k]), 0.5, what + ": half-bridge potential against the midpoint", 1e-9)


def finite(name):
    def h(ctx):
        til = ctx.real("til", 0, TAU / 2)
        conv = make(name, TAU, til)
        n = FINITE[name][2]
        box(ctx, conv, conv.reset(), "after reset")
        nact = FINITE[name][1]
        prev = ctx.int("a0", 0, nact - 1)
        t0 = ctx.real("t0", 0, 10)
        i0 = ctx.reals("i", n, -1000, 1000)
        conv.set_action(prev, t0)
        box(ctx, conv, conv.convert(list(i0), t0 + TAU), "end of first step", n == 3)
        if n == 1:
            a = ctx.int("a1", 0, nact - 1)
        else:
            a = [7, 0, 3, 5, 6, 4, 1, 2][prev]
        conv.set_action(a, t0 + TAU)
        d = ctx.real("dt", 0, TAU)
        i1 = ctx.reals("j", n, -1000, 1000)
        box(ctx, conv, conv.convert(list(i1), t0 + TAU + d), "inside second step", n == 3)

    return h


def cont(name):
    def h(ctx):
        til = ctx.real("til", 0, TAU / 2)
        conv = make(name, TAU, til)
        n = CONT[name][1]
        box(ctx, conv, conv.reset(), "after reset")
        t0 = ctx.real("t0", 0, 10)
        a = ctx.reals("a", n, -3, 3)
        i = ctx.reals("i", n, -1000, 1000)
        conv.set_action(a, t0)
        d = ctx.real("dt", 0, TAU)
        box(ctx, conv, conv.convert(list(i), t0 + d), "in the step", n == 3)

    return h


def multi(kind, names):
    def h(ctx):
        til = ctx.real("til", 0, TAU / 2)
        c = cv()
        tab = FINITE if kind == "F" else CONT
        subs = [getattr(c, tab[n][0]) for n in names]
        cls = c.FiniteMultiConverter if kind == "F" else c.ContMultiConverter
        conv = cls(subconverters=subs, tau=TAU, interlocking_time=til)
        box(ctx, conv, conv.reset(), "after reset")
        ncur = sum(tab[n][-1] for n in names)
        i = ctx.reals("i", ncur, -1000, 1000)
        if kind == "F":
            a = np.array([ctx.int(f"a{k}", 0, tab[n][1] - 1) for k, n in enumerate(names)])
        else:
            a = ctx.reals("a", ncur, -3, 3)
        t0 = ctx.real("t0", 0, 10)
        conv.set_action(a, t0)
        d = ctx.real("dt", 0, TAU)
        box(ctx, conv, conv.convert(list(i), t0 + d), "in the step")

    return h


def cases(tier):
    out = []
    for n in FINITE:
        out.append(dict(name=f"finite-{n}", fn=finite(n)))
    for n in CONT:
        out.append(dict(name=f"cont-{n}", fn=cont(n)))
    combos = [("F", ["F2QC", "F1QC"]), ("F", ["F4QC", "F2QC"]), ("C", ["C4QC", "C1QC"]), ("C", ["C2QC", "CB6"])]
    if tier == "thorough":
        combos += [("F", ["FB6", "F4QC"]), ("F", ["F1QC", "F4QC"]), ("C", ["CB6", "C4QC"]), ("C", ["CB6", "CB6"])]
    for k, names in combos:
        out.append(dict(name="multi-" + "+".join(names), fn=multi(k, names)))
    return out
