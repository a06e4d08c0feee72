"""C06: converter episodes are independent; a changed step time reaches the whole converter."""
from .convs import *

BOUNDS = ("step time any value in [5e-5, 5e-4]; interlocking time 0 or any value in [1e-6, 2e-5]; one earlier episode of one arbitrary "
          "step before the reset, compared with a newly constructed converter over two steps with arbitrary currents")


def _actions(ctx, name, tag):
    if name in FINITE:
        n = FINITE[name][1]
        return ctx.int(tag, 0, n - 1) if n < 8 else ctx.choice(tag, [0, 2, 5, 7])
    return ctx.reals(tag, CONT[name][1], -1.5, 1.5)


def compare(ctx, name, x, y, tau, steps, what, til=None):
    n = (FINITE.get(name) or CONT.get(name))[-1]
    t = 0.0
    for s in range(steps):
        a = _actions(ctx, name, f"b{s}") if s == 0 or name in CONT else (a * 3 + 2) % FINITE[name][1]
        tx, ty = x.set_action(a, t), y.set_action(a, t)
        ctx.eq(list(tx), list(ty), what + ": switching times", tol=1e-11)
        i = ctx.reals(f"i{s}", n, -1000, 1000)
        d = ctx.real(f"d{s}", 0, 5e-4)
        ctx.assume(d <= tau)
        if til is not None:
            ctx.assume(Or(d <= til - 1e-8, d >= til + 1e-8))
        for tt in (t + d, t + tau):
            ctx.eq(x.convert(list(i), tt), y.convert(list(i), tt), what + ": voltages")
            ctx.eq(x.i_sup(list(i)), y.i_sup(list(i)), what + ": supply current")
        t = t + tau


def build(name, tau, til, multi):
    c = cv()
    if not multi:
        return make(name, tau, til)
    kind = c.FiniteMultiConverter if name in FINITE else c.ContMultiConverter
    return kind(subconverters=[getattr(c, (FINITE.get(name) or CONT.get(name))[0])], tau=tau, interlocking_time=til)


def episode(name, multi=False):
    def h(ctx):
        til = ctx.real("til", 1e-6, 2e-5) if ctx.bool("interlocking") else 0.0
        x, y = build(name, TAU, til, multi), build(name, TAU, til, multi)
        n = (FINITE.get(name) or CONT.get(name))[-1]
        a = _actions(ctx, name, "a")
        w = (lambda q: np.array([q])) if multi and name in FINITE else (lambda q: q)
        if multi and name in FINITE:
            x, y = Wrap(x), Wrap(y)
        x.reset()
        x.set_action(a, 3.0)
        i = ctx.reals("p", n, -1000, 1000)
        x.convert(list(i), 3.0 + TAU)
        ux, uy = x.reset(), y.reset()
        ctx.eq(list(ux), list(uy), "reset output")
        compare(ctx, name, x, y, TAU, 2, "after reset", til)

    return h


class Wrap:
    """scalar actions for a one-element MultiDiscrete"""

    def __init__(self, c):
        self.c = c

    def set_action(self, a, t):
        return self.c.set_action(np.array([a]), t)

    def __getattr__(self, n):
        return getattr(self.c, n)


def retau(name, multi=False):
    def h(ctx):
        tau = ctx.real("tau", 5e-5, 5e-4)
        til = ctx.real("til", 1e-6, 2e-5) if ctx.bool("interlocking") else 0.0
        x, y = build(name, TAU, til, multi), build(name, tau, til, multi)
        if multi and name in FINITE:
            x.tau = tau
            x, y = Wrap(x), Wrap(y)
        else:
            x.tau = tau
        ctx.eq(x.tau, y.tau, "tau property")
        x.reset(), y.reset()
        compare(ctx, name, x, y, tau, 2, "after a changed step time", til)

    return h


def cases(tier):
    out = []
    for n in list(FINITE) + list(CONT):
        out.append(dict(name=f"episode-{n}", fn=episode(n), opts=dict(max_paths=100000)))
        out.append(dict(name=f"tau-{n}", fn=retau(n), opts=dict(max_paths=100000)))
    for n in ("F2QC", "F4QC", "C2QC", "C4QC") + (("FB6", "CB6") if tier == "thorough" else ()):
        out.append(dict(name=f"episode-multi-{n}", fn=episode(n, True), opts=dict(max_paths=100000)))
        out.append(dict(name=f"tau-multi-{n}", fn=retau(n, True), opts=dict(max_paths=100000)))
    return out
