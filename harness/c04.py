"""C04: power balance between converter output and supply current."""
from .convs import *

BOUNDS = ("tau = 1e-4; finite converters with interlocking time 0 or any value in [1e-7, tau/2], two-action histories, query instants anywhere in "
          "the step; continuous converters with interlocking time 0 (their averaged dead-time model is approximate); currents any "
          "value in +-1000 A (one-quadrant: non-negative, as declared), zero-sum for the B6 bridge; actions beyond the "
          "action space up to 3 (saturated)")


def leg_sum(name, u, i):
    return sum(x * y for x, y in zip(u, i))


def finite(name, split=None):
    def h(ctx):
        inter = ctx.bool("interlocking")
        til = ctx.real("til", 1e-7, TAU / 2) if inter else 0.0
        conv = make(name, TAU, til)
        nact, n = FINITE[name][1], FINITE[name][2]
        lo = 0 if name == "F1QC" else -1000
        conv.reset()
        t = ctx.real("t0", 0, 10)
        a0 = ctx.int("a0", 0, nact - 1) if split is None else split
        conv.set_action(a0, t)
        i = zero_sum(ctx, "i", n, 1000) if n == 3 else [ctx.real("i", lo, 1000)]
        u = conv.convert(list(i), t + TAU)
        ctx.eq(conv.i_sup(list(i)), leg_sum(name, u, i), "supply power equals output power (first step)")
        a1 = ctx.int("a1", 0, nact - 1) if n == 1 else ctx.choice("a1", [a0 ^ 7, a0 ^ 1])
        t = t + TAU
        conv.set_action(a1, t)
        d = ctx.real("d", 0, TAU)
        j = zero_sum(ctx, "j", n, 1000) if n == 3 else [ctx.real("j", lo, 1000)]
        u = conv.convert(list(j), t + d)
        ctx.eq(conv.i_sup(list(j)), leg_sum(name, u, j), "supply power equals output power (second step)")

    return h


def cont(name):
    def h(ctx):
        n = CONT[name][1]
        conv = make(name, TAU, 0.0)
        conv.reset()
        t = ctx.real("t0", 0, 10)
        a = ctx.reals("a", n, -3, 3)
        i = zero_sum(ctx, "i", n, 1000) if n == 3 else [ctx.real("i", 0 if name == "C1QC" else -1000, 1000)]
        conv.set_action(a, t)
        u = conv.convert(list(i), t)
        ctx.eq(conv.i_sup(list(i)), leg_sum(name, u, i), "supply power equals output power")

    return h


def multi(kind, names):
    def h(ctx):
        c = cv()
        tab = FINITE if kind == "F" else CONT
        cls = c.FiniteMultiConverter if kind == "F" else c.ContMultiConverter
        conv = cls(subconverters=[getattr(c, tab[n][0]) for n in names], tau=TAU, interlocking_time=0.0)
        conv.reset()
        i = []
        for k, n in enumerate(names):
            m = tab[n][-1]
            i += zero_sum(ctx, f"i{k}", m, 1000) if m == 3 else [ctx.real(f"i{k}", 0 if "1QC" in n else -1000, 1000)]
        if kind == "F":
            a = np.array([ctx.int(f"a{k}", 0, tab[n][1] - 1) for k, n in enumerate(names)])
        else:
            a = ctx.reals("a", len(i), -3, 3)
        t = ctx.real("t0", 0, 10)
        conv.set_action(a, t)
        u = conv.convert(list(i), t + TAU)
        ctx.eq(conv.i_sup(list(i)), sum(x * y for x, y in zip(u, i)), "supply power equals summed output power")

    return h


def cases(tier):
    out = [dict(name=f"finite-{n}", fn=finite(n)) for n in ("F1QC", "F2QC", "F4QC")]
    out += [dict(name=f"finite-FB6-{k}", fn=finite("FB6", k)) for k in range(8)]
    out += [dict(name=f"cont-{n}", fn=cont(n)) for n in CONT]
    out += [
        dict(name="multi-" + "+".join(x[1]), fn=multi(*x))
        for x in (("F", ["F4QC", "F1QC"]), ("F", ["FB6", "F2QC"]), ("C", ["C4QC", "C2QC"]), ("C", ["CB6", "C4QC"]), ("C", ["C1QC", "CB6"]))
    ]
    return out
