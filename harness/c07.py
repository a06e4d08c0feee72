"""C07: switching schedule of a step."""
from .convs import *
from symex import core

BOUNDS = ("tau = 1e-4; interlocking time 0 or any value in [1e-7, tau/2]; start time any value in [0, 10] s; two-step histories with every pair of "
          "actions (B6: every first action with four follow-ups); two sub-converters with different interlocking times in multi converters; constancy between switching instants checked outside a tau/250 "
          "band around each instant")


def sched(ctx, times, t, what):
    times = list(times)
    ctx.check(len(times) >= 1, what + ": at least one instant")
    ctx.eq(times[-1], t + TAU, what + ": the step ends at start + tau", 1e-9)
    last = t
    for x in times:
        ctx.check(x > last, what + ": instants strictly increase from the start of the step", f"{times}")
        last = x


def finite(name, split=None):
    def h(ctx):
        inter = ctx.bool("interlocking")
        til = ctx.real("til", 1e-7, TAU / 2) if inter else 0.0
        conv = make(name, TAU, til)
        nact, n = FINITE[name][1], FINITE[name][2]
        conv.reset()
        t = ctx.real("t0", 0, 10)
        a0 = ctx.int("a0", 0, nact - 1) if split is None else split
        times = conv.set_action(a0, t)
        sched(ctx, times, t, "first step")
        i = ctx.reals("i", n, -1000, 1000)
        conv.convert(list(i), t + TAU)
        t = t + TAU
        a1 = ctx.int("a1", 0, nact - 1) if n == 1 else ctx.choice("a1", [a0 ^ 7, a0 ^ 2, a0 ^ 5, a0])
        times = list(conv.set_action(a1, t))
        sched(ctx, times, t, "second step")
        if name != "F1QC":
            need = False
            lv0, lv1 = leg_levels(name, a0)[0], leg_levels(name, a1)[0]
            for p, q in zip(lv0, lv1):
                need = need or (p is not None and q is not None and p != q)
            if need and inter:
                ctx.same(len(times), 2, "a changed leg gives exactly one extra instant")
                ctx.eq(times[0], t + til, "the extra instant is the end of the interlocking time", 1e-9)
            else:
                ctx.same(len(times), 1, "no dead time, no extra instant")
        # constant between instants
        j = ctx.reals("j", n, -1000, 1000)
        band = TAU / 250
        lo = t
        x, y = ctx.real("x", 0, TAU), ctx.real("y", 0, TAU)
        seg = ctx.choice("segment", list(range(len(times))))
        lo = t if seg == 0 else times[seg - 1] + band
        hi = times[seg] - (band if seg < len(times) - 1 else 0)
        ctx.assume(And(t + x > lo, t + x < hi, t + y > lo, t + y < hi))
        ua = conv.convert(list(j), t + x)
        ub = conv.convert(list(j), t + y)
        ctx.eq(ua, ub, "constant between switching instants")

    return h


def cont(name):
    def h(ctx):
        til = ctx.real("til", 0, TAU / 2)
        conv = make(name, TAU, til)
        n = CONT[name][1]
        conv.reset()
        t = ctx.real("t0", 0, 10)
        for s in range(2):
            a = ctx.reals(f"a{s}_", n, -3, 3)
            times = conv.set_action(a, t)
            sched(ctx, times, t, f"step {s}")
            i = ctx.reals(f"i{s}_", n, -1000, 1000)
            x, y = ctx.real(f"x{s}", 0, TAU), ctx.real(f"y{s}", 0, TAU)
            ctx.eq(conv.convert(list(i), t + x), conv.convert(list(i), t + y), "averaged voltage is constant over the step")
            t = t + TAU

    return h


def multi(names):
    """several half bridges with own interlocking times: every change of a sub-converter is an instant, in order"""

    def h(ctx):
        c = cv()
        tils = []
        for k, n in enumerate(names):
            tils.append(ctx.real(f"til{k}", 1e-7, TAU / 2) if ctx.bool(f"interlocked{k}") else 0.0)
        if all(core.has_sym(x) or x > 0 for x in tils):
            if ctx.bool("same"):
                tils[1] = tils[0]
            else:
                ctx.assume(Or(tils[0] - tils[1] > 1e-9, tils[1] - tils[0] > 1e-9))
        conv = c.FiniteMultiConverter([make(n, TAU, x) for n, x in zip(names, tils)], tau=TAU)
        alone = [make(n, TAU, x) for n, x in zip(names, tils)]
        conv.reset()
        [a.reset() for a in alone]
        t = ctx.real("t0", 0, 10)
        hist = [[], []]
        for k, n in enumerate(names):
            nn = FINITE[n][1]
            for s in range(2):
                hist[s].append(ctx.choice(f"a{s}_{k}", [1, 6, 3] if nn == 8 else list(range(nn))))
        for s in range(2):
            times = list(conv.set_action(np.array(hist[s]), t))
            own = [list(a.set_action(x, t)) for a, x in zip(alone, hist[s])]
            sched(ctx, times, t, f"step {s}")
            # times is the union of the instants of the sub-converters
            for q in own:
                for x in q:
                    ctx.check(Or(*[And(x - y < 1e-12, y - x < 1e-12) for y in times]), f"step {s}: every instant of a sub-converter is an instant")
            for y in times:
                ctx.check(Or(*[And(x - y < 1e-12, y - x < 1e-12) for q in own for x in q]), f"step {s}: no instant without a sub-converter")
            cur = [ctx.reals(f"i{s}_{k}_", FINITE[n][2], 1, 1000) for k, n in enumerate(names)]
            conv.convert([x for q in cur for x in q], t + TAU)
            [a.convert(list(q), t + TAU) for a, q in zip(alone, cur)]
            t = t + TAU

    return h


def cases(tier):
    out = [dict(name="multi-" + "+".join(x), fn=multi(x), opts=dict(max_paths=100000))
           for x in (["F2QC", "F2QC"], ["F4QC", "F2QC"], ["FB6", "F4QC"], ["F1QC", "F2QC"])]
    out += [dict(name=n, fn=finite(n), opts=dict(max_paths=100000)) for n in ("F1QC", "F2QC", "F4QC")]
    out += [dict(name=f"FB6-{k}", fn=finite("FB6", k), opts=dict(max_paths=100000)) for k in range(8)]
    out += [dict(name=n, fn=cont(n)) for n in CONT]
    return out
