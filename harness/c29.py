"""C29: state wrappers add their quantity and leave everything else unchanged."""
from .wrap import *

BOUNDS = ("any normalised states in reset and three steps, two episodes; current limits equal and different, both limit options; every noise sample within +-8 scales; noise "
          "buffers of 1, 2 and 5 samples; wrappers alone and stacked")


def check_forward(ctx, w, s, vals, expect, act=1):
    """reset and steps deliver expect(k) for inner state number k; the action reaches the system"""
    for e in range(2):
        n = len(s.log) + s.resets
        out = w.reset()
        want = expect(n)
        ctx.same(len(out), len(want), "length of the reset state")
        ctx.eq(list(out), want, "reset state", 1e-6)
        for k in range(2):
            n = len(s.log) + s.resets
            out = w.simulate(act)
            ctx.same(s.log[-1][1], act, "the action passes unchanged")
            ctx.same(w.k, s.k, "step counter")
            want = expect(n)
            ctx.same(len(out), len(want), "length of the state")
            ctx.eq(list(out), want, "state", 1e-6)


def cossin(remove, angle="epsilon"):
    def h(ctx):
        vals = states(ctx, 6)
        s = wsystem(ctx, vals)
        w = wr().CosSinProcessor(angle, remove_angle=remove)
        w.set_physical_system(s)
        p = W_NAMES.index(angle)
        keep = [j for j in range(len(W_NAMES)) if not (remove and j == p)]
        pick = lambda x: [x[j] for j in keep]
        consistent(ctx, w, pick(W_NAMES) + [f"cos({angle})", f"sin({angle})"], pick(W_LIM) + [1, 1], pick(W_NOM) + [1, 1],
                   pick(W_LOW) + [-1, -1], [1.0] * (len(keep) + 2))

        def expect(n):
            x = vals[n]
            c, sn = trig(x[p] * PI)
            return pick(x) + [c, sn]

        check_forward(ctx, w, s, vals, expect)

    return h


def cursum(limit, curs, lims):
    def h(ctx):
        vals = states(ctx, 6)
        lim = [lims.get(n, l) for n, l in zip(W_NAMES, W_LIM)]
        s = wsystem(ctx, vals, lim=lim)
        w = wr().CurrentSumProcessor(list(curs), limit)
        w.set_physical_system(s)
        ps_ = [W_NAMES.index(c) for c in curs]
        f = max if limit == "max" else sum
        L, N = f(lim[p] for p in ps_), f(W_NOM[p] for p in ps_)
        consistent(ctx, w, W_NAMES + ["i_sum"], lim + [L], W_NOM + [N], W_LOW + [-1.0], [1.0] * (len(W_NAMES) + 1))
        check_forward(ctx, w, s, vals, lambda n: vals[n] + [sum(vals[n][p] * lim[p] for p in ps_) / L])

    return h


def noise(sel, length, dist):
    def h(ctx):
        with Draws(ctx) as dr:
            vals = states(ctx, 8)
            s = wsystem(ctx, vals)
            kw = dict(loc=0.01, scale=0.1) if dist != "uniform" else dict(low=-0.1, high=0.3)
            w = wr().StateNoiseProcessor("all" if sel == "all" else [W_NAMES[j] for j in sel], dist, kw, length)
            w.set_physical_system(s)
            w.seed(np.random.SeedSequence(5))
            idx = list(range(len(W_NAMES))) if sel == "all" else sel
            consistent(ctx, w, W_NAMES, W_LIM, W_NOM, W_LOW, [1.0] * len(W_NAMES))
            seen = []
            for e in range(2):
                for k in range(3):
                    n = len(s.log) + s.resets
                    out = w.reset() if k == 0 else w.simulate(1)
                    ctx.same(len(out), len(W_NAMES), "length of the state")
                    for j in range(len(W_NAMES)):
                        d = out[j] - vals[n][j]
                        if j not in idx:
                            ctx.eq(d, 0, "states without noise are unchanged")
                        else:
                            lo, hi = (-0.1, 0.3) if dist == "uniform" else (0.01 - 0.8, 0.01 + 0.8) if dist == "normal" else (0.01 - 1.2, 0.01 + 1.2)
                            ctx.le(lo, d, "noise of the chosen distribution", 1e-6)
                            ctx.le(d, hi, "noise of the chosen distribution", 1e-6)
                            seen.append(d)
            # no sample is used twice: two differences of independent draws are not forced to be equal
            if ctx.__class__.__name__ != "Conc":
                for a in range(len(seen)):
                    for b in range(a):
                        if core.has_sym(seen[a]) and core.has_sym(seen[b]):
                            ctx.check((seen[a] - seen[b]).p.is_const() is False, "a noise sample is used once")

    return h


def stacked(ctx):
    vals = states(ctx, 6)
    s = wsystem(ctx, vals)
    w = wr().CosSinProcessor("epsilon", remove_angle=True)
    w.set_physical_system(wr().CurrentSumProcessor(["i_b", "i_a"], "sum", s))
    keep = [0, 1, 2, 3, 5]
    consistent(ctx, w, [W_NAMES[j] for j in keep] + ["i_sum", "cos(epsilon)", "sin(epsilon)"], [W_LIM[j] for j in keep] + [150.0, 1, 1],
               [W_NOM[j] for j in keep] + [130.0, 1, 1], [W_LOW[j] for j in keep] + [-1] * 3, [1.0] * 8)

    def expect(n):
        x = vals[n]
        return [x[j] for j in keep] + [(x[2] * 60 + x[3] * 90) / 150, *trig(x[4] * PI)]

    check_forward(ctx, w, s, vals, expect)


def plain(ctx):
    vals = states(ctx, 6)
    s = wsystem(ctx, vals)
    w = wr().PhysicalSystemWrapper(wr().PhysicalSystemWrapper(s))
    consistent(ctx, w, W_NAMES, W_LIM, W_NOM, W_LOW, [1.0] * len(W_NAMES))
    ctx.check(w.unwrapped is s, "innermost system")
    ctx.same(w.tau, s.tau, "step time")
    ctx.check(w.action_space is s.action_space, "action space")
    check_forward(ctx, w, s, vals, lambda n: vals[n])


def cases(tier):
    same = dict(i_a=90.0)
    out = [dict(name="cossin-keep", fn=cossin(False)), dict(name="cossin-remove", fn=cossin(True)),
           dict(name="stacked", fn=stacked), dict(name="plain", fn=plain)]
    for lim in ("max", "sum"):
        out.append(dict(name=f"currents-{lim}-equal", fn=cursum(lim, ("i_a", "i_b"), same)))
        out.append(dict(name=f"currents-{lim}-different", fn=cursum(lim, ("i_b", "i_a"), {})))
        out.append(dict(name=f"currents-{lim}-single", fn=cursum(lim, ("i_a",), {})))
    for dist in ("normal", "laplace", "uniform"):
        for sel, ln in (([0], 5), ([2, 0], 1), ([4, 1], 2)):
            out.append(dict(name=f"noise-{dist}-{''.join(map(str, sel))}-{ln}", fn=noise(sel, ln, dist)))
    out.append(dict(name="noise-all", fn=noise("all", 2, "normal")))
    return out
