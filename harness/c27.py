"""C27: the dead-time wrapper delays every action by exactly the configured steps."""
import gymnasium as gym

from .wrap import *

BOUNDS = ("dead times of 1 to 3 (thorough: 5) steps; any actions of a discrete, multi-discrete and continuous action space; two episodes of up to 7 steps; default and "
          "user defined reset actions; action arrays reused by the caller; nested dead times")


def space(kind):
    return {"discrete": gym.spaces.Discrete(5), "multi": gym.spaces.MultiDiscrete([4, 3]), "box": gym.spaces.Box(-1, 1, shape=(3,), dtype=np.float64)}[kind]


def action(ctx, kind, tag, few=False):
    if kind == "discrete":
        return ctx.symint(tag, 0, 4) if hasattr(ctx, "symint") else ctx.int(tag, 0, 4)
    if kind == "multi":
        return [ctx.real(tag + "x", 0, 3), ctx.real(tag + "y", 0, 2)]
    return [ctx.real(f"{tag}{j}", -1, 1) for j in range(3)]


ZERO = {"discrete": 0, "multi": [0, 0], "box": [0.0] * 3}


def run(kind, steps, custom, nested=0):
    def h(ctx):
        s = wsystem(ctx, [[0.0] * len(W_NAMES)], space(kind))
        ra, give = None, [ZERO[kind]] * steps
        if custom:
            give = [action(ctx, kind, f"r{k}") for k in range(steps)]
            ra = lambda: [ctx.array(q) if isinstance(q, list) else q for q in give]
        w = wr().DeadTimeProcessor(steps, ra)
        ctx.check(w.set_physical_system(s) is w, "wrapping returns the wrapper")
        ctx.same(w.dead_time, steps, "dead time")
        total = steps
        if nested:
            w = wr().DeadTimeProcessor(nested, None, w)
            total += nested
        buf = None
        for e in range(2):
            w.reset()
            played = []
            n0 = len(s.log)
            for k in range(total + 2):
                a = action(ctx, kind, f"a{e}_{k}_")
                played.append(a)
                if isinstance(a, list):
                    # a caller may reuse one array for all actions
                    if buf is None:
                        buf = ctx.array(list(a))
                    buf[...] = ctx.array(list(a))
                    w.simulate(buf)
                else:
                    w.simulate(a)
                ctx.same(len(s.log), n0 + k + 1, "one simulation per step")
                got = applied(s)
                if k >= total:
                    compare(ctx, got, played[k - total], "the action played the dead time before")
                elif nested or not custom:
                    compare(ctx, got, ZERO[kind], "the zero action before the first played action")
                elif steps == 1:
                    compare(ctx, got, give[0], "the given reset action before the first played action")
            # every given reset action is applied once per episode
            if custom and not nested and steps > 1:
                first = [x[1] for x in s.snap[n0:n0 + steps]]
                for g in give:
                    ctx.check(Or(*[same(ctx, f, g) for f in first]), "all given reset actions are applied")

    return h


def applied(s):
    return s.snap[-1][1]


def same(ctx, a, b):
    a, b = list(core.flat([a])), list(core.flat([b]))
    return And(len(a) == len(b), *[And(x - y < 1e-9, y - x < 1e-9) for x, y in zip(a, b)])


def compare(ctx, got, want, what):
    if isinstance(want, list):
        ctx.check(hasattr(got, "__len__") and len(got) == len(want), what + ": shape", f"{got}")
        if hasattr(got, "__len__") and len(got) == len(want):
            ctx.check(all(np.ndim(g) == 0 for g in got), what + ": flat", f"{got}")
            ctx.eq(list(got), want, what)
    else:
        ctx.eq(got, want, what)


def wsystem(ctx, vals, sp):
    from . import wrap

    s = wrap.wsystem(ctx, vals, sp)
    s.snap = []
    sim = s.simulate

    def simulate(a):
        # what reaches the drive is looked at in the moment it is applied
        s.snap.append((len(s.snap), list(a) if hasattr(a, "__len__") else a))
        return sim(a)

    s.simulate = simulate
    return s


def cases(tier):
    out = []
    for kind in ("discrete", "multi", "box"):
        for steps in (1, 2, 3) + ((5,) if tier == "thorough" else ()):
            for custom in (False, True):
                out.append(dict(name=f"{kind}-{steps}-{'custom' if custom else 'default'}", fn=run(kind, steps, custom)))
        out.append(dict(name=f"{kind}-nested", fn=run(kind, 2, False, 1)))
    return out
