"""C25: generated references stay inside the allowed range."""
from .refgen import *

BOUNDS = ("every random draw (normal draws within +-8, Laplace draws within +-12 scales, uniform draws in [0, 1)); sub-episode lengths 1 to 3, "
          "up to 4 consecutive reference values in two episodes (8 in one sub-episode); fixed sigma 0.1 and frequency 2 Hz resp. 5 Hz at tau 0.05 s; symmetric and one-sided states; limit "
          "margins None, 0.8, (0.5, 0.9); amplitude and offset ranges default and user defined; scipy's sawtooth by its contract (any value in [-1, 1])")


def run(kind, state, margin, steps, **k):
    def h(ctx):
        with Draws(ctx), Sawtooth(ctx):
            g = generator(kind, state, margin=margin, **k)
            s = stub_system(ctx, lambda n: ctx.array([0.0] * len(NAMES)))
            g.set_modules(s)
            g.seed(np.random.SeedSequence(3))
            lo, hi = allowed(state, margin)
            pos = NAMES.index(state)
            ctx.eq(float(g.reference_space.low[0]), lo, "lower bound of the reference space")
            ctx.eq(float(g.reference_space.high[0]), hi, "upper bound of the reference space")

            def ref(r, what):
                ctx.same(len(r), len(NAMES), what + ": one entry per state")
                for j in range(len(NAMES)):
                    if j == pos:
                        ctx.le(lo, r[j], what + ": at least the lower margin")
                        ctx.le(r[j], hi, what + ": at most the upper margin")
                    else:
                        ctx.eq(r[j], 0, what + ": unreferenced entries are zero")

            def obs(o, what):
                ctx.same(len(o), 1, what + ": one value")
                ctx.le(lo, o[0], what + ": at least the lower margin")
                ctx.le(o[0], hi, what + ": at most the upper margin")

            x = ctx.array([0.0] * len(NAMES))
            for e in range(2):
                r, o, _ = g.reset(x)
                ref(r, "reference at reset")
                obs(o, "reference observation at reset")
                for n in range(steps if e == 0 else 0):
                    ref(g.get_reference(x), "reference")
                    obs(g.get_reference_observation(x), "reference observation")

    return h


def cases(tier):
    out = []
    steps = 3 if tier == "quick" else 5
    for kind in KINDS:
        X = dict(lengths=(2, 2), frequency_range=(5, 5)) if kind == 'step' else {}
        for state in ("omega", "i"):
            for margin in MARGIN:
                st = steps - 2 if kind in ('wiener', 'laplace', 'step') else steps
                out.append(dict(name=f"{kind}-{state}-{margin}", fn=run(kind, state, margin, st, **({'lengths': (2, 2), 'frequency_range': (5, 5)} if kind == 'step' else {})), opts=dict(max_paths=100000)))
        if kind not in ("wiener", "laplace"):
            out.append(dict(name=f"{kind}-user", fn=run(kind, "omega", "tuple", 1, amplitude_range=(0.2, 0.6), offset_range=(-0.3, 0.7), **X)))
            out.append(dict(name=f"{kind}-user-i", fn=run(kind, "i", "float", 1, amplitude_range=(0.1, 3.0), offset_range=(-0.5, 0.6), **X)))
        out.append(dict(name=f"{kind}-long", fn=run(kind, "omega", "float", 1, lengths=(4, 4) if tier == "quick" else (8, 8)), opts=dict(max_paths=100000)))
    return out
