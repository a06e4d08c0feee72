"""C26: reference episodes are continuous in time and composition is faithful."""
from .refgen import *

BOUNDS = ("every random draw; sub-episode lengths from (1, 4), (2, 3) and constant 2, up to 7 reference values in two episodes; sub-generators with "
          "arbitrary values; two and three parts; super episode lengths (2, 4) and 3; Wiener and Laplace draws within one scale; sinus with fixed frequency")

X0 = [0.0] * len(NAMES)


def user(ctx, lengths, state="omega", **k):
    """a subclass as a user may write it: arbitrary values in every sub-episode"""
    import gym_electric_motor.reference_generators as m

    class U(m.SubepisodedReferenceGenerator):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.subs = []

        def _reset_reference(self):
            n = len(self.subs)
            v = [ctx.real(f"q{n}_{j}", -1, 1) for j in range(self._current_episode_length)]
            self.subs.append(v)
            self._reference = ctx.array(v) if v else []

    return U(reference_state=state, episode_lengths=lengths, **k)


def base(lengths, steps, state):
    def h(ctx):
        pos = NAMES.index(state)
        with Draws(ctx):
            g = user(ctx, lengths, state)
            s = stub_system(ctx, lambda n: ctx.array(X0))
            g.set_modules(s)
            g.seed(np.random.SeedSequence(3))
            ctx.same(list(g.reference_names), [state], "reference names")
            lo, hi = (lengths, lengths) if isinstance(lengths, int) else lengths
            x = ctx.array(X0)
            for e in range(2):
                first = len(g.subs)
                init = None
                if ctx.bool(f"init{e}"):
                    init = ctx.array([ctx.real(f"init{e}_{j}", -1, 1) for j in range(len(NAMES))])
                r, o, _ = g.reset(x, init)
                ctx.eq(r[pos], 0.0 if init is None else init[pos], "reference of the first instant")
                stream = [o[0]]
                for k in range(steps):
                    ctx.eq(list(g.get_reference(x)), [stream[-1] if j == pos else 0 for j in range(len(NAMES))], "reference is the last observed one")
                    o = g.get_reference_observation(x)
                    stream.append(o[0])
                want = [v for q in g.subs[first:] for v in q]
                ctx.check(len(want) >= len(stream), "no values beyond the sub-episodes")
                ctx.eq(stream, want[:len(stream)], "observations are the sub-episodes, one after the other")
                ctx.check(len([v for q in g.subs[first:-1] for v in q]) < len(stream), "a sub-episode is used up before the next one")
                for q in g.subs[first:]:
                    ctx.check(lo <= len(q) <= hi, "sub-episode length in the configured range")

    return h


def walk(kind):
    def h(ctx):
        with Draws(ctx, support=dict(normal=(-1, 1), laplace=(-1, 1))):
            g = generator(kind, "omega", (1, 3), "float")
            s = stub_system(ctx, lambda n: ctx.array(X0))
            g.set_modules(s)
            g.seed(np.random.SeedSequence(3))
            r, o, _ = g.reset(ctx.array(X0))
            last = r[0]
            for k in range(4):
                ctx.le(o[0] - last, 0.1, "increment at most one scale")
                ctx.le(last - o[0], 0.1, "decrement at most one scale")
                last = o[0]
                if k < 3:
                    o = g.get_reference_observation(ctx.array(X0))

    return h


def sinus(ctx):
    with Draws(ctx):
        g = generator("sinus", "omega", 6, "float", amplitude_range=(0.1, 0.3), offset_range=(-0.2, 0.3), frequency_range=(2, 2))
        s = stub_system(ctx, lambda n: ctx.array(X0))
        g.set_modules(s)
        g.seed(np.random.SeedSequence(3))
        r, o, _ = g.reset(ctx.array(X0))
        v = [o[0]]
        for k in range(5):
            v.append(g.get_reference_observation(ctx.array(X0))[0])
        c = 2 * float(np.cos(2 * np.pi * 2 * TAU_E))
        d = [b - a for a, b in zip(v, v[1:])]
        for a, b, e in zip(d, d[1:], d[2:]):
            ctx.eq(a + e, c * b, "values follow the sine of the configured frequency", 1e-6)
        # half a period is five steps at 2 Hz and tau = 0.05 s: symmetric around the offset
        off = (v[0] + v[5]) / 2
        ctx.le(off, 0.3, "offset in the configured range", 1e-6)
        ctx.le(-0.2, off, "offset in the configured range", 1e-6)


def parts(ctx, idxs, n=6):
    return [rec_generator(ctx, [[ctx.real(f"g{j}_{k}_{c}", -1, 1) for c in range(len(ix))] for k in range(n)], ix) for j, ix in enumerate(idxs)]


def multiple(idxs):
    def h(ctx):
        subs = parts(ctx, idxs)
        g = rg().MultipleReferenceGenerator([q for q in subs])
        s = stub_system(ctx, lambda n: ctx.array(X0))
        g.set_modules(s)
        flat = [p for ix in idxs for p in ix]
        ctx.same([bool(b) for b in g.referenced_states], [p in flat for p in range(len(NAMES))], "referenced states are the union")
        ctx.same(len(g.reference_space.low), len(flat), "one bound per referenced state")
        x = ctx.array(X0)


        twins = parts(ctx, idxs)
        [t.set_modules(s) for t in twins]
        a = g.reset(x)
        b = [t.reset(x) for t in twins]
        for k in range(4):
            ctx.eq(list(a[0]), [sum(q[0][p] for q in b) for p in range(len(NAMES))], "references are those of the parts")
            ctx.eq(list(a[1]), [v for q in b for v in q[1]], "observations are those of the parts")
            a = g.get_reference(x), g.get_reference_observation(x)
            b = [(t.get_reference(x), t.get_reference_observation(x)) for t in twins]

    return h


def multi_real(ctx):
    """names, spaces and values with the library's own generators as parts, also the constant one"""
    m = rg()
    with Draws(ctx):
        val = ctx.choice("const", [0.5, -0.25])
        g = concretely(lambda: m.MultipleReferenceGenerator([generator("sinus", "u", 2, "float"), m.ConstReferenceGenerator("i", val),
                                                             m.ZeroReferenceGenerator()]))
        s = stub_system(ctx, lambda n: ctx.array(X0))
        g.set_modules(s)
        g.seed(np.random.SeedSequence(3))
        ctx.same(list(g.reference_names), ["u", "i"], "names of the referenced states")
        ctx.same([bool(b) for b in g.referenced_states], [False, False, True, True, False], "referenced states")
        ctx.same(g.reference_space.low.tolist(), [-0.8, val], "reference space")
        x = ctx.array(X0)
        r, o, _ = g.reset(x)
        for k in range(3):
            ctx.eq(r[2], val, "constant part")
            ctx.eq(o[1], val, "constant part observed")
            if k:
                ctx.eq(r[3], last, "moving part")
            ctx.eq([r[0], r[1], r[4]], [0, 0, 0], "unreferenced entries are zero")
            last = o[0]
            r, o = g.get_reference(x), g.get_reference_observation(x)


def switched(lengths, nsub, p=None):
    def h(ctx):
        with Draws(ctx):
            subs = parts(ctx, [(0,)] * nsub, 9)
            for q in subs:
                q._reference_names = ["omega"]
            log = []
            for j, q in enumerate(subs):

                def wrap(q=q, j=j):
                    o1, r1 = q.get_reference_observation, q.reset

                    def obs(state, *a, **k):
                        v = o1(state, *a, **k)
                        log.append((j, "obs", v[0]))
                        return v

                    def reset(*a, **k):
                        log.append((j, "reset", a))
                        return r1(*a, **k)

                    q.get_reference_observation, q.reset = obs, reset

                wrap()
            g = rg().SwitchedReferenceGenerator(subs, p=p, super_episode_length=lengths)
            s = stub_system(ctx, lambda n: ctx.array(X0))
            g.set_modules(s)
            g.seed(np.random.SeedSequence(3))
            lo, hi = (lengths, lengths + 1) if isinstance(lengths, int) else lengths
            x = ctx.array(X0)
            for e in range(2):
                log.clear()
                r, o, _ = g.reset(x)
                seen = [log[-1]]
                ctx.eq(o[0], log[-1][2], "observation of the active part")
                runs = [1]
                cur = log[-1][0]
                n0 = len(log)
                ctx.same([q[1] for q in log], ["reset", "obs"], "the active part is reset with the episode")
                for k in range(4 if e == 0 else 0):
                    before = g.get_reference(x)
                    ctx.eq(before[0], o[0], "reference of the active part")
                    n0 = len(log)
                    o = g.get_reference_observation(x)
                    new = log[n0:]
                    ctx.same([q[1] for q in new if q[1] == "obs"], ["obs"], "exactly one part is asked")
                    ctx.eq(o[0], new[-1][2], "observation of the active part")
                    if len(new) > 1:
                        # a new super episode
                        ctx.check(lo <= runs[-1] < max(hi, lo + 1), "number of steps a part is active lies in the configured range", f"{runs}")
                        ctx.same((new[0][0], new[0][1]), (new[-1][0], "reset"), "the part taking over is reset")
                        ctx.eq(list(core.flat([new[0][2][1]])), list(before), "it continues from the last reference")
                        runs.append(1)
                    else:
                        ctx.same(new[0][0], cur, "no change within a super episode")
                        runs[-1] += 1
                    cur = new[-1][0]
                    if p:
                        ctx.check(p[cur] > 0, "parts of probability zero are never used")
                ctx.check(runs[-1] <= max(hi - 1, lo), "number of steps a part is active lies in the configured range", f"{runs}")

    return h


def cases(tier):
    n = 3 if tier == "quick" else 5
    out = [
        dict(name="base-1-4", fn=base((1, 4), n - 1, "omega"), opts=dict(max_paths=100000)),
        dict(name="base-2-3", fn=base((2, 3), n + 1, "i"), opts=dict(max_paths=100000)),
        dict(name="base-2", fn=base(2, n + 2, "u_sup"), opts=dict(max_paths=100000)),
        dict(name="wiener", fn=walk("wiener"), opts=dict(max_paths=100000)),
        dict(name="laplace", fn=walk("laplace"), opts=dict(max_paths=100000)),
        dict(name="sinus", fn=sinus),
        dict(name="multiple-2", fn=multiple([(0,), (2,)])),
        dict(name="multiple-3", fn=multiple([(3,), (0, 1), (4,)])),
        dict(name="multiple-library", fn=multi_real, opts=dict(max_paths=100000)),
        dict(name="switched-2-4", fn=switched((2, 4), 2), opts=dict(max_paths=100000)),
        dict(name="switched-3", fn=switched(3, 2), opts=dict(max_paths=100000)),
        dict(name="switched-p", fn=switched((1, 3), 3, [0.5, 0.0, 0.5]), opts=dict(max_paths=100000)),
    ]
    return out
