"""C23: constraints measure limit violation correctly and are merged as requested."""
import itertools

from .envs import *

BOUNDS = ("any state with entries in [-3, 3] times the limit (normalised and physical systems); every subset of four observed states; squared constraints on one to three "
          "states, also with any limits in [0.5, 500]; one to three constraints with any degree in [0, 1]")

N4 = NAMES[:4]


def mods():
    import gym_electric_motor.constraints as m

    return m


def iff(ctx, got, cond, what):
    ctx.check(Or(And(cond, got >= 1), And(core.Not(cond), got <= 0)), what)


def state(ctx, tag="s", n=4, scale=None):
    return [ctx.real(f"{tag}{j}", -3, 3) * (1 if scale is None else scale[j]) for j in range(n)]


def limit(via):
    def h(ctx):
        v = state(ctx)
        s = stub_system(ctx, lambda n: ctx.array(v), N4, LIM[:4], NOM[:4], LOW[:4])
        if via == "all":
            obs, arg = list(range(4)), ctx.choice("form", ["all_states", ["all_states"], ("all_states",)])
        else:
            obs = ctx.choice("observed", [c for k in range(1, 5) for c in itertools.combinations(range(4), k)])
            arg = [N4[j] for j in obs]
        if via == "monitor" or (via == "all" and ctx.bool("monitor")):
            c = core_().ConstraintMonitor(arg)
            c.set_modules(s)
            f = c.check_constraints
        elif via == "env":
            e = make_env(ctx, s, rec_generator(ctx, [[0.0]]), rec_reward(ctx), constraints=arg)
            f = e.constraint_monitor.check_constraints
        else:
            f = mods().LimitConstraint(arg)
            f.set_modules(s)
        x = ctx.array(v)
        iff(ctx, f(x), Or(*[Or(v[j] > 1, v[j] < -1) for j in obs]), "full violation exactly beyond a limit")
        ctx.eq(list(x), v, "the state is left alone")

    return h


def squared(phys, sel):
    def h(ctx):
        v = state(ctx, "s", 4, LIM if phys else None)
        s = stub_system(ctx, lambda n: ctx.array(v), N4, LIM[:4], NOM[:4], LOW[:4])
        if phys:
            import gymnasium as gym

            s._state_space = gym.spaces.Box(-np.array(LIM[:4]), np.array(LIM[:4]), dtype=np.float64)
        names = tuple(N4[j] for j in sel)
        c = mods().SquaredConstraint(names)
        c.set_modules(s)
        n = [v[j] / (LIM[j] if phys else 1) for j in sel]
        x = ctx.array(v)
        iff(ctx, c(x), sum(q * q for q in n) > 1, "full violation exactly beyond the squared limit")
        ctx.eq(list(x), v, "the state is left alone")

    return h


class Space:
    """lower and upper ends of a state space"""

    def __init__(self, low, high):
        self.low, self.high = low, high


def squared_limits(phys, sel):
    """arbitrary limits, also limits of one and limits equal to each other"""
    def h(ctx):
        k = len(sel)
        lim = [ctx.real(f"lim{j}", 0.5, 500) for j in range(k)]
        v = [ctx.real(f"s{j}", -3, 3) for j in range(k)]
        s = stub_system(ctx, lambda n: ctx.array(v), N4[:k], [1.0] * k, [1.0] * k, [-1.0] * k)
        s._limits = ctx.array(lim)
        s._state_space = Space(ctx.array([-q for q in lim] if phys else [-1.0] * k), ctx.array(lim if phys else [1.0] * k))
        c = mods().SquaredConstraint(tuple(N4[j] for j in sel))
        c.set_modules(s)
        x = ctx.array([a * q for a, q in zip(v, lim)] if phys else v)
        iff(ctx, c(x), sum(q * q for q in v) > 1, "full violation exactly beyond the squared limit")

    return h


def merged(mode, n, via):
    def h(ctx):
        v = [ctx.real(f"v{k}", 0, 1) for k in range(n)]
        s = stub_system(ctx, lambda k: ctx.array([0.0] * 4), N4, LIM[:4], NOM[:4], LOW[:4])
        seen = []
        fs = [lambda st, k=k: (seen.append((k, st)), v[k])[1] for k in range(n)]
        args = []

        def user(*d):
            args.append(list(core.flat(d)))
            return sum(args[-1]) / len(args[-1])

        if via == "env":
            e = make_env(ctx, s, rec_generator(ctx, [[0.0]]), rec_reward(ctx), constraints=fs)
            m = e.constraint_monitor
        else:
            m = core_().ConstraintMonitor((), fs, user if mode == "user" else mode)
            m.set_modules(s)
        st = ctx.array(state(ctx))
        r = m.check_constraints(st)
        ctx.same([k for k, _ in seen], list(range(n)), "every constraint is evaluated once")
        for _, q in seen:
            ctx.eq(list(q), list(st), "constraints see the state")
        if mode == "max":
            want = v[0]
            for q in v[1:]:
                want = ite(q > want, q, want)
        elif mode == "product":
            want = 1
            for q in v:
                want = want * (1 - q)
            want = 1 - want
        else:
            want = sum(v) / n
            ctx.eq(args[0], v, "the user function gets all degrees")
        ctx.eq(r, want, "merged degree")
        ctx.le(r, 1, "at most one", 1e-9)
        ctx.le(0, r, "at least zero", 1e-9)

    return h


def mixed(ctx):
    """state names, constraint objects and functions side by side in an environment"""
    v = state(ctx)
    s = stub_system(ctx, lambda n: ctx.array(v), N4, LIM[:4], NOM[:4], LOW[:4])
    d = ctx.real("d", 0, 1)
    e = make_env(ctx, s, rec_generator(ctx, [[0.0]]), rec_reward(ctx), constraints=("i", lambda st: d, mods().SquaredConstraint(("omega", "u")), "torque"))
    r = e.constraint_monitor.check_constraints(ctx.array(v))
    full = Or(v[2] > 1, v[2] < -1, v[1] > 1, v[1] < -1, v[0] * v[0] + v[3] * v[3] > 1)
    ctx.eq(r, ite(full, 1.0, d), "all kinds of constraints contribute")


def positional(ctx):
    v = [ctx.real(f"v{k}", 0, 1) for k in range(2)]
    m = core_().ConstraintMonitor((), [lambda st: v[0], lambda st: v[1]], lambda a, b: (a + b) / 2)
    got = []
    err = raises(lambda: got.append(m.check_constraints(ctx.array([0.0]))), TypeError)
    ctx.check(err is None, "the user's function is called with the degrees")
    if err is None:
        ctx.eq(got[0], (v[0] + v[1]) / 2, "the user's function of the degrees")


def cases(tier):
    out = [dict(name="limit-" + v, fn=limit(v), opts=dict(max_paths=100000)) for v in ("constraint", "monitor", "env", "all")]
    for p in (False, True):
        for sel in ((0,), (1, 3), (3, 1), (0, 2, 3)):
            out.append(dict(name=f"squared-{'physical' if p else 'normalised'}-{''.join(map(str, sel))}", fn=squared(p, sel)))
    for sel in ((0,), (0, 1), (1, 0)) + (((0, 1, 2), (2, 0, 1)) if tier == "thorough" else ()):
        for p in (False, True):
            out.append(dict(name=f"squared-limits-{'physical' if p else 'normalised'}-{''.join(map(str, sel))}", fn=squared_limits(p, sel)))
    for n in (1, 2, 3):
        for m in ("max", "product", "user"):
            out.append(dict(name=f"merge-{m}-{n}", fn=merged(m, n, "monitor")))
        out.append(dict(name=f"merge-env-{n}", fn=merged("max", n, "env")))
    out.append(dict(name="mixed", fn=mixed))
    out.append(dict(name="merge-user-positional", fn=positional))
    return out
