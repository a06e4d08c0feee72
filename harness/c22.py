"""C22: observations contain exactly the selected states in the selected order."""
import itertools

from .envs import *
from .rng import Draws

BOUNDS = ("any state values; every ordered selection of up to four of four states (64) plus the default and the empty selection, at reset and in two steps; "
          "real drives (with and without a state wrapper) from arbitrary motor states with the listed filters")

N4 = NAMES[:4]
PERMS = [p for k in range(1, 5) for p in itertools.permutations(range(4), k)]


def stub(group):
    def h(ctx):
        filt = ctx.choice("filter", group)
        vals = [[ctx.real(f"s{k}_{j}", -2, 2) for j in range(4)] for k in range(3)]
        s = stub_system(ctx, lambda n: ctx.array(vals[n]), N4, LIM[:4], NOM[:4], LOW[:4])
        names = None if filt is None else [N4[j] for j in filt]
        given = None if names is None else list(names)
        env = make_env(ctx, s, rec_generator(ctx, [[0.0]]), rec_reward(ctx), state_filter=names)
        sel = list(range(4)) if not filt else list(filt)
        ctx.same(names, given, "the caller's selection is left alone")
        ctx.same(list(env.state_names), [N4[j] for j in sel], "names")
        ctx.eq(list(env.limits), [LIM[j] for j in sel], "limits")
        ctx.eq(list(env.nominal_state), [NOM[j] for j in sel], "nominal values")
        sp = env.observation_space[0]
        ctx.same((sp.low.tolist(), sp.high.tolist()), ([LOW[j] for j in sel], [1.0] * len(sel)), "observation space")
        obs, _ = env.reset()
        ctx.same(len(obs), 2, "state and reference")
        ctx.same(len(obs[0]), len(sel), "one entry per selected state")
        ctx.eq(list(obs[0]), [vals[0][j] for j in sel], "observation at reset")
        for k in (1, 2):
            obs = env.step(0)[0]
            ctx.same(len(obs[0]), len(sel), "one entry per selected state")
            ctx.eq(list(obs[0]), [vals[k][j] for j in sel], "observation in a step")

    return h


REAL = {
    "PMSM": (["i_sq", "omega", "epsilon"], False), "EESM": (["u_e", "i_sd", "torque"], False), "DFIM": (["i_rq", "u_sa", "omega", "i_sd"], False),
    "SCIM": (["u_sup", "i_sb"], False), "ExtExDc": (["u_e", "i_a"], False), "SeriesDc": (["u", "torque"], False), "SynRM": (["cos(epsilon)", "i_sd", "sin(epsilon)"], True),
}


def real(motor):
    filt, wrap = REAL[motor]

    def h(ctx):
        import gym_electric_motor.physical_system_wrappers as w

        solver = rec_solver(ctx)
        kw = dict(physical_system_wrappers=(w.CosSinProcessor(),)) if wrap else {}
        env = real_env(ctx, motor, "TC", True, solver, state_filter=list(filt), constraints=(), **kw)
        s = env.physical_system
        seen = []
        for n in ("simulate", "reset"):

            def spy(*a, _f=getattr(s, n), **k):
                r = _f(*a, **k)
                seen.append(r)
                return r

            setattr(s, n, spy)
        pos = [list(s.state_names).index(n) for n in filt]
        ctx.same(list(env.state_names), filt, "names")
        ctx.eq(list(env.limits), [s.limits[p] for p in pos], "limits")
        ctx.eq(list(env.nominal_state), [s.nominal_state[p] for p in pos], "nominal values")
        sp = env.observation_space[0]
        ctx.same((sp.low.tolist(), sp.high.tolist()), ([float(s.state_space.low[p]) for p in pos], [float(s.state_space.high[p]) for p in pos]), "observation space")
        obs, _ = env.reset()
        ctx.eq(list(obs[0]), [seen[-1][p] for p in pos], "observation at reset")
        solver.set_initial_value(ode_state(ctx, KEY[motor], "x")[0], 0)
        solver.succ = [ode_state(ctx, KEY[motor], "y")[0]]
        obs = env.step(np.zeros(env.action_space.shape))[0]
        ctx.same(len(obs[0]), len(filt), "one entry per selected state")
        ctx.eq(list(obs[0]), [seen[-1][p] for p in pos], "observation in a step")

    return h


def cases(tier):
    g = [PERMS[k::8] for k in range(8)]
    out = [dict(name=f"stub-{k}", fn=stub(x)) for k, x in enumerate(g)]
    out.append(dict(name="stub-default", fn=stub([None, ()])))
    out += [dict(name="env-" + m, fn=real(m)) for m in REAL]
    return out
