"""C20: episodes terminate exactly on full violation and then require a reset."""
from .envs import *

BOUNDS = ("every history of 5 calls out of {step, reset, exchange of the reference generator, exchange of the reward function}; constraint "
          "values: any value in [0, 1] per constraint and step, up to 3 constraints, all merge modes; every environment id's motor with its default "
          "constraints from an arbitrary motor state (one step)")

OPS = ("step", "reset", "refgen", "reward")


def histories(merge, ncons, length):
    def h(ctx):
        n = len(NAMES)
        states = lambda k: ctx.reals(f"s{k}_", n, -2, 2)
        refs = [[ctx.real(f"r{k}", -1, 1)] for k in range(3)]
        vals = {}

        def cons(j):
            def c(state):
                key = (j, len(sysm.log))
                if key not in vals:
                    vals[key] = ctx.real(f"v{j}_{len(sysm.log)}", 0, 1)
                return vals[key]

            return c

        sysm = stub_system(ctx, states)
        gen, rew = rec_generator(ctx, refs), rec_reward(ctx)
        mode = merge
        if merge == "mean":
            mode = lambda *v: (lambda q: sum(q) / len(q))(list(core.flat(v)))
        cm = core_().ConstraintMonitor((), [cons(j) for j in range(ncons)], mode)
        env = make_env(ctx, sysm, gen, rew, constraints=cm)
        ready = False
        for k in range(length):
            op = ctx.choice(f"op{k}", OPS)
            if op == "reset":
                obs, info = env.reset()
                ready = True
            elif op == "refgen":
                gen = rec_generator(ctx, refs)
                gen.set_modules(sysm)
                env.reference_generator = gen
                ready = False
            elif op == "reward":
                rew = rec_reward(ctx)
                env.reward_function = rew
                ready = False
            else:
                act = ctx.int(f"a{k}", 0, 1)
                before = (len(sysm.log), len(gen.asked), len(gen.shown), len(rew.calls))
                if not ready:
                    ctx.check(raises(lambda: env.step(act)) is not None, "a step without a reset is refused")
                    ctx.same((len(sysm.log), len(gen.asked), len(gen.shown), len(rew.calls)), before, "a refused step does nothing")
                    continue
                out = env.step(act)
                ctx.same(len(out), 5, "five entries per step")
                ctx.same(len(sysm.log), before[0] + 1, "one simulation per step")
                ctx.same(sysm.log[-1][1], act, "the action reaches the system")
                ctx.same(len(rew.calls), before[3] + 1, "one reward per step")
                v = [vals[(j, len(sysm.log))] for j in range(ncons)]
                if ncons == 0:
                    full = False
                elif merge == "mean":
                    full = sum(v) / ncons >= 1
                else:
                    full = Or(*[x >= 1 for x in v])
                ctx.check(core.Not(core.tobool(out[2])) if full is False else Or(And(full, out[2]), And(core.Not(full), core.Not(out[2]))),
                          "terminated exactly on full violation")
                ctx.same(bool(out[3]), False, "never truncated")
                ready = not bool(out[2])

    return h


def real(motor, cont=True):
    """default constraints of the real environments"""
    sq, single = CURRENTS[motor]
    name = KEY[motor]

    def h(ctx):
        solver = rec_solver(ctx)
        env = real_env(ctx, motor, "TC", cont, solver)
        ctx.check(raises(lambda: env.step(env.action_space.sample() * 0)) is not None, "no step before the first reset")
        with_state, d = ode_state(ctx, name, "x")
        env.reset()
        s = env.physical_system
        solver.set_initial_value(with_state, 0)
        y, dy = ode_state(ctx, name, "y")
        solver.succ = [y] * 4
        space = env.action_space
        act = np.zeros(space.shape) if cont else (space.sample() * 0)
        obs, r, term, trunc, info = env.step(act)
        st = obs[0]
        pos = {n: k for k, n in enumerate(env.state_names)}
        bad = []
        if sq:
            bad.append(sum(st[pos[n]] * st[pos[n]] for n in sq) > 1)
        for n in single:
            bad.append(Or(st[pos[n]] > 1, st[pos[n]] < -1))
        full = Or(*bad)
        ctx.check(Or(And(full, term), And(core.Not(full), core.Not(term))), "terminated exactly if a default limit is exceeded")
        if term:
            n0 = len(solver.calls)
            ctx.check(raises(lambda: env.step(act)) is not None, "no step after termination")
            ctx.same(len(solver.calls), n0, "nothing is simulated after termination")
            env.reset()
            solver.set_initial_value(with_state, 0)
            solver.succ = [y] * 4
            env.step(act)

    return h


def cases(tier):
    out = []
    n = 5 if tier == "quick" else 6
    for m in ("max", "product", "mean"):
        for c in (0, 1, 2, 3):
            if c == 0 and m != "max":
                continue
            out.append(dict(name=f"history-{m}-{c}", fn=histories(m, c, n if c < 2 else 4), opts=dict(max_paths=200000)))
    for mo in CURRENTS:
        out.append(dict(name="env-" + mo, fn=real(mo)))
        out.append(dict(name="env-finite-" + mo, fn=real(mo, False)))
    return out
