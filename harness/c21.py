"""C21: the reference an agent observes is the one it is rewarded for."""
from .refgen import *

BOUNDS = ("every random draw (process increments within one scale); every library generator, multiple and switched compositions and user generators with arbitrary values; sub-episode lengths 1 to 2, "
          "super episodes of 1 to 2 steps; 3 steps in each of two episodes; state filters with and without the referenced states")

X0 = [0.0] * len(NAMES)


def gens(ctx, kind):
    m = rg()
    L = dict(lengths=(1, 3))
    if kind in KINDS:
        x = dict(frequency_range=(5, 5), lengths=(2, 2)) if kind == "step" else L
        if kind == "wiener":
            x = dict(L, initial_range=(0.3, 0.4))
        return generator(kind, "i" if kind in ("wiener", "saw") else "omega", margin="float", **x)
    if kind == "const":
        return m.ConstReferenceGenerator("torque", 0.3)
    if kind == "zero":
        return m.ZeroReferenceGenerator()
    if kind == "multiple":
        return m.MultipleReferenceGenerator([generator("sinus", "u", 2, "float"), m.ConstReferenceGenerator("i", 0.4), generator("laplace", "omega", 2, "float")])
    if kind == "multiple-rev":
        return m.MultipleReferenceGenerator([generator("wiener", "u_sup", 2, "float", initial_range=(0.3, 0.4)), generator("triangle", "omega", (1, 3), "float")])
    if kind == "switched":
        return m.SwitchedReferenceGenerator([generator("sinus", "omega", 2, "float"), m.ConstReferenceGenerator("omega", 0.4)], super_episode_length=(1, 3))
    if kind == "switched-int":
        return m.SwitchedReferenceGenerator([generator("wiener", "i", 2, "float", initial_range=(0.3, 0.4)), generator("saw", "i", 3, "float")], super_episode_length=2)
    raise KeyError(kind)


def run(kind, steps, exchange=False, filt=None):
    def h(ctx):
        from gym_electric_motor.core import Callback

        class CB(Callback):
            def __init__(self):
                super().__init__()
                self.log = []

            def on_reset_end(self, state, reference):
                self.log.append(("reset", state, reference))

            def on_step_end(self, k, state, reference, reward, terminated):
                self.log.append(("step", k, state, reference))

        with Draws(ctx, support=dict(normal=(-1, 1), laplace=(-1, 1))), Sawtooth(ctx):
            if kind == "user":
                g = rec_generator(ctx, [[ctx.real(f"q{j}_{c}", -1, 1) for c in range(2)] for j in range(10)], (3, 1))
            else:
                g = concretely(lambda: gens(ctx, kind))
            vals = [[ctx.real(f"s{k}_{j}", -1, 1) for j in range(len(NAMES))] for k in range(10)]
            s = stub_system(ctx, lambda n: ctx.array(vals[n]))
            rew, cb = rec_reward(ctx), CB()
            env = make_env(ctx, s, g, rew, callbacks=[cb], state_filter=filt)
            names = list(g.reference_names)
            order = [NAMES.index(n) for n in names] if kind != "user" else [3, 1]
            ctx.same(list(env.reference_names), names, "reference names of the environment")
            for e in range(2):
                obs, _ = env.reset(seed=e + 7)
                for k in range(steps if e == 0 else 1):
                    ref = obs[1]
                    ctx.same(len(ref), len(order), "one reference per name")
                    n0 = len(rew.calls)
                    obs, *_ = env.step(0)
                    got = rew.calls[n0][1]
                    ctx.eq([got[p] for p in order], list(ref), "rewarded reference is the one observed before")
                    ctx.eq([got[p] for p in range(len(NAMES)) if p not in order], [0.0] * (len(NAMES) - len(order)), "no other reference")
                    ctx.eq(list(cb.log[-1][3]), list(got), "callbacks see the rewarded reference")
                    ctx.eq(list(rew.calls[n0][0]), list(cb.log[-1][2]), "reward and callbacks see the same state")
                    ctx.eq(list(rew.calls[n0][0]), vals[len(s.log) + s.resets - 1], "the rewarded state is the new one")

    return h


def cases(tier):
    n = 2 if tier == "quick" else 3
    kinds = list(KINDS) + ["const", "zero", "multiple", "multiple-rev", "switched", "switched-int", "user"]
    out = [dict(name=k, fn=run(k, n), opts=dict(max_paths=100000)) for k in kinds]
    out.append(dict(name="filtered", fn=run("multiple", n, filt=["i", "omega"]), opts=dict(max_paths=100000)))
    return out
