"""C32: equal seeds reproduce everything."""
from .refgen import *
from .wrap import wsystem, wr, W_NAMES, states
from .c12 import NOMBOX
from symex import shim

BOUNDS = ("every value of every draw (numpy generators, numpy's and python's global functions, scipy truncnorm); two episodes after the seeding, the first of one to four steps, "
          "after an arbitrary use (one episode, foreign draws) or none; all reference generators, random initial values of motors and loads, random walk load, AC supplies, state noise, "
          "whole environments of two steps")
X0 = [0.1, 0.2, 0.3, 0.4, 1.0]
SEED = 7


def ss(k=SEED):
    return np.random.SeedSequence(k)


def play(ctx, g, lens):
    out = []
    for n in lens:
        x = ctx.array(X0)
        r, o, _ = g.reset(x)
        ep = [list(r) + list(o)]
        for k in range(n):
            ep.append(list(g.get_reference(x)) + list(g.get_reference_observation(x)))
        out.append(ep)
    return out


def same_episodes(ctx, a, b, what):
    for e, (p, q) in enumerate(zip(a, b)):
        for k, (v, w) in enumerate(zip(p, q)):
            ctx.same(len(v), len(w), "as many values")
            ctx.eq(v, w, f"{what}: episode {e + 1}, step {k}", 0)


def foreign(draw):
    """random numbers consumed by somebody else"""
    np.random.rand()
    np.random.default_rng().normal()


def parts_of(kind, var=False):
    m = rg()
    L = (1, 3) if var else 2
    if kind == "multiple":
        return m.MultipleReferenceGenerator([generator("sinus", "u", 2, "float"), generator("wiener", "i", L, "float")])
    if kind == "switched":
        return m.SwitchedReferenceGenerator([generator("sinus", "u", L, "float"), generator("wiener", "u", L, "float")], super_episode_length=L)
    if kind == "nested":
        return m.MultipleReferenceGenerator([m.SwitchedReferenceGenerator([generator("triangle", "u", 2, "float"), generator("laplace", "u", L, "float")],
                                                                          super_episode_length=2), generator("sinus", "i", 2, "float")])
    return generator(kind, "omega", L, "float")


def gen(kind, n, used, var=False):
    def h(ctx):
        with Draws(ctx, support=dict(normal=(-1, 1), laplace=(-1, 1))) as dr, Sawtooth(ctx, functional=True):
            a, b = (concretely(lambda: parts_of(kind, var)) for _ in range(2))
            for g in (a, b):
                shim.symbolify(g)
                g.set_modules(stub_system(ctx, lambda n: ctx.array(X0)))
            if used:
                dr.quiet = True
                play(ctx, b, [2, 1])
                dr.quiet = False
            a.seed(ss())
            ra = play(ctx, a, [1, 1])
            foreign(dr)
            b.seed(ss())
            rb = play(ctx, b, [n, 1])
            same_episodes(ctx, ra, rb, "equal references")

    return h


def drive(name, kind, load):
    """initial states, random walk, supply phases of a whole drive"""
    def h(ctx):
        p = ps()
        sols = []
        with Draws(ctx) as dr:

            def mk():
                sol = rec_solver(ctx)
                order = MOTORS[name][2]
                init = dict(states={n: 0.0 for n in order}, random_init=kind)
                if load == "still":
                    l = p.ConstantSpeedLoad(omega_fixed=0.0)
                elif load == "walk":
                    l = p.OrnsteinUhlenbeckLoad(mu=1.0, sigma=1.0, theta=1.0, tau=TAU, omega_range=(-20.0, 20.0))
                else:
                    l = p.PolynomialStaticLoad(load_initializer=dict(states=dict(omega=0.0), random_init=kind), limits=dict(omega=400.0))
                m = make_motor(name, motor_initializer=init)
                conv, sup = (converter(name), None)
                if load == "ac":
                    sup = p.AC1PhaseSupply(u_nominal=230.0)
                s = build(name, ctx, motor=m, load=l, solver=sol, conv=conv, **(dict(supply=sup) if sup is not None else {}))
                sols.append(sol)
                return s, sol

            def play(s, sol, n):
                s.reset()
                out = list(core.flat([sol.init[-1][0]]))
                if load == "ac":
                    out += list(core.flat([s.supply.get_voltage(0.001, 0.0)]))
                for k in range(n):
                    if load == "walk":
                        out += list(core.flat([s.mechanical_load.mechanical_ode(k * TAU, ctx.array([out[0]]), 0.0)]))
                return out

            (a, sa), (b, sb) = mk(), mk()
            play(b, sb, 1)
            a.seed(ss())
            e1, e2 = play(a, sa, 1), play(a, sa, 1)
            foreign(dr)
            b.seed(ss())
            f1, f2 = play(b, sb, 2), play(b, sb, 1)
            ctx.eq(e1, f1[:len(e1)], "equal initial values and loads of the first episode", 0)
            ctx.eq(e2, f2, "equal initial values and loads of the second episode", 0)

    return h


def noise(nested):
    def h(ctx):
        with Draws(ctx) as dr:
            vals = states(ctx, 12)

            def mk():
                s = wsystem(ctx, [vals[0]])
                w = wr().StateNoiseProcessor(["omega", "i_a"], "normal", dict(scale=0.1), 2)
                w.set_physical_system(s)
                if nested:
                    v = wr().StateNoiseProcessor(["i_a", "torque"], "uniform", dict(low=-0.1, high=0.1), 2)
                    v.set_physical_system(w)
                    return v
                return w

            def play(w, n):
                return [list(w.reset())] + [list(w.simulate(1)) for _ in range(n)]

            a, b = mk(), mk()
            play(b, 1)
            a.seed(ss())
            ra = [play(a, 1), play(a, 2)]
            foreign(dr)
            b.seed(ss())
            rb = [play(b, 3), play(b, 2)]
            same_episodes(ctx, ra, rb, "equal noise")

    return h


def env(kind, later):
    """whole environments: the seed of the reset decides everything, also for the episodes that follow without a new seed"""
    def h(ctx):
        with Draws(ctx, support=dict(normal=(-1, 1), laplace=(-1, 1))) as dr, Sawtooth(ctx, functional=True):

            def mk():
                s = wsystem_named(ctx)
                w = wr().StateNoiseProcessor(["omega"], "normal", dict(scale=0.01), 3).set_physical_system(s)
                g = concretely(lambda: parts_of(kind))
                shim.symbolify(g)
                return make_env(ctx, w, g, rec_reward(ctx))

            def run(e, n, **k):
                (s, r), _ = e.reset(**k)
                out = [list(s) + list(r)]
                for j in range(n):
                    (s, r), *_ = e.step(0)
                    out.append(list(s) + list(r))
                return out

            a, b = mk(), mk()
            dr.quiet = True
            run(b, 1, seed=11)
            dr.quiet = False
            ra = [run(a, 1, seed=SEED)]
            foreign(dr)
            rb = [run(b, 2 if later else 1, seed=SEED)]
            if later:
                ra.append(run(a, 1))
                rb.append(run(b, 1))
            same_episodes(ctx, ra, rb, "equal observations")
            # every random component has its own stream, derived from the seed
            keys = []
            x = a.physical_system
            comps = [x, a.reference_generator] + list(getattr(a.reference_generator, "_sub_generators", []))
            for q in comps:
                if hasattr(q, "random_generator"):
                    keys.append(q.random_generator._key)
            ctx.same(len(set(keys)), len(keys), "no two components share their random numbers")
            ctx.same(len({k.split("_")[0] for k in keys}), 1, "all random numbers stem from the seed")

    return h


def wsystem_named(ctx):
    return stub_system(ctx, lambda n: ctx.array(X0))


def cases(tier):
    out = []
    for k in KINDS + ("multiple", "switched", "nested"):
        for n in (1, 3) if tier == "quick" else (1, 2, 3, 4):
            if k == "step" and n > 1 and tier == "quick":
                continue
            for used in (True,) if tier == "quick" else (True, False):
                out.append(dict(name=f"gen-{k}-{n}-{used}", fn=gen(k, n, used)))
        if k not in ("multiple", "nested", "step") and (tier == "thorough" or k not in ("wiener", "switched")):
            out.append(dict(name=f"gen-{k}-2-var", fn=gen(k, 2, True, True)))
    for nme in ("permex", "series", "shunt", "extex", "pmsm", "synrm", "eesm", "scim", "dfim"):
        for kind in ("uniform", "gaussian"):
            if nme == "dfim" or (nme, kind) == ("scim", "gaussian"):  # known finding, shown for one of them
                continue
            out.append(dict(name=f"drive-{nme}-{kind}", fn=drive(nme, kind, "static")))
    for nme in ("scim", "dfim"):
        out.append(dict(name=f"drive-{nme}-still", fn=drive(nme, "uniform", "still")))
    out.append(dict(name="drive-walk", fn=drive("permex", "uniform", "walk")))
    out.append(dict(name="drive-ac", fn=drive("permex", "uniform", "ac")))
    for nested in (False, True):
        out.append(dict(name=f"noise-{nested}", fn=noise(nested)))
    for k in ("sinus", "wiener", "multiple", "switched", "nested"):
        for later in (False, True):
            out.append(dict(name=f"env-{k}-{later}", fn=env(k, later)))
    return out
