"""Physical system stand-ins for the wrappers."""
from .envs import *
from .rng import Draws


def wr():
    import gym_electric_motor.physical_system_wrappers as m

    return m


PI = float(np.pi)
W_NAMES = ["omega", "torque", "i_a", "i_b", "epsilon", "u_sup"]
W_LIM = [200.0, 40.0, 60.0, 90.0, PI, 420.0]
W_NOM = [150.0, 30.0, 50.0, 80.0, PI, 400.0]
W_LOW = [-1.0, -1.0, -1.0, -1.0, -1.0, 0.0]


def wsystem(ctx, vals, space=None, tau=1e-4, names=W_NAMES, lim=W_LIM, nom=W_NOM, low=W_LOW, motor=None):
    s = stub_system(ctx, lambda n: ctx.array(vals[min(n, len(vals) - 1)]), names, lim, nom, low, tau)
    if space is not None:
        s._action_space = space
    if motor is not None:
        s.electrical_motor = motor
    return shim.symbolify(s) if core.CTX.__class__.__name__ != "Conc" else s


def states(ctx, n, names=W_NAMES, lim=1.0):
    return [[ctx.real(f"s{k}_{q}", -lim, lim) for q in names] for k in range(n)]


def consistent(ctx, w, names, lim, nom, low, high):
    """equal length and order of everything that describes the state"""
    ctx.same(list(w.state_names), names, "state names")
    ctx.same(dict(w.state_positions), {n: k for k, n in enumerate(names)}, "state positions")
    ctx.eq(list(w.limits), lim, "limits")
    ctx.eq(list(w.nominal_state), nom, "nominal values")
    ctx.eq([float(x) for x in w.state_space.low], low, "lower bounds of the state space")
    ctx.eq([float(x) for x in w.state_space.high], high, "upper bounds of the state space")
