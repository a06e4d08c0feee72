"""Environment level stand-ins: a physical system delivering arbitrary states, recording reference generator and reward
function as a user may supply them, and the real environments with an arbitrary motor state."""
from .systems import *
from symex import shim

TAU_E = 0.05
NAMES = ["omega", "torque", "i", "u", "u_sup"]
LIM = [200.0, 40.0, 60.0, 400.0, 420.0]
NOM = [150.0, 30.0, 50.0, 380.0, 400.0]
LOW = [-1.0, -1.0, 0.0, -1.0, 0.0]


def core_():
    import gym_electric_motor.core as m

    return m


def stub_system(ctx, states=None, names=NAMES, lim=LIM, nom=NOM, low=LOW, tau=TAU_E, nact=2):
    """PhysicalSystem with states handed out by the harness; `states` is a list (reset state, then one per step) or a
    function k -> state"""
    import gymnasium as gym

    PS = core_().PhysicalSystem

    class Stub(PS):
        def __init__(self):
            super().__init__(gym.spaces.Discrete(nact), gym.spaces.Box(np.array(low), np.ones(len(names)), dtype=np.float64),
                             list(names), tau)
            self._limits = np.array(lim)
            self._nominal = np.array(nom)
            self.log = []
            self.resets = 0

        @property
        def limits(self):
            return self._limits

        @property
        def nominal_state(self):
            return self._nominal

        def _next(self):
            n = len(self.log) + self.resets
            return states(n) if callable(states) else states[min(n, len(states) - 1)]

        def reset(self, initial_state=None):
            s = self._next()
            self.resets += 1
            self._k = 0
            return s

        def simulate(self, action):
            s = self._next()
            self.log.append((self._k, action))
            self._k += 1
            return s

    return Stub()


def rec_reward(ctx, values=None, rng=(-1.0, 0.0)):
    R = core_().RewardFunction

    class Rec(R):
        def __init__(self):
            self.reward_range = rng
            self.calls = []
            self.resets = []

        def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
            self.calls.append((state, reference, k, action, violation_degree))
            return values[len(self.calls) - 1] if values is not None else 0.0

        def reset(self, initial_state=None, initial_reference=None):
            self.resets.append((initial_state, initial_reference))

    return Rec()


def rec_generator(ctx, refs, idx=(0,)):
    """reference generator following the documented protocol over given values (one vector per time step)"""
    import gymnasium as gym

    G = core_().ReferenceGenerator

    class Rec(G):
        def __init__(self):
            super().__init__()
            self.reference_space = gym.spaces.Box(-1, 1, shape=(len(idx),), dtype=np.float64)
            self._reference_names = [NAMES[k] for k in idx]
            self.n = 0
            self.asked = []
            self.shown = []

        def set_modules(self, physical_system):
            super().set_modules(physical_system)
            m = np.zeros(len(physical_system.state_names), dtype=bool)
            m[list(idx)] = True
            self._referenced_states = m
            self._reference_names = [physical_system.state_names[k] for k in idx]

        def get_reference(self, state, *a, **k):
            self.asked.append(state)
            r = ctx.array([0.0] * len(self._referenced_states))
            for j, p in enumerate(idx):
                r[p] = refs[self.n][j]
            return r

        def get_reference_observation(self, state, *a, **k):
            self.shown.append(state)
            self.n = min(self.n + 1, len(refs) - 1)
            return ctx.array(list(refs[self.n]))

    return Rec()


def make_env(ctx, system, generator, reward, **k):
    return core_().ElectricMotorEnvironment(system, generator, reward, **k)


def raises(f, *exc):
    try:
        f()
    except exc or (AssertionError,) as e:
        return e
    return None


# --- real environments ----------------------------------------------------------------------------------------------
CURRENTS = {  # names of the currents limited by default: (squared, single)
    "PermExDc": ((), ("i",)), "SeriesDc": ((), ("i",)), "ShuntDc": ((), ("i_a", "i_e")), "ExtExDc": ((), ("i_a", "i_e")),
    "PMSM": (("i_sd", "i_sq"), ()), "SynRM": (("i_sd", "i_sq"), ()), "EESM": (("i_sd", "i_sq"), ("i_e",)),
    "SCIM": (("i_sd", "i_sq"), ()), "DFIM": (("i_sd", "i_sq"), ()),
}
KEY = {"PermExDc": "permex", "SeriesDc": "series", "ShuntDc": "shunt", "ExtExDc": "extex", "PMSM": "pmsm", "SynRM": "synrm",
       "EESM": "eesm", "SCIM": "scim", "DFIM": "dfim"}


def real_env(ctx, motor, task="TC", cont=True, solver=None, **k):
    import gym_electric_motor as gem

    def mk():
        kw = dict(k)
        if solver is not None:
            kw["ode_solver"] = solver
        return gem.make(f"{'Cont' if cont else 'Finite'}-{task}-{motor}-v0", **kw).unwrapped

    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            e = mk()
        return shim.symbolify(e)
    return mk()
