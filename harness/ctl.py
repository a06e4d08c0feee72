"""Stand-ins for the environment the controllers are tuned with."""
import gem_controllers as _gc

from .envs import *


def gc():
    return _gc


class Space:
    def __init__(self, low, high):
        self.low, self.high = low, high


class Env:
    """what the tuning of the stages reads"""

    def __init__(self, ctx, names, limits, low, reference_names=(), action_space=None, tau=1e-4, motor=None, converter=None):
        self.state_names = list(names)
        self.limits = ctx.array(list(limits))
        self.reference_names = list(reference_names)
        # the environment's spaces hold plain floats
        self.observation_space = (Space(np.array(low, dtype=float), np.ones(len(names))), None)
        self.action_space = action_space
        self.physical_system = type("System", (), {})()
        self.physical_system.tau = tau
        self.physical_system.limits = self.limits
        self.physical_system.nominal_state = self.limits
        self.physical_system.converter = converter
        self.physical_system.electrical_motor = motor
        self.physical_system.state_names = self.state_names

    @property
    def unwrapped(self):
        return self


def motor_of(ctx, key, **k):
    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            return make_motor(key, **k)
    return make_motor(key, **k)


def quiet(f):
    """built with the real code, outside the symbolic execution"""
    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            r = f()
        return shim.symbolify(r)
    return f()


AC_NAMES = ["omega", "torque", "i_a", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "epsilon", "u_sup"]
DC_NAMES = ["omega", "torque", "i", "i_a", "i_e", "u", "u_a", "u_e", "u_sup"]
