"""Shared builders for the drive (supply-converter-motor-load) harnesses."""
import numpy as np
from symex import core
from symex.core import And, Or, Not, Implies, ite

TAU = 1e-4
S3 = 3 ** 0.5


def ps():
    import gym_electric_motor.physical_systems as m

    return m


def mod():
    import gym_electric_motor.physical_systems.physical_systems as m

    return m


# --- independent reference transformations (written from the textbook, not from the code) -------------------------
def sq3():
    return core.sqrt_(3) if core.CTX is not None and core.CTX.symbolic else S3



def trig(x):
    from symex import shim

    if core.has_sym(x):
        return shim.mcos(x), shim.msin(x)
    import math

    return math.cos(float(x)), math.sin(float(x))


def clarke(abc):
    a, b, c = abc
    return [(2 * a - b - c) / 3, (b - c) / sq3()]


def iclarke(ab):
    x, y = ab
    h = sq3() / 2
    return [x, -x / 2 + h * y, -x / 2 - h * y]


def rot(v, eps):
    """rotating frame -> stationary frame"""
    c, s = trig(eps)
    return [c * v[0] - s * v[1], s * v[0] + c * v[1]]


def irot(v, eps):
    c, s = trig(eps)
    return [c * v[0] + s * v[1], c * v[1] - s * v[0]]


def park(abc, eps):
    return irot(clarke(abc), eps)


def ipark(dq, eps):
    return iclarke(rot(dq, eps))


# --- stand-ins for user supplied components ------------------------------------------------------------------------
def rec_solver(ctx, successors=(), tag="y"):
    """An ODE solver as a user may supply it: it hands out the states given by the harness (arbitrary values) and records
    what the drive asked for."""
    from gym_electric_motor.physical_systems.solvers import OdeSolver

    class Rec(OdeSolver):
        def __init__(self):
            self.calls = []
            self.succ = list(successors)
            self.init = []

        def set_initial_value(self, initial_value, t=0):
            super().set_initial_value(initial_value, t)
            self.init.append((initial_value, t))

        def integrate(self, t):
            self.calls.append((self._t, t, self._f_params))
            self._y = self.succ.pop(0)
            self._t = t
            return self._y

    return Rec()


def rec_supply(ctx, u_nominal, voltages):
    """a supply delivering arbitrary voltages, recording what it is asked"""
    from gym_electric_motor.physical_systems.voltage_supplies import VoltageSupply

    class RecSupply(VoltageSupply):
        def __init__(self):
            super().__init__(u_nominal)
            self.supply_range = (0.0, u_nominal)
            self.calls = []
            self.v = list(voltages)

        def reset(self):
            return [u_nominal]

        def get_voltage(self, t, i_sup):
            self.calls.append((t, i_sup))
            return [self.v[min(len(self.calls) - 1, len(self.v) - 1)]]

    return RecSupply()


MOTORS = {
    # name: (motor class, system class, ODE state names)
    "permex": ("DcPermanentlyExcitedMotor", "DcMotorSystem", ["i"]),
    "series": ("DcSeriesMotor", "DcMotorSystem", ["i"]),
    "shunt": ("DcShuntMotor", "DcMotorSystem", ["i_a", "i_e"]),
    "extex": ("DcExternallyExcitedMotor", "DcMotorSystem", ["i_a", "i_e"]),
    "pmsm": ("PermanentMagnetSynchronousMotor", "SynchronousMotorSystem", ["i_sd", "i_sq", "epsilon"]),
    "synrm": ("SynchronousReluctanceMotor", "SynchronousMotorSystem", ["i_sd", "i_sq", "epsilon"]),
    "eesm": ("ExternallyExcitedSynchronousMotor", "ExternallyExcitedSynchronousMotorSystem", ["i_sd", "i_sq", "i_e", "epsilon"]),
    "scim": ("SquirrelCageInductionMotor", "SquirrelCageInductionMotorSystem", ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]),
    "dfim": ("DoublyFedInductionMotor", "DoublyFedInductionMotorSystem", ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]),
}
# bounds of the ODE state entries (physical units)
BOX = dict(i=300, i_a=300, i_e=300, i_sd=500, i_sq=500, epsilon=3.2, i_salpha=20, i_sbeta=20, psi_ralpha=2, psi_rbeta=2, omega=1500)


def converter(motor, cont=True, til=0.0, tau=TAU):
    p = ps()
    k = dict(interlocking_time=til, tau=tau)
    if motor in ("permex", "series", "shunt"):
        return (p.ContFourQuadrantConverter if cont else p.FiniteFourQuadrantConverter)(**k)
    if motor == "extex":
        return p.ContMultiConverter([p.ContFourQuadrantConverter(**k), p.ContTwoQuadrantConverter(**k)], **k) if cont else p.FiniteMultiConverter(
            [p.FiniteFourQuadrantConverter(**k), p.FiniteTwoQuadrantConverter(**k)], **k)
    if motor == "eesm":
        return p.ContMultiConverter([p.ContB6BridgeConverter(**k), p.ContFourQuadrantConverter(**k)], **k) if cont else p.FiniteMultiConverter(
            [p.FiniteB6BridgeConverter(**k), p.FiniteFourQuadrantConverter(**k)], **k)
    if motor == "dfim":
        return p.ContMultiConverter([p.ContB6BridgeConverter(**k), p.ContB6BridgeConverter(**k)], **k) if cont else p.FiniteMultiConverter(
            [p.FiniteB6BridgeConverter(**k), p.FiniteB6BridgeConverter(**k)], **k)
    return (p.ContB6BridgeConverter if cont else p.FiniteB6BridgeConverter)(**k)


def n_act(motor):
    return {"extex": 2, "eesm": 4, "dfim": 6, "pmsm": 3, "synrm": 3, "scim": 3}.get(motor, 1)


def make_motor(name, **k):
    return getattr(ps(), MOTORS[name][0])(**k)


def build(name, ctx=None, conv=None, supply=None, load=None, solver=None, tau=TAU, motor=None, **k):
    """Constructs the drive with the untouched code (everything here is concrete), then lets its arrays hold proxies."""
    from symex import shim
    from gym_electric_motor.physical_systems.solvers import EulerSolver

    p = ps()

    def make():
        return getattr(mod(), MOTORS[name][1])(
            converter=conv or converter(name), motor=motor or make_motor(name),
            load=load or p.PolynomialStaticLoad(dict(a=0.01, b=0.02, c=1e-4, j_load=1e-3)),
            supply=supply or p.IdealVoltageSupply(u_nominal=400.0), ode_solver=solver or EulerSolver(), tau=tau, **k)

    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            s = make()
        return shim.symbolify(s)
    return make()


def ode_state(ctx, name, tag="", flux_pos=True, load_states=1):
    """an arbitrary ODE state [omega, motor states...]"""
    names = ["omega"] + MOTORS[name][2]
    xs = []
    for n in names:
        xs.append(ctx.real(f"{tag}{n}", -BOX[n], BOX[n]))
    d = dict(zip(names, xs))
    if "psi_ralpha" in d:
        # the field angle is defined by a non-vanishing flux
        ctx.assume(d["psi_ralpha"] * d["psi_ralpha"] + d["psi_rbeta"] * d["psi_rbeta"] >= 1e-2)
    return ctx.array(xs), d
