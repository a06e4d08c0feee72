"""Reference generators with arbitrary random draws."""
from .envs import *
from .rng import Draws


def rg():
    import gym_electric_motor.reference_generators as m

    return m


def concretely(f):
    """runs f on the untouched code"""
    if core.CTX is not None and core.CTX.symbolic:
        with shim.Suspended():
            return f()
    return f()


class SawStub:
    """scipy.signal.sawtooth by its documented contract: some value in [-1, 1], a function of its arguments"""

    def __init__(self, ctx, functional=False):
        self.ctx = ctx
        self.functional = functional
        self.vals = {}
        self.calls = 0  # numbers the values: the same call has the same number in every run of a path

    @staticmethod
    def key(x):
        try:
            return repr(x) if isinstance(x, core.Sym) else f"{float(x):.10g}"
        except (TypeError, ValueError):
            return repr(x)

    def sawtooth(self, t, width=1):
        out = []
        for x in core.flat([t]):
            self.calls += 1
            key = (self.key(x), self.key(width)) if self.functional else self.calls
            if key not in self.vals:
                self.vals[key] = self.ctx.real(f"saw{self.calls}", -1, 1)
            out.append(self.vals[key])
        return self.ctx.array(out)


class Sawtooth:
    """context manager: replaces scipy.signal in the reference generator modules"""

    def __init__(self, ctx, functional=False):
        self.stub = SawStub(ctx, functional)

    def __enter__(self):
        import sys

        import scipy.signal

        self.saved = []
        for n, m in list(sys.modules.items()):
            if n.startswith("gym_electric_motor.reference_generators") and m is not None:
                for k, v in list(m.__dict__.items()):
                    if v is scipy.signal or isinstance(v, SawStub):  # also in replays inside a symbolic run
                        self.saved.append((m, k, v))
                        setattr(m, k, self.stub)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        return False


MARGIN = {"none": None, "float": 0.8, "tuple": (0.5, 0.9)}
KINDS = ("wiener", "laplace", "sinus", "triangle", "saw", "step")


def generator(kind, state="omega", lengths=(1, 3), margin="none", **k):
    m = rg()
    c = dict(reference_state=state, episode_lengths=lengths, limit_margin=MARGIN[margin])
    c.update(k)
    if kind == "wiener":
        return m.WienerProcessReferenceGenerator(**dict(dict(sigma_range=(0.1, 0.1)), **c))
    if kind == "laplace":
        return m.LaplaceProcessReferenceGenerator(**dict(dict(sigma_range=(0.1, 0.1)), **c))
    cls = dict(sinus="SinusoidalReferenceGenerator", triangle="TriangularReferenceGenerator", saw="SawtoothReferenceGenerator",
               step="StepReferenceGenerator")[kind]
    return getattr(m, cls)(**dict(dict(frequency_range=(2, 2)), **c))


def allowed(state, margin):
    """the range from the documentation: the margin times the state space"""
    k = NAMES.index(state)
    if margin == "none":
        lo = hi = NOM[k] / LIM[k]
    elif margin == "float":
        lo = hi = MARGIN["float"]
    else:
        lo, hi = MARGIN["tuple"]
    return lo * LOW[k], hi * 1.0
