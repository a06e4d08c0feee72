"""Symbolic-aware stand-ins for numpy/math/builtins, injected into the module globals of the code under test while a
symbolic run is active.  They only change *storage* (float arrays become object arrays, so that a proxy value can be
stored) and give clip/min/max/sign/... branch-free meanings; everything else is numpy itself."""
import builtins
import cmath as _cm
import math as _math
import sys

import numpy as _np

from . import core
from .core import Sym, SymBool, has_sym

PREFIXES = ("gym_electric_motor", "gem_controllers")
SKIP = ("gym_electric_motor.visualization", "gem_controllers.block_diagrams")


def _isfloatdt(dt):
    if dt is None:
        return True
    if dt is float or dt is FloatShim or dt is object:
        return True
    try:
        return _np.dtype(dt).kind in "fO"
    except TypeError:
        return False


def obj(a):
    """float ndarray -> object ndarray of Python floats"""
    a = _np.asarray(a)
    if a.dtype.kind == "f":
        o = _np.empty(a.shape, dtype=object)
        if a.ndim == 0:
            o[()] = float(a)
            return o
        flat = o.reshape(-1)
        for i, v in enumerate(a.ravel().tolist()):
            flat[i] = v
        return flat.reshape(a.shape)
    return a


class SA(_np.ndarray):
    """object ndarray whose astype(float)/dtype conversions keep proxies"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _isfloatdt(dtype):
            return self.copy()
        return super().astype(dtype, *a, **k)


def _sa_op(n):
    base = getattr(_np.ndarray, n)

    def op(self, o):
        if isinstance(o, (Sym, SymBool)):
            w = _np.empty((), dtype=object)
            w[()] = o
            o = w
        return base(self, o)

    op.__name__ = n
    return op


for _n in ("add", "sub", "mul", "truediv", "mod", "floordiv", "pow"):
    for _pre in ("__", "__r", "__i"):
        setattr(SA, f"{_pre}{_n}__", _sa_op(f"{_pre}{_n}__"))
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SA, f"__{_n}__", _sa_op(f"__{_n}__"))
SA.__hash__ = None


def sa(a):
    return a.view(SA) if a.dtype == object else a


def _elementwise(f):
    def g(x, *rest, **kw):
        kw.pop("out", None)
        if isinstance(x, (Sym, SymBool)) or any(isinstance(r, (Sym, SymBool)) for r in rest):
            if not any(isinstance(r, (_np.ndarray, list, tuple)) for r in (x,) + rest):
                return f(x, *rest)
        arrs = _np.broadcast_arrays(*[_asobj(r) for r in (x,) + rest])
        out = _np.empty(arrs[0].shape, dtype=object)
        fo = out.reshape(-1)
        fl = [a.ravel() for a in arrs]
        for i in range(fo.size):
            fo[i] = f(*[q[i] for q in fl])
        r = fo.reshape(arrs[0].shape)
        return r[()] if r.ndim == 0 else sa(r)

    return g


def _asobj(x):
    if isinstance(x, _np.ndarray):
        return x
    if isinstance(x, (Sym, SymBool)) or x is None:
        o = _np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)):
        return array(x)
    return _np.asarray(x)


def array(x, dtype=None, *a, **k):
    k.pop("copy", None)
    if isinstance(x, _np.ndarray):
        if _isfloatdt(dtype) and x.dtype.kind in "fO" or (dtype is not None and _isfloatdt(dtype)):
            return sa(obj(x.astype(float) if x.dtype.kind in "iub" else x).copy())
        return _np.array(x, dtype=dtype, *a, **k)
    if has_sym(x):
        if isinstance(x, (Sym, SymBool)):
            return _asobj(x)
        r = _np.array(_clean(x), dtype=object)
        return sa(r)
    if dtype is not None and not _isfloatdt(dtype):
        return _np.array(x, dtype=dtype, *a, **k)
    if dtype is object:
        return sa(_np.array(x, dtype=object))
    r = _np.array(x, dtype=float if dtype in (FloatShim,) else dtype, *a, **k)
    return sa(obj(r)) if r.dtype.kind == "f" else r


def _clean(x):
    if isinstance(x, (list, tuple)):
        return [_clean(e) for e in x]
    if isinstance(x, _np.ndarray):
        return [_clean(e) for e in x.tolist()] if x.ndim else x.item()
    return x


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, _np.ndarray) and (dtype is None or _isfloatdt(dtype) and x.dtype == object):
        return x
    return array(x, dtype, *a, **k)


def _maker(name):
    real = getattr(_np, name)

    def f(*args, dtype=None, **kw):
        args = list(args)
        if name in ("zeros", "ones", "empty") and len(args) > 1 and dtype is None:
            dtype = args.pop(1)
        if name == "full" and len(args) > 2 and dtype is None:
            dtype = args.pop(2)
        if dtype is not None and not _isfloatdt(dtype):
            return real(*args, dtype=dtype, **kw)
        if name == "full":
            shape, val = args[0], args[1] if len(args) > 1 else kw.get("fill_value")
            if dtype is None and isinstance(val, (int, bool)) and not isinstance(val, float):
                return real(shape, val)
            o = _np.empty(shape, dtype=object)
            if isinstance(val, (Sym, SymBool)):
                fo = o.reshape(-1)
                for i in range(fo.size):
                    fo[i] = val
                return sa(fo.reshape(o.shape))
            o[...] = val
            return sa(o)
        if name == "empty":
            real_ = _np.zeros
        else:
            real_ = real
        return sa(obj(real_(*args, dtype=float, **kw)))

    return f


def _maker_like(name):
    def f(a, *args, dtype=None, **kw):
        a_ = _np.asarray(a) if not has_sym(a) else array(a)
        args = list(args)
        val = None
        if name == "full_like":
            val = args.pop(0) if args else kw.pop("fill_value")
        if args and dtype is None:
            dtype = args.pop(0)
        if dtype is None and a_.dtype.kind not in "fO":
            return getattr(_np, name)(a_, *([val] if name == "full_like" else []), **kw)
        if dtype is not None and not _isfloatdt(dtype):
            return getattr(_np, name)(a_, *([val] if name == "full_like" else []), dtype=dtype, **kw)
        base = {"zeros_like": 0.0, "empty_like": 0.0, "ones_like": 1.0, "full_like": val}[name]
        o = _np.empty(kw.get("shape") or a_.shape, dtype=object)
        fo = o.reshape(-1)
        for i in range(fo.size):
            fo[i] = base
        return sa(fo.reshape(o.shape))

    return f


def _needs(*xs):
    return any(has_sym(x) for x in xs)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    if a_min is None and "min" in kw:
        a_min = kw.pop("min")
    if a_max is None and "max" in kw:
        a_max = kw.pop("max")
    if not _needs(a, a_min, a_max):
        r = _np.clip(_tofloat(a), _tofloat(a_min), _tofloat(a_max))
        r = obj(r) if isinstance(r, _np.ndarray) and r.dtype.kind == "f" and r.ndim else r
        r = sa(r) if isinstance(r, _np.ndarray) else r
    else:
        r = _elementwise(core.clip_)(a, a_min, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def _tofloat(a):
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return a.astype(float) if not isinstance(a, SA) else _np.array(a.tolist(), dtype=float)
    return a


def _wrap_ew(name, f, arity=1):
    real = getattr(_np, name)
    ew = _elementwise(f)

    def g(*args, **kw):
        out = kw.pop("out", None)
        if _needs(*args[:arity]) or any(isinstance(x, _np.ndarray) and x.dtype == object for x in args[:arity]):
            r = ew(*args[:arity])
        else:
            r = real(*args, **kw)
        if out is not None:
            out[...] = r
            return out
        return r

    return g


def where(c, *xy):
    if not xy:
        if _needs(c):
            c = _np.array([bool(e) for e in _asobj(c).ravel().tolist()]).reshape(_asobj(c).shape)
        return _np.where(c)
    return _elementwise(core.ite)(c, *xy) if _needs(c, *xy) or any(
        isinstance(q, _np.ndarray) and q.dtype == object for q in xy
    ) else _np.where(c, *xy)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def isfinite_(x):
    return True if isinstance(x, (Sym, SymBool)) else bool(_np.isfinite(x))


def isnan_(x):
    return False if isinstance(x, (Sym, SymBool)) else bool(_np.isnan(x))


def isinf_(x):
    return False if isinstance(x, (Sym, SymBool)) else bool(_np.isinf(x))


def _boolarr(r):
    if isinstance(r, _np.ndarray) and r.dtype == object and not has_sym(r):
        return r.astype(bool) if not isinstance(r, SA) else _np.ndarray.astype(r, bool)
    return r


def abs_(x):
    return builtins.abs(x)


def np_max(a, axis=None, **kw):
    if not _needs(a) or axis is not None:
        return _np.max(_tofloat(a) if axis is None else a, axis=axis, **kw)
    v = list(core.flat([a]))
    r = v[0]
    for e in v[1:]:
        r = core.max2(r, e)
    return r


def np_min(a, axis=None, **kw):
    if not _needs(a) or axis is not None:
        return _np.min(_tofloat(a) if axis is None else a, axis=axis, **kw)
    v = list(core.flat([a]))
    r = v[0]
    for e in v[1:]:
        r = core.min2(r, e)
    return r


def np_any(a, axis=None, **kw):
    if not _needs(a):
        return _np.any(_boolarr(_asobj(a)), axis=axis, **kw)
    if axis is not None:
        return _np.any(a, axis=axis, **kw)
    return core.Or(*[core.tobool(e) for e in core.flat([a])])


def np_all(a, axis=None, **kw):
    if not _needs(a):
        return _np.all(_boolarr(_asobj(a)), axis=axis, **kw)
    if axis is not None:
        return _np.all(a, axis=axis, **kw)
    return core.And(*[core.tobool(e) for e in core.flat([a])])


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _needs(a, b):
        return _np.isclose(_tofloat(a), _tofloat(b), rtol, atol, equal_nan)
    return _elementwise(lambda x, y: abs_(x - y) <= atol + rtol * abs_(y))(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(isclose(a, b, rtol, atol, equal_nan))


def matmul(a, b, *r, **k):
    if _needs(a, b) or _isobj(a) or _isobj(b):
        return _np.dot(_asobj(a), _asobj(b)) if _asobj(a).ndim <= 2 and _asobj(b).ndim <= 2 else _np.matmul(a, b)
    return _np.matmul(a, b, *r, **k)


def _isobj(a):
    return isinstance(a, _np.ndarray) and a.dtype == object


def norm(x, ord=None, axis=None, keepdims=False):
    if not _needs(x):
        return _np.linalg.norm(_tofloat(x), ord, axis, keepdims)
    v = list(core.flat([x]))
    if ord in (None, 2) and axis is None:
        s = 0
        for e in v:
            s = s + e * e
        return core.sqrt_(s)
    if ord == _np.inf:
        return np_max([builtins.abs(e) for e in v])
    if ord == 1:
        return sum(builtins.abs(e) for e in v)
    return _np.linalg.norm(_tofloat(x), ord, axis, keepdims)


class _Linalg:
    norm = staticmethod(norm)

    def __getattr__(self, n):
        f = getattr(_np.linalg, n)

        def g(*a, **k):
            a = [_tofloat(x) for x in a]
            r = f(*a, **k)
            return sa(obj(r)) if isinstance(r, _np.ndarray) and r.dtype.kind == "f" else r

        return g


def _sum(a, axis=None, **kw):
    return _np.sum(_asobj(a) if isinstance(a, (list, tuple)) else a, axis=axis, **kw)


def interp(x, xp, fp, *a, **k):
    if not _needs(x, xp, fp):
        return _np.interp(_tofloat(x), _tofloat(xp), _tofloat(fp), *a, **k)

    def one(v):
        n = len(xp)
        if bool(v <= xp[0]):
            return fp[0]
        for i in range(1, n):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
        return fp[n - 1]

    return _elementwise(one)(x)


class NPShim:
    """looks like numpy"""

    def __init__(self):
        d = self.__dict__
        for n in ("zeros", "ones", "empty", "full"):
            d[n] = _maker(n)
        for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            d[n] = _maker_like(n)
        d["array"] = array
        d["asarray"] = asarray
        d["asfarray"] = asarray
        d["float64"] = _np.float64
        d["clip"] = clip
        d["sign"] = _wrap_ew("sign", core.sign_)
        d["maximum"] = d["fmax"] = _wrap_ew("maximum", core.max2, 2)
        d["minimum"] = d["fmin"] = _wrap_ew("minimum", core.min2, 2)
        d["floor"] = _wrap_ew("floor", lambda x: core.floor_(x) if isinstance(x, Sym) else float(_math.floor(x)))
        d["ceil"] = _wrap_ew("ceil", lambda x: -core.floor_(-x) if isinstance(x, Sym) else float(_math.ceil(x)))
        d["mod"] = d["remainder"] = _wrap_ew("mod", lambda x, m: x % m, 2)
        d["sin"] = _wrap_ew("sin", msin)
        d["cos"] = _wrap_ew("cos", mcos)
        d["sqrt"] = _wrap_ew("sqrt", msqrt)
        d["arctan2"] = _wrap_ew("arctan2", matan2, 2)
        d["hypot"] = _wrap_ew("hypot", lambda x, y: core.norm_(x, y) if has_sym(x) or has_sym(y) else _math.hypot(x, y), 2)
        d["power"] = _wrap_ew("power", lambda x, y: x**y, 2)
        d["square"] = _wrap_ew("square", lambda x: x * x)
        d["abs"] = d["absolute"] = d["fabs"] = _wrap_ew("abs", abs_)
        d["angle"] = _wrap_ew("angle", lambda z: z.angle() if hasattr(z, "angle") else _math.atan2(z.imag, z.real))
        d["exp"] = _wrap_ew("exp", lambda x: x.exp() if isinstance(x, core.SymC) else _cm.exp(x) if isinstance(x, complex) else _math.exp(float(x)))
        d["log"] = _wrap_ew("log", lambda x: _math.log(float(x)))
        d["tan"] = _wrap_ew("tan", lambda x: msin(x) / mcos(x))
        d["arctan"] = _wrap_ew("arctan", lambda x: matan2(x, 1))
        d["where"] = where
        d["select"] = select
        d["isfinite"] = lambda x: _boolarr(_elementwise(isfinite_)(x))
        d["isnan"] = lambda x: _boolarr(_elementwise(isnan_)(x))
        d["isinf"] = lambda x: _boolarr(_elementwise(isinf_)(x))
        d["max"] = d["amax"] = np_max
        d["min"] = d["amin"] = np_min
        d["any"] = np_any
        d["all"] = np_all
        d["isclose"] = isclose
        d["allclose"] = allclose
        d["matmul"] = matmul
        d["linalg"] = _Linalg()
        d["interp"] = interp
        d["logical_and"] = _ew_bool(lambda x, y: core.And(x, y))
        d["logical_or"] = _ew_bool(lambda x, y: core.Or(x, y))
        d["logical_not"] = _ew_bool(lambda x: core.Not(x))
        for n, f in (
            ("less", lambda x, y: x < y), ("less_equal", lambda x, y: x <= y), ("greater", lambda x, y: x > y),
            ("greater_equal", lambda x, y: x >= y), ("equal", lambda x, y: x == y), ("not_equal", lambda x, y: x != y),
        ):
            d[n] = _ew_bool(f)
        d["nan_to_num"] = _wrap_ew("nan_to_num", lambda x: x if isinstance(x, Sym) else float(_np.nan_to_num(x)))

    def __getattr__(self, n):
        return getattr(_np, n)


def _ew_bool(f):
    ew = _elementwise(f)
    return lambda *a, **k: _boolarr(ew(*a))


def msin(x):
    return core.trig(x)[1] if isinstance(x, Sym) else _math.sin(x)


def mcos(x):
    return core.trig(x)[0] if isinstance(x, Sym) else _math.cos(x)


def msqrt(x):
    if isinstance(x, Sym):
        return core.sqrt_(x)
    return _math.sqrt(x) if x >= 0 else _math.nan


def matan2(y, x):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return core.atan2_(y, x)
    return _math.atan2(y, x)


class MathShim:
    sin = staticmethod(msin)
    cos = staticmethod(mcos)
    sqrt = staticmethod(lambda x: core.sqrt_(x) if isinstance(x, Sym) else _math.sqrt(x))
    atan2 = staticmethod(matan2)
    hypot = staticmethod(lambda *a: core.sqrt_(sum(e * e for e in a)) if _needs(list(a)) else _math.hypot(*a))
    fabs = staticmethod(lambda x: builtins.abs(x) if isinstance(x, Sym) else _math.fabs(x))
    floor = staticmethod(lambda x: core.floor_(x) if isinstance(x, Sym) else _math.floor(x))
    ceil = staticmethod(lambda x: -core.floor_(-x) if isinstance(x, Sym) else _math.ceil(x))
    fmod = staticmethod(lambda x, y: core.mod_(x, y) if isinstance(x, Sym) else _math.fmod(x, y))
    pow = staticmethod(lambda x, y: x**y if _needs(x, y) else _math.pow(x, y))
    isnan = staticmethod(lambda x: False if isinstance(x, Sym) else _math.isnan(x))
    isfinite = staticmethod(lambda x: True if isinstance(x, Sym) else _math.isfinite(x))
    isinf = staticmethod(lambda x: False if isinstance(x, Sym) else _math.isinf(x))
    isclose = staticmethod(
        lambda a, b, rel_tol=1e-9, abs_tol=0.0: (abs_(a - b) <= core.max2(rel_tol * core.max2(abs_(a), abs_(b)), abs_tol))
        if _needs(a, b) else _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    )
    copysign = staticmethod(
        lambda x, y: core.ite(y >= 0, abs_(x), -abs_(x)) if _needs(x, y) else _math.copysign(x, y)
    )

    def __getattr__(self, n):
        return getattr(_math, n)


def _single(x):
    """size-1 container -> (value, rebuild)"""
    if isinstance(x, _np.ndarray) and x.size == 1:
        return x.ravel().tolist()[0]
    if isinstance(x, (list, tuple)) and len(x) == 1:
        return x[0]
    return x


def smin(*a, **k):
    return _mm(builtins.min, core.min2, a, k)


def smax(*a, **k):
    return _mm(builtins.max, core.max2, a, k)


def _mm(real, f2, a, k):
    if k:
        return real(*a, **k)
    v = a if len(a) > 1 else list(a[0])
    if not _needs(list(v)):
        return real(*a)
    boxed = [isinstance(x, (list, tuple, _np.ndarray)) for x in v]
    vals = [_single(x) for x in v]
    if any(isinstance(x, (list, tuple, _np.ndarray)) for x in vals):
        return real(*a)
    r = vals[0]
    for e in vals[1:]:
        r = f2(r, e)
    if any(boxed):
        # python returns one of the containers; containers of size one are interchangeable here
        o = _np.empty(1, dtype=object)
        o[0] = r
        return sa(o)
    return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return core.asnum(x)
        if isinstance(x, _np.ndarray) and x.size == 1 and has_sym(x):
            return x.ravel().tolist()[0]
        return float(x)

    def __eq__(cls, o):
        return o is float or o is FloatShim

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    """float(), keeping proxies"""

    fromhex = float.fromhex


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, core.SymC))

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)

    def __call__(cls, re=0.0, im=0.0):
        if isinstance(re, core.SymC) or has_sym(re) or has_sym(im):
            if isinstance(re, core.SymC) and not isinstance(im, core.SymC) and not has_sym(im) and im == 0:
                return re
            a = re if isinstance(re, core.SymC) else core.SymC(FloatShim(re), 0.0)
            return a + core.SymC(0.0, FloatShim(im))
        return complex(re, im) if im else complex(re) if not isinstance(re, str) else complex(re)

    def __eq__(cls, o):
        return o is complex or o is ComplexShim

    def __hash__(cls):
        return hash(complex)


class ComplexShim(metaclass=_ComplexMeta):
    """complex(), keeping proxies"""


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __call__(cls, *a, **k):
        if len(a) != 1 or k:
            return type(*a, **k)
        x = a[0]
        if isinstance(x, Sym):
            return float
        if isinstance(x, SA):
            return _np.ndarray
        if isinstance(x, SymBool):
            return bool
        return type(x)

    def __eq__(cls, o):
        return o is type or o is TypeShim

    def __hash__(cls):
        return hash(type)


class TypeShim(metaclass=_TypeMeta):
    """type(), seeing proxies as the floats they stand for"""


class BoxShim:
    def __init__(self, real):
        self.real = real

    def __call__(self, low, high, *a, **k):
        return self.real(_tofloat(low), _tofloat(high), *a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, self.real)


def _sym_dunder(n):
    base = getattr(Sym, n)

    def op(self, *a):
        o = a[0] if a else None
        if isinstance(o, _np.ndarray) and o.ndim and o.dtype.kind in "fiub":
            out = _np.empty(o.shape, dtype=object)
            fo = out.reshape(-1)
            for i, v in enumerate(o.ravel().tolist()):
                fo[i] = base(self, v)
            return sa(fo.reshape(o.shape))
        return base(self, *a)

    op.__name__ = n
    return op


for _n in ("add", "sub", "mul", "truediv", "mod", "floordiv"):
    for _pre in ("__", "__r"):
        setattr(Sym, f"{_pre}{_n}__", _sym_dunder(f"{_pre}{_n}__"))


def linspace(start, stop, num=50, *a, **k):
    if _needs(start, stop):
        n = int(num)
        out = _np.empty(n, dtype=object)
        for i in range(n):
            out[i] = start + (stop - start) * i / (n - 1) if n > 1 else start
        return sa(out)
    return sa(obj(_np.linspace(start, stop, num, *a, **k)))


NP = NPShim()
NP.__dict__["linspace"] = linspace
MATH = MathShim()
_FUNS = {}
for _n in ("sin", "cos", "sqrt", "atan2", "hypot", "fabs", "floor", "ceil", "isnan", "isfinite", "isclose", "pow", "copysign", "fmod"):
    _FUNS[getattr(_math, _n)] = getattr(MATH, _n)
for _n, _f in list(NP.__dict__.items()):
    _r = getattr(_np, _n, None)
    if _r is not None and callable(_r) and not isinstance(_r, type):
        try:
            _FUNS[_r] = _f
        except TypeError:
            pass

EXTRA_MODULES = []  # additional module names (harness support)
_active = []


def _modules():
    for n, m in list(sys.modules.items()):
        if m is None:
            continue
        if n.startswith(PREFIXES) and not n.startswith(SKIP) or n in EXTRA_MODULES:
            yield m


class Patched:
    def __enter__(self):
        if _active and _active[-1]:
            _active.append(None)
            return
        saved = []
        for m in _modules():
            d = m.__dict__
            for k, v in list(d.items()):
                new = None
                if v is _np:
                    new = NP
                elif v is _math:
                    new = MATH
                elif callable(v) and not isinstance(v, type):
                    try:
                        new = _FUNS.get(v)
                    except TypeError:
                        new = None
                if new is not None:
                    saved.append((d, k, v, True))
                    d[k] = new
            for k, v in (("min", smin), ("max", smax), ("float", FloatShim), ("type", TypeShim), ("complex", ComplexShim)):
                if k not in d:
                    saved.append((d, k, None, False))
                    d[k] = v
            # class level float arrays have to be able to hold proxies
            for c in list(d.values()):
                if isinstance(c, type) and c.__module__ == m.__name__:
                    for k, v in list(c.__dict__.items()):
                        if isinstance(v, _np.ndarray) and v.dtype.kind == "f":
                            saved.append((c, k, v, True))
                            setattr(c, k, sa(obj(v)))
        _active.append(saved)
        return self

    def __exit__(self, *exc):
        saved = _active.pop()
        if saved is None:
            return False
        _restore(saved)
        return False


def _restore(saved):
    for d, k, v, had in reversed(saved):
        if isinstance(d, type):
            setattr(d, k, v)
        elif had:
            d[k] = v
        else:
            d.pop(k, None)


class Suspended:
    """temporarily restores the real code"""

    def __enter__(self):
        self.stack = list(_active)
        self.was = [s for s in self.stack if s]
        for s in reversed(self.was):
            _restore(s)
        _active.clear()
        return self

    def __exit__(self, *exc):
        _active.clear()
        if self.was:
            with_ = Patched()
            with_.__enter__()
            for _ in range(len(self.stack) - 1):
                _active.append(None)
        return False


class NoPatch:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


# ---------------------------------------------------------------------------------------------- symbolify
def symbolify(o, _seen=None, _depth=0):
    """Converts the float arrays held by objects of the code under test (built concretely) into object arrays, in
    place, so that proxies can be stored in them.  No-op outside symbolic runs."""
    if core.CTX is None or not getattr(core.CTX, "symbolic", False):
        return o
    seen = _seen if _seen is not None else {}
    return _symb(o, seen, 0)


def _symb(o, seen, depth):
    if depth > 12:
        return o
    if isinstance(o, _np.ndarray):
        if o.dtype.kind == "f":
            if id(o) not in seen:
                seen[id(o)] = (o, sa(obj(o)))
            return seen[id(o)][1]
        return o
    if isinstance(o, (str, int, float, bool, type(None), type, Sym, SymBool)):
        return o
    if id(o) in seen:
        return seen[id(o)][1]
    if isinstance(o, dict):
        seen[id(o)] = (o, o)
        for k, v in list(o.items()):
            n = _symb(v, seen, depth + 1)
            if n is not v:
                o[k] = n
        return o
    if isinstance(o, list):
        seen[id(o)] = (o, o)
        for i, v in enumerate(o):
            n = _symb(v, seen, depth + 1)
            if n is not v:
                o[i] = n
        return o
    if isinstance(o, tuple):
        seen[id(o)] = (o, o)
        n = [_symb(v, seen, depth + 1) for v in o]
        if any(a is not b for a, b in zip(n, o)):
            n = tuple(n)
            seen[id(o)] = (o, n)
            return n
        return o
    mod = type(o).__module__ or ""
    if (mod.startswith(PREFIXES) or mod in EXTRA_MODULES) and hasattr(o, "__dict__"):
        seen[id(o)] = (o, o)
        for k, v in list(o.__dict__.items()):
            n = _symb(v, seen, depth + 1)
            if n is not v:
                o.__dict__[k] = n
        return o
    if callable(o) and hasattr(o, "__self__") and not isinstance(o, type):
        _symb(o.__self__, seen, depth + 1)
    return o
