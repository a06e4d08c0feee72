"""
Symbolic execution of ordinary Python/numpy code by proxy values.

A `Sym` stands for a real number.  It is kept as a sparse polynomial with rational coefficients over
*atoms*.  Atoms are input variables and the results of non-polynomial operations (division, sqrt,
sin/cos, clip/min/max, abs, mod, atan2 ...); every such atom carries defining constraints which are
handed to the SMT solver whenever the atom occurs in a query.  Comparisons give `SymBool`; asking a
`SymBool` for its truth value forks the execution (depth first, by re-execution along a decision
prefix), the solver deciding which branches are feasible.

`Engine.run(fn)` explores every feasible path of `fn(ctx)`.  Claims raised by `ctx.check/eq/le` are
decided by the solver for *all* values of the inputs on the path.  A counterexample is re-run with
plain floats on unpatched code (`ConcreteCtx`) and only reported if it reproduces there.
"""
import builtins
import math
import numbers
import os
import time
import traceback
from fractions import Fraction

from .zload import z3

import numpy as np


class Abort(BaseException):
    """Ends the current path (assumption failed / infeasible)."""


class Undecided(Exception):
    pass


# ------------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "name", "z", "kind", "pair", "square", "inv_of", "cons", "deps", "num", "lo", "hi", "isint", "info",
                 "consatoms", "den")

    def __init__(self, id_, name, kind, isint=False):
        self.id = id_
        self.name = name
        self.kind = kind
        self.isint = isint
        self.z = z3.Int(name) if isint else z3.Real(name)
        self.pair = None  # {other atom: Poly the product of the two rewrites to}
        self.square = None  # Poly this atom's square rewrites to
        self.inv_of = None  # atom id this atom is the reciprocal of
        self.cons = []  # defining z3 constraints
        self.consatoms = frozenset()  # atoms mentioned in the constraints
        self.deps = ()
        self.num = None  # function env -> float
        self.lo = None
        self.hi = None
        self.info = None
        self.den = None  # Poly this atom is the reciprocal of (quotients)


class Store:
    """Interned atoms (shared by all the paths of one harness)."""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.inverse = {}  # atom id -> inverse atom id
        self.zcache = {}
        self.ang_base = {}
        self.SQ3 = self.const("SQRT3", math.sqrt(3), square=3)
        self.SQ2 = self.const("SQRT2", math.sqrt(2), square=2)
        self.PI = self.const("PI", math.pi)

    def const(self, name, val, square=None):
        a = self.new(("const", name), name, "const")
        f = Fraction(val)
        eps = Fraction(1, 10**14)
        a.cons = [a.z > _q(f - eps), a.z < _q(f + eps)]
        if square is not None:
            a.square = Poly({(): Fraction(square)})
            a.cons.append(a.z * a.z == square)
        a.num = lambda env, v=val: v
        a.lo, a.hi = float(f - eps), float(f + eps)
        return a

    def new(self, key, name, kind, isint=False):
        if key in self.by_key:
            return self.by_key[key]
        n = f"{name}!{len(self.atoms)}" if kind != "var" else name
        a = Atom(len(self.atoms), n, kind, isint)
        self.atoms.append(a)
        self.by_key[key] = a
        return a

    def get(self, key):
        return self.by_key.get(key)


def _q(f):
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


STORE = None  # current Store
CTX = None  # current context


# ------------------------------------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "_key", "_hash")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._hash = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m)
            if n is None:
                t[m] = c
            else:
                n = n + c
                if n:
                    t[m] = n
                else:
                    del t[m]
        return Poly(t)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: k * c for m, k in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(Fraction(-1))

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mono_mul(m1, m2):
                    k = c1 * c2 * c
                    n = t.get(m)
                    if n is None:
                        if k:
                            t[m] = k
                    else:
                        n = n + k
                        if n:
                            t[m] = n
                        else:
                            del t[m]
        return Poly(t)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
_mm_cache = {}


def _mono_mul(m1, m2):
    """Product of two monomials -> list of (monomial, coeff), applying square and inverse rewrites."""
    if not m1:
        return ((m2, Fraction(1)),)
    if not m2:
        return ((m1, Fraction(1)),)
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # cancel inverses
    for a in list(d):
        at = STORE.atoms[a]
        if at.inv_of is not None and d.get(a, 0) and d.get(at.inv_of, 0):
            n = min(d[a], d[at.inv_of])
            d[a] -= n
            d[at.inv_of] -= n
    rew = []
    for a in list(d):
        if d[a] == 0:
            del d[a]
            continue
        at = STORE.atoms[a]
        if at.pair is not None:
            for b, q in at.pair.items():
                n = min(d[a], d.get(b, 0))
                if n:
                    rew.append((q, n))
                    d[a] -= n
                    d[b] -= n
            if d[a] == 0:
                del d[a]
                continue
        if at.square is not None and d[a] >= 2:
            rew.append((at.square, d[a] // 2))
            d[a] %= 2
            if d[a] == 0:
                del d[a]
    base = tuple(sorted((a, e) for a, e in d.items() if e))
    if not rew:
        r = ((base, Fraction(1)),)
    else:
        p = Poly({base: Fraction(1)})
        for sq, n in rew:
            for _ in range(n):
                p = p * sq
        r = tuple(p.t.items())
    _mm_cache[k] = r
    return r


def _reset_caches():
    _mm_cache.clear()
    _const_cache.clear()


_const_cache = {}
_SNAP = True


def const_poly(v):
    """Lift a concrete number.  A float that is (to the last bit or two) a rational with a small denominator, or such a
    rational times sqrt(3), sqrt(2) or pi, is read as that real number; any other float as its exact binary value."""
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return ONE if v else ZERO
    if isinstance(v, (int, np.integer)):
        return Poly({(): Fraction(int(v))}) if v else ZERO
    if isinstance(v, Fraction):
        return Poly({(): v}) if v else ZERO
    v = float(v)
    p = _const_cache.get(v)
    if p is not None:
        return p
    if v != v or v in (math.inf, -math.inf):
        raise OverflowError("non-finite constant in symbolic arithmetic")
    if v == 0:
        p = ZERO
    else:
        p = Poly({(): _snap(v)}) if _snap_ok(v) else None
        if p is None:
            for at, c in ((STORE.SQ3, math.sqrt(3)), (STORE.PI, math.pi), (STORE.SQ2, math.sqrt(2))):
                f = Fraction(v / c).limit_denominator(1000)
                if f and abs(float(f) * c - v) <= 4e-16 * abs(v):
                    p = Poly({((at.id, 1),): f})
                    break
        if p is None:
            p = Poly({(): Fraction(v)})
    _const_cache[v] = p
    return p


def _snap(v):
    return Fraction(v).limit_denominator(10**7)


def _snap_ok(v):
    f = Fraction(v).limit_denominator(10**7)
    if float(f) == v:
        return True
    return False


# ------------------------------------------------------------------------------------------------ intervals
def _imul(a, b):
    ps = [x * y for x in a for y in b if not (x in (math.inf, -math.inf) and y == 0 or y in (math.inf, -math.inf) and x == 0)]
    if len(ps) < 4:
        ps.append(0.0)
    return builtins.min(ps), builtins.max(ps)


def interval(p):
    lo = hi = 0.0
    for m, c in p.t.items():
        cf = float(c)
        iv = (cf, cf)
        for a, e in m:
            at = STORE.atoms[a]
            l = -math.inf if at.lo is None else at.lo
            h = math.inf if at.hi is None else at.hi
            if e % 2 == 0:
                mx = builtins.max(abs(l), abs(h))
                mn = 0.0 if l <= 0 <= h else builtins.min(abs(l), abs(h))
                try:
                    b = (mn**e, mx**e)
                except OverflowError:
                    b = (0.0, math.inf)
            else:
                try:
                    b = (l**e, h**e)
                except OverflowError:
                    b = (-math.inf, math.inf)
            iv = _imul(iv, b)
        lo += iv[0]
        hi += iv[1]
        if lo != lo or hi != hi:
            return -math.inf, math.inf
    g = 1e-12 * (abs(lo) + abs(hi)) if lo > -math.inf and hi < math.inf else 0.0
    return lo - g, hi + g


# ------------------------------------------------------------------------------------------------ z3 translation
def zpoly(p):
    k = p.key()
    r = STORE.zcache.get(k)
    if r is not None:
        return r
    terms = []
    for m, c in p.t.items():
        z = None
        for a, e in m:
            at = STORE.atoms[a]
            az = z3.ToReal(at.z) if at.isint else at.z
            for _ in range(e):
                z = az if z is None else z * az
        if z is None:
            terms.append(_q(c))
        elif c == 1:
            terms.append(z)
        else:
            terms.append(_q(c) * z)
    r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
    STORE.zcache[k] = r
    return r


def closure_constraints(atom_ids):
    seen = set()
    out = []
    todo = list(atom_ids)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        at = STORE.atoms[a]
        out.extend(at.cons)
        todo.extend(at.consatoms)
    return out, seen


# ------------------------------------------------------------------------------------------------ numeric evaluation
def num_atom(a, env):
    if a in env:
        return env[a]
    at = STORE.atoms[a]
    if at.num is None:
        if at.kind != "var":
            raise KeyError(at.name)
        # an input no constraint of the path mentions
        lo = at.hi if at.lo is None else at.lo
        hi = at.lo if at.hi is None else at.hi
        v = 0.0 if lo is None or (lo <= 0 <= hi) else (lo + hi) / 2
    else:
        v = at.num(env)
    env[a] = v
    return v


def num_poly(p, env):
    s = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            x *= num_atom(a, env) ** e
        s += x
    return s


# ------------------------------------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("z", "at", "key", "f")

    def __init__(self, z, at, key, f):
        self.z, self.at, self.key, self.f = z, at, key, f

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        o = tobool(o)
        if o is True or o is False:
            return self if o else False
        return SymBool(z3.And(self.z, o.z), self.at | o.at, ("and", self.key, o.key), lambda e: self.f(e) and o.f(e))

    __rand__ = __and__
    __mul__ = lambda self, o: asnum(self) * o
    __rmul__ = lambda self, o: asnum(self) * o
    __add__ = lambda self, o: asnum(self) + o
    __radd__ = lambda self, o: asnum(self) + o
    __sub__ = lambda self, o: asnum(self) - o
    __rsub__ = lambda self, o: o - asnum(self)
    __neg__ = lambda self: -asnum(self)

    def __or__(self, o):
        o = tobool(o)
        if o is True or o is False:
            return True if o else self
        return SymBool(z3.Or(self.z, o.z), self.at | o.at, ("or", self.key, o.key), lambda e: self.f(e) or o.f(e))

    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        if o is True or o is False:
            return ~self if o else self
        return SymBool(z3.Xor(self.z, o.z), self.at | o.at, ("xor", self.key, o.key), lambda e: self.f(e) != o.f(e))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z), self.at, ("not", self.key), lambda e: not self.f(e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (Sym, numbers.Number)) and not isinstance(o, (bool, np.bool_, SymBool)):
            return asnum(self) == o
        r = self ^ o
        return (~r) if isinstance(r, SymBool) else not r

    def __ne__(self, o):
        r = self == o
        return (~r) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self.key)

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __lt__(self, o):
        return asnum(self) < o

    def __le__(self, o):
        return asnum(self) <= o

    def __gt__(self, o):
        return asnum(self) > o

    def __ge__(self, o):
        return asnum(self) >= o

    def __repr__(self):
        return f"SymBool({self.z})"


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        r = x != 0
        return r
    return bool(x)


def asnum(b):
    if isinstance(b, SymBool):
        return ite(b, 1, 0)
    return b


def And(*xs):
    r = True
    for x in flat(xs):
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        r = x if r is True else (r & x)
    return r


def Or(*xs):
    r = False
    for x in flat(xs):
        x = tobool(x)
        if x is True:
            return True
        if x is False:
            continue
        r = x if r is False else (r | x)
    return r


def Not(x):
    x = tobool(x)
    return (not x) if isinstance(x, bool) else ~x


def Implies(a, b):
    return Or(Not(a), b)


def flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        elif isinstance(x, np.ndarray):
            yield from flat(x.ravel().tolist())
        else:
            yield x


def _cmp(p, op):
    """p op 0 -> bool or SymBool"""
    if p.is_const() or all(STORE.atoms[a].kind == "const" for a in p.atoms()):
        v = p.const_value() if p.is_const() else num_poly(p, {})
        if not p.is_const() and abs(v) < 1e-12:
            v = 0
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]
    lo, hi = interval(p)
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0 and lo > 0:
            return False
    elif op == "<=":
        if hi < 0:
            return True
        if lo > 0:
            return False
    elif op == "==":
        if hi < 0 or lo > 0:
            return False
    else:
        if hi < 0 or lo > 0:
            return True
    z = zpoly(p)
    zz = {"<": z < 0, "<=": z <= 0, "==": z == 0, "!=": z != 0}[op]
    f = {
        "<": lambda e: num_poly(p, e) < 0,
        "<=": lambda e: num_poly(p, e) <= 0,
        "==": lambda e: abs(num_poly(p, e)) <= 1e-9,
        "!=": lambda e: abs(num_poly(p, e)) > 1e-9,
    }[op]
    return SymBool(zz, frozenset(p.atoms()), (op, p.key()), f)


# ------------------------------------------------------------------------------------------------ numbers
def lift(o):
    """number/Sym -> Poly, or None"""
    if isinstance(o, Sym):
        return o.p
    if isinstance(o, SymBool):
        return asnum(o).p
    if isinstance(o, (int, float, Fraction, np.integer, np.floating, bool, np.bool_)):
        return const_poly(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return None


class Sym:
    __slots__ = ("p",)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    # --- arithmetic
    def __add__(self, o):
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, (float, np.ndarray, SymC)):
            return q if isinstance(q, float) else NotImplemented
        return Sym(self.p + q)

    __radd__ = __add__

    def __sub__(self, o):
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return -q
        return Sym(self.p - q)

    def __rsub__(self, o):
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return q
        return Sym(q - self.p)

    def __mul__(self, o):
        if isinstance(o, complex):
            return SymC(self, 0) * SymC(o.real, o.imag)
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return _infmul(self, q)
        return Sym(self.p * q)

    __rmul__ = __mul__

    def __neg__(self):
        return Sym(self.p.scale(Fraction(-1)))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return 0.0 if q == q else q
        return Sym(self.p * recip(q))

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return SymC(o.real, o.imag) / SymC(self, 0)
        q = _arith_operand(o)
        if q is None:
            return NotImplemented
        if isinstance(q, float):
            return _infmul(self, q)
        return Sym(q * recip(self.p))

    def __pow__(self, o):
        if isinstance(o, Sym) and o.p.is_const():
            o = o.p.const_value()
        if isinstance(o, (int, np.integer)) or (isinstance(o, (float, Fraction, np.floating)) and float(o).is_integer()):
            n = int(o)
            if n >= 0:
                r = ONE
                for _ in range(n):
                    r = r * self.p
                return Sym(r)
            return 1 / (self ** (-n))
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return self.sqrt()
        if isinstance(o, (float, np.floating)) and float(o) == -0.5:
            return 1 / self.sqrt()
        return float(self) ** float(o)

    def __rpow__(self, o):
        return float(o) ** float(self)

    def __abs__(self):
        lo, hi = interval(self.p)
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    fabs = absolute = __abs__

    def __mod__(self, o):
        return mod_(self, o)

    def __rmod__(self, o):
        return mod_(o, self)

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __divmod__(self, o):
        return self // o, self % o

    # --- comparisons
    def __lt__(self, o):
        return _compare(self, o, "<", False)

    def __gt__(self, o):
        return _compare(self, o, "<", True)

    def __le__(self, o):
        return _compare(self, o, "<=", False)

    def __ge__(self, o):
        return _compare(self, o, "<=", True)

    def __eq__(self, o):
        return _compare(self, o, "==", False)

    def __ne__(self, o):
        return _compare(self, o, "!=", False)

    def __hash__(self):
        if self.p.is_const():
            return hash(self.p.const_value())
        return hash(self.p.key())

    def __bool__(self):
        r = self != 0
        return bool(r)

    # --- conversions (concretising fallbacks)
    def __float__(self):
        if self.p.is_const():
            return float(self.p.const_value())
        if all(STORE.atoms[a].kind == "const" for a in self.p.atoms()):
            return num_poly(self.p, {})
        return float(CTX.concretise(self))

    def __int__(self):
        if self.p.is_const():
            return int(self.p.const_value())
        return CTX.enum_int(self)

    def __index__(self):
        if self.p.is_const():
            c = self.p.const_value()
            if c.denominator == 1:
                return int(c)
            raise TypeError("non-integer index")
        return CTX.enum_int(self)

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n:
            return round(float(self), n)
        return floor_(self + 0.5)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    floor = __floor__
    ceil = __ceil__

    def rint(self):
        return floor_(self + 0.5)

    # --- numpy object-ufunc hooks and scalar attribute look-alikes
    def sqrt(self):
        return sqrt_(self)

    def sin(self):
        return trig(self)[1]

    def cos(self):
        return trig(self)[0]

    def tan(self):
        c, s = trig(self)
        return s / c

    def arctan2(self, o):
        return atan2_(self, o)

    def hypot(self, o):
        return sqrt_(self * self + o * o)

    def square(self):
        return self * self

    def sign(self):
        return sign_(self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def exp(self):
        return math.exp(float(self))

    def log(self):
        return math.log(float(self))

    def tanh(self):
        return math.tanh(float(self))

    def arctan(self):
        return atan2_(self, 1)

    def arcsin(self):
        return math.asin(float(self))

    def arccos(self):
        return math.acos(float(self))

    def logical_not(self):
        return Not(self)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def __repr__(self):
        return f"Sym({show(self)})"

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Real.register(Sym)


def show(x):
    if isinstance(x, Sym):
        parts = []
        for m, c in list(x.p.t.items())[:6]:
            parts.append(f"{float(c):.6g}" + "".join(f"*{STORE.atoms[a].name}" + (f"^{e}" if e > 1 else "") for a, e in m))
        return " + ".join(parts) + (" + ..." if len(x.p.t) > 6 else "") if parts else "0"
    return repr(x)


class SymC:
    """Complex pair (only what code under test needs)."""

    __array_priority__ = 1000

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    @staticmethod
    def of(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, complex) or isinstance(o, np.complexfloating):
            return SymC(o.real, o.imag)
        if isinstance(o, (Sym, int, float, Fraction, np.integer, np.floating)):
            return SymC(o, 0)
        return None

    def __add__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymC.of(o)
        return NotImplemented if o is None else SymC(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return SymC.of(o) - self

    def __mul__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __neg__(self):
        return SymC(-self.real, -self.imag)

    def __truediv__(self, o):
        o = SymC.of(o)
        d = o.real * o.real + o.imag * o.imag
        n = self * SymC(o.real, -o.imag)
        return SymC(n.real / d, n.imag / d)

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __abs__(self):
        return norm_(self.real, self.imag)

    absolute = __abs__

    def conjugate(self):
        return SymC(self.real, -self.imag)

    conj = conjugate

    def angle(self):
        return atan2_(self.imag, self.real)


    def exp(self):
        c, s = trig(self.imag) if isinstance(self.imag, Sym) else (math.cos(self.imag), math.sin(self.imag))
        r = self.real
        if isinstance(r, Sym):
            if not (r.p.is_const() and r.p.const_value() == 0):
                raise TypeError("exp of a complex proxy with a real part")
            r = 0.0
        r = math.exp(r)
        return SymC(c * r, s * r)

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        r = self.real == o.real
        i = self.imag == o.imag
        return r & i

    __hash__ = None


def _complex_ops():
    def wrap(n):
        base = getattr(Sym, n)

        def f(self, o):
            r = base(self, o)
            if r is NotImplemented and isinstance(o, (complex, np.complexfloating)):
                return getattr(SymC(self, 0), n)(SymC.of(o))
            return r

        f.__name__ = n
        setattr(Sym, n, f)

    for n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
        wrap(n)


_complex_ops()


def _arith_operand(o):
    if isinstance(o, Sym):
        return o.p
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return _arith_operand(o.item())
        return None
    if isinstance(o, SymBool):
        return asnum(o).p
    if isinstance(o, (int, Fraction, np.integer, bool, np.bool_)):
        return const_poly(o)
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if o != o or o in (math.inf, -math.inf):
            return o
        return const_poly(o)
    return None


def _infmul(s, q):
    if q != q:
        return q
    # inf * Sym: sign decides
    if bool(s > 0):
        return q
    if bool(s < 0):
        return -q
    return math.nan


def _compare(a, o, op, swap):
    q = _arith_operand(o)
    if q is None:
        if isinstance(o, np.ndarray):
            return NotImplemented
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if isinstance(q, float):
        if q != q:
            return op == "!="
        if op == "==":
            return False
        if op == "!=":
            return True
        # a op inf
        r = q > 0
        return (not r) if swap else r
    d = a.p - q
    if swap:
        d = d.scale(Fraction(-1))
    return _cmp(d, op)


def var(name, lo=None, hi=None, isint=False):
    key = ("var", name)
    a = STORE.get(key)
    if a is None:
        a = STORE.new(key, name, "var", isint)
        a.lo = None if lo is None else float(lo)
        a.hi = None if hi is None else float(hi)
        if lo is not None:
            a.cons.append(a.z >= _q(const_frac(lo)))
        if hi is not None:
            a.cons.append(a.z <= _q(const_frac(hi)))
    return Sym(Poly({((a.id, 1),): Fraction(1)}))


def const_frac(v):
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    v = float(v)
    return _snap(v) if _snap_ok(v) else Fraction(v)


def _single_atom(p):
    """p == c * monomial with no constant -> (c, mono) else None"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, m
    return None


def _new_def(key, name, kind):
    a = STORE.get(key)
    if a is not None:
        return a, False
    return STORE.new(key, name, kind), True


def asym(a):
    return Sym(Poly({((a.id, 1),): Fraction(1)}))


def _inv_atom(aid):
    """reciprocal of an atom"""
    i = STORE.inverse.get(aid)
    if i is not None:
        return i
    at = STORE.atoms[aid]
    if at.inv_of is not None:
        return at.inv_of
    a = STORE.new(("inv", aid), f"inv_{at.name}", "inv")
    az = z3.ToReal(at.z) if at.isint else at.z
    a.cons = [z3.Implies(az != 0, a.z * az == 1)]
    a.consatoms = frozenset([aid])
    a.num = lambda env, x=aid: 1.0 / num_atom(x, env)
    a.inv_of = aid
    STORE.inverse[aid] = a.id
    if at.lo is not None and at.lo > 0:
        a.hi = 1.0 / at.lo * (1 + 1e-12)
        a.lo = 0.0 if at.hi is None else 1.0 / at.hi * (1 - 1e-12)
        a.cons.append(a.z > 0)
    return a.id


def clear_denominators(p, limit=60000):
    """(R, q) with |p| <= |R| / q, R free of quotient atoms and R == 0 only if p == 0; the multiplied denominators are
    not zero on the current path (every division forks on zero), q is a lower bound of the magnitude of their product
    (0: unknown).  None if that grows beyond the limit."""
    qmin = Fraction(1)
    while True:
        ds = [a for a in p.atoms() if STORE.atoms[a].den is not None or STORE.atoms[a].inv_of is not None]
        if not ds:
            return p, qmin
        a = builtins.max(ds)
        at = STORE.atoms[a]
        q = at.den if at.den is not None else Poly({((at.inv_of, 1),): Fraction(1)})

        def clear(x, k):
            out = {}
            pw = [ONE]
            for _ in range(k):
                pw.append(pw[-1] * q)
            by = {}
            for m, c in x.t.items():
                e = dict(m).get(a, 0)
                by.setdefault(e, {})[tuple(y for y in m if y[0] != a)] = c
            r = ZERO
            for e, t in by.items():
                if len(t) * len(pw[k - e].t) > limit:
                    return None
                r = r + Poly(t) * pw[k - e]
            return r

        def deg(x):
            return builtins.max([dict(m).get(a, 0) for m in x.t] or [0])

        k = deg(p)
        p = clear(p, k)
        if p is None or len(p.t) > limit:
            return None
        lo, hi = interval(q)
        m = lo if lo > 0 else -hi if hi < 0 else 0
        qmin = qmin * Fraction(m) ** k


def recip(q):
    """Poly of 1/q.  Forks on q == 0 (ZeroDivisionError on that branch, as for Python floats)."""
    if q.is_const():
        c = q.const_value()
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        return Poly({(): 1 / c})
    z = _cmp(q, "==")
    if z is True or (z is not False and bool(z)):
        raise ZeroDivisionError("float division by zero")
    sa = _single_atom(q)
    if sa is not None:
        c, m = sa
        r = Poly({(): 1 / c})
        for a, e in m:
            at = STORE.atoms[a]
            if at.square is not None and at.kind == "const":
                # 1/sqrt(3) = sqrt(3)/3
                r = r * Poly({((a, 1),): Fraction(1) / at.square.const_value()})
                continue
            ia = _inv_atom(a)
            for _ in range(e):
                r = r * Poly({((ia, 1),): Fraction(1)})
        return r
    # general polynomial: normalise by leading coefficient
    lead = builtins.min(q.t)
    c = q.t[lead]
    qn = q.scale(1 / c)
    a, fresh = _new_def(("quot", qn.key()), "quot", "inv")
    if fresh:
        a.den = qn
        zq = zpoly(qn)
        a.cons = [z3.Implies(zq != 0, a.z * zq == 1)]
        a.consatoms = frozenset(qn.atoms())
        a.num = lambda env: 1.0 / num_poly(qn, env)
        lo, hi = interval(qn)
        if lo > 0:
            a.lo = 0.0 if hi == math.inf else 1 / hi * (1 - 1e-12)
            a.hi = 1 / lo * (1 + 1e-12)
    return Poly({((a.id, 1),): 1 / c})


def norm_(x, y):
    """sqrt(x^2 + y^2)"""
    return sqrt_(x * x + y * y, True)


def sqrt_(x, nonneg=False):
    p = lift(x)
    if p.is_const():
        v = p.const_value()
        if v < 0:
            raise ValueError("sqrt of a negative number")
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Sym(const_poly(Fraction(n, d)))
        return Sym(const_poly(math.sqrt(v)))
    neg = False if nonneg else _cmp(p, "<")
    if neg is not False and (neg is True or bool(neg)):
        # numpy: nan with a warning
        return math.nan
    # pull out a perfect-square monomial factor: sqrt(c*m^2)
    sa = _single_atom(p)
    if sa is not None:
        c, m = sa
        if all(e % 2 == 0 for _, e in m):
            r = sqrt_(Sym(Poly({(): c})))
            for a, e in m:
                for _ in range(e // 2):
                    r = r * asym(STORE.atoms[a])
            return abs(r) if isinstance(r, Sym) else r
    a, fresh = _new_def(("sqrt", p.key()), "sqrt", "sqrt")
    if fresh:
        a.cons = [a.z >= 0, a.z * a.z == zpoly(p)]
        a.consatoms = frozenset(p.atoms())
        a.square = p
        a.num = lambda env: math.sqrt(builtins.max(num_poly(p, env), 0.0))
        lo, hi = interval(p)
        a.lo = math.sqrt(builtins.max(lo, 0.0)) * (1 - 1e-12)
        a.hi = math.sqrt(hi) * (1 + 1e-12) if hi < math.inf else None
    return asym(a)


def ite(c, x, y):
    c = tobool(c)
    if c is True:
        return x
    if c is False:
        return y
    px, py = lift(x), lift(y)
    if px is None or py is None:
        return x if bool(c) else y
    if px.key() == py.key():
        return Sym(px)
    a, fresh = _new_def(("ite", c.key, px.key(), py.key()), "ite", "ite")
    if fresh:
        a.cons = [a.z == z3.If(c.z, zpoly(px), zpoly(py))]
        a.consatoms = frozenset(c.at | px.atoms() | py.atoms())
        a.num = lambda env: num_poly(px, env) if c.f(env) else num_poly(py, env)
        l1, h1 = interval(px)
        l2, h2 = interval(py)
        lo, hi = builtins.min(l1, l2), builtins.max(h1, h2)
        # |x|-like and clip-like patterns get their exact bound from the solver, this is just the coarse hull
        a.lo = None if lo == -math.inf else lo
        a.hi = None if hi == math.inf else hi
        a.info = (c, px, py)
    return asym(a)


def min2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a <= b else b
    r = b < a if isinstance(b, Sym) else a > b
    return ite(r, b, a)


def max2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if a >= b else b
    r = b > a if isinstance(b, Sym) else a < b
    return ite(r, b, a)


def clip_(x, lo, hi):
    r = x
    if isinstance(lo, (float, np.floating)) and lo == -math.inf:
        lo = None
    if isinstance(hi, (float, np.floating)) and hi == math.inf:
        hi = None
    if lo is not None:
        r = max2(r, lo)
        if isinstance(r, Sym):
            _tighten(r, lo=lo)
    if hi is not None:
        r0 = r
        r = min2(r, hi)
        if isinstance(r, Sym):
            _tighten(r, hi=hi)
            if lo is not None and isinstance(r0, Sym):
                pass
    return r


def _tighten(r, lo=None, hi=None):
    sa = _single_atom(r.p)
    if not sa or sa[0] != 1 or len(sa[1]) != 1 or sa[1][0][1] != 1:
        return
    a = STORE.atoms[sa[1][0][0]]
    if a.kind != "ite":
        return
    if lo is not None:
        pl = lift(lo)
        if pl is not None:
            l, _ = interval(pl)
            if l > -math.inf and (a.lo is None or a.lo < l):
                a.lo = l
    if hi is not None:
        ph = lift(hi)
        if ph is not None:
            _, h = interval(ph)
            if h < math.inf and (a.hi is None or a.hi > h):
                a.hi = h


def sign_(x):
    if not isinstance(x, Sym):
        return float(np.sign(x))
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def floor_(x):
    p = lift(x)
    if p.is_const():
        return math.floor(p.const_value())
    if all(STORE.atoms[a].kind == "const" for a in p.atoms()):
        return math.floor(num_poly(p, {}))
    a, fresh = _new_def(("floor", p.key()), "floor", "floor")
    if fresh:
        k = STORE.new(("floorI", p.key()), "floorI", "floorI", isint=True)
        zp = zpoly(p)
        k.cons = [z3.ToReal(k.z) <= zp, zp < z3.ToReal(k.z) + 1]
        k.consatoms = frozenset(p.atoms())
        k.num = lambda env: float(math.floor(num_poly(p, env)))
        lo, hi = interval(p)
        k.lo = None if lo == -math.inf else math.floor(lo)
        k.hi = None if hi == math.inf else math.floor(hi)
        a.info = k
    return asym(STORE.get(("floorI", p.key())))


def mod_(x, m):
    if isinstance(m, Sym) and not (m.p.is_const() or all(STORE.atoms[a].kind == "const" for a in m.p.atoms())):
        m = float(m)
    k = floor_(x / m)
    return x - m * k


# ---- trigonometry
def trig(x):
    """(cos, sin) of a Sym."""
    p = lift(x)
    pi_id = STORE.PI.id
    c_acc, s_acc = Sym(ONE), Sym(ZERO)
    const_pi = Fraction(0)
    rest = []
    for m, c in p.t.items():
        if m == ((pi_id, 1),):
            const_pi += c
        elif len(m) == 2 and any(a == pi_id and e == 1 for a, e in m) and c % 2 == 0 and all(
            STORE.atoms[a].isint for a, e in m if a != pi_id
        ):
            continue  # 2*pi*k
        else:
            rest.append((m, c))
    parts = []
    if const_pi:
        parts.append(_const_trig(const_pi))
    for m, c in sorted(rest, key=lambda t: str(t[0])):
        parts.append(_mono_trig(m, c))
    for cc, ss in parts:
        c_acc, s_acc = c_acc * cc - s_acc * ss, s_acc * cc + c_acc * ss
    return c_acc, s_acc


def _const_trig(f):
    """cos/sin of f*pi"""
    g = (f * 12) % 24
    tab = {0: (1, 0), 6: (0, 1), 12: (-1, 0), 18: (0, -1)}
    sq3 = asym(STORE.SQ3) * Fraction(1, 2)
    sq2 = asym(STORE.SQ2) * Fraction(1, 2)
    h = Fraction(1, 2)
    tab.update({2: (sq3, h), 4: (h, sq3), 8: (-h, sq3), 10: (-sq3, h), 14: (-sq3, -h), 16: (-h, -sq3), 20: (h, -sq3),
                22: (sq3, -h), 3: (sq2, sq2), 9: (-sq2, sq2), 15: (-sq2, -sq2), 21: (sq2, -sq2)})
    if g in tab:
        c, s = tab[g]
        return Sym(lift(c)), Sym(lift(s))
    v = float(f) * math.pi
    return Sym(const_poly(math.cos(v))), Sym(const_poly(math.sin(v)))


def _mono_trig(m, c):
    if m == ():
        v = float(c)
        # constant (non multiple of pi) angle: approximate reals, error < 1e-15
        return Sym(Poly({(): Fraction(math.cos(v))})), Sym(Poly({(): Fraction(math.sin(v))}))
    # an angle produced by atan2 has exact cos/sin
    base = STORE.ang_base.get(m)
    if base is None:
        base = abs(c)
        STORE.ang_base[m] = base
    n = c / base
    if n.denominator != 1 and abs(n - round(n)) <= abs(n) * Fraction(1, 10**12):
        n = Fraction(round(n))  # the same multiple up to the rounding of float coefficients
    if n.denominator != 1 or n == 0 or abs(n) > 12:
        # incommensurable with the first use: its own atoms
        base = abs(c)
        n = Fraction(1 if c > 0 else -1)
    cb, sb = _base_trig(m, base)
    k = abs(int(n))
    cc, ss = Sym(ONE), Sym(ZERO)
    for _ in range(k):
        cc, ss = cc * cb - ss * sb, ss * cb + cc * sb
    if n < 0:
        ss = -ss
    return cc, ss


def _base_trig(m, base):
    if base == 1 and len(m) == 1 and m[0][1] == 1 and STORE.atoms[m[0][0]].kind == "atan2":
        return STORE.atoms[m[0][0]].info
    ca, fresh = _new_def(("cos", m, base), "cos", "cos")
    sa, _ = _new_def(("sin", m, base), "sin", "sin")
    if fresh:
        con = [ca.z * ca.z + sa.z * sa.z == 1, ca.z <= 1, ca.z >= -1, sa.z <= 1, sa.z >= -1]
        ca.cons = con
        sa.cons = con
        ca.consatoms = frozenset([sa.id])
        sa.consatoms = frozenset([ca.id])
        sa.square = ONE - Poly({((ca.id, 2),): Fraction(1)})
        ca.lo = sa.lo = -1.0
        ca.hi = sa.hi = 1.0
        arg = Poly({m: base})
        ca.num = lambda env: math.cos(num_poly(arg, env))
        sa.num = lambda env: math.sin(num_poly(arg, env))
        ca.info = arg
        sa.info = arg
    return asym(ca), asym(sa)


def atan2_(y, x):
    py, px = lift(y), lift(x)
    if py.is_const() and px.is_const():
        return math.atan2(float(py.const_value()), float(px.const_value()))
    a, fresh = _new_def(("atan2", py.key(), px.key()), "atan2", "atan2")
    if fresh:
        yy, xx = Sym(py), Sym(px)
        r = norm_(xx, yy)
        # cos/sin of the angle; r == 0 gives angle 0
        ca = STORE.new(("atc", py.key(), px.key()), "atc", "cos")
        sa = STORE.new(("ats", py.key(), px.key()), "ats", "sin")
        zr, zx, zy = zpoly(lift(r)), zpoly(px), zpoly(py)
        con = [
            ca.z * ca.z + sa.z * sa.z == 1,
            zr * ca.z == zx,
            zr * sa.z == zy,
            z3.Implies(zr == 0, z3.And(ca.z == 1, sa.z == 0)),
        ]
        dep = frozenset(lift(r).atoms() | px.atoms() | py.atoms())
        ca.cons = con
        sa.cons = con
        rp = _single_atom(lift(r))
        if rp is not None and rp[0] == 1 and len(rp[1]) == 1 and rp[1][0][1] == 1:
            # r cos = x, r sin = y
            ca.pair = {rp[1][0][0]: px}
            sa.pair = {rp[1][0][0]: py}
        ca.consatoms = dep | {sa.id}
        sa.consatoms = dep | {ca.id}
        sa.square = ONE - Poly({((ca.id, 2),): Fraction(1)})
        ca.lo = sa.lo = -1.0
        ca.hi = sa.hi = 1.0
        f = lambda env: math.atan2(num_poly(py, env), num_poly(px, env))
        ca.num = lambda env: math.cos(f(env))
        sa.num = lambda env: math.sin(f(env))
        a.num = f
        pz = STORE.PI.z
        a.cons = [
            a.z <= pz,
            a.z > -pz,
            z3.Implies(zy > 0, a.z > 0),
            z3.Implies(zy < 0, a.z < 0),
            z3.Implies(z3.And(zy == 0, zx >= 0), a.z == 0),
            z3.Implies(z3.And(zy == 0, zx < 0), a.z == pz),
        ]
        a.consatoms = frozenset(px.atoms() | py.atoms() | {STORE.PI.id})
        a.lo, a.hi = -3.15, 3.15
        a.info = (asym(ca), asym(sa))
    return asym(a)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e, depth + 1) for e in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    return False
