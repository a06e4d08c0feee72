"""Path exploration, solver queries, counterexample replay."""
import builtins
import json
import math
import os
import random
import re
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, SymC, Abort, z3, lift, interval, num_poly, tobool, closure_constraints
from . import shim

FEAS_TIMEOUT = 1500
QUERY_TIMEOUT = 20000


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label = label
        self.detail = detail


class PathBudget(Exception):
    pass


def _fr(v):
    return Fraction(v)


class CtxBase:
    symbolic = False

    def bool(self, name):
        return self.choice(name, [False, True])


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.trace = []
        self.cons = []  # (z3, atoms)
        self.known = {}
        self.inputs = {}
        self.obs = []
        self.nchecks = 0
        self.assumed = []
        self.viol = None
        self.concretised = 0

    # ------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None):
        self.inputs[name] = ("real", lo, hi)
        return core.var(name, lo, hi)

    def reals(self, name, n, lo=None, hi=None):
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = self.real(f"{name}{i}", lo, hi)
        return a

    def int(self, name, lo, hi):
        """an integer in lo..hi, enumerated by forking (the solver decides which values are feasible)"""
        self.inputs[name] = ("int", lo, hi)
        v = core.var(name, lo, hi, isint=True)
        return self.enum_int(v, lo, hi)

    def symint(self, name, lo, hi):
        self.inputs[name] = ("int", lo, hi)
        return core.var(name, lo, hi, isint=True)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def array(self, xs):
        if any(isinstance(x, (list, tuple, np.ndarray)) for x in xs):
            a = np.array([list(self.array(x)) for x in xs], dtype=object)
        else:
            a = np.empty(len(xs), dtype=object)
            for i, x in enumerate(xs):
                a[i] = x
        return a.view(shim.SA)

    # ------------------------------------------------ path condition
    def _add(self, b):
        self.cons.append((b.z, b.at))
        self.known[b.key] = True
        self.known[("not", b.key)] = False

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise Abort()
        self._add(c)
        self.eng.stats["assumes"] += 1
        # feasibility of the assumption itself is confirmed by the reachability query at the path end

    def branch(self, b):
        k = self.known.get(b.key)
        if k is not None:
            return k
        if isinstance(b.key, tuple) and b.key[0] == "not":
            k = self.known.get(b.key[1])
            if k is not None:
                return not k
        i = len(self.trace)
        nb = ~b
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self._take(b, nb, d)
            return d
        if i > self.eng.max_depth:
            raise PathBudget(f"more than {self.eng.max_depth} branch decisions on one path")
        self.eng.stats["branches"] += 1
        ft = self.eng.feasible(self, b)
        if ft:
            ff = self.eng.feasible(self, nb)
            if ff:
                self.eng.todo.append(list(self.trace) + [False])
                self.eng.stats["forks"] += 1
            d = True
        else:
            d = False
        self.trace.append(d)
        self._take(b, nb, d)
        return d

    def _take(self, b, nb, d):
        x = b if d else nb
        self.cons.append((x.z, x.at))
        self.known[b.key] = d
        if isinstance(b.key, tuple) and b.key[0] == "not":
            self.known[b.key[1]] = not d

    def concretise(self, s):
        """Fallback: continue with one solver-chosen value of an expression (counted; the claim shrinks to it)."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            env = self.eng.model_env(self, [])
            if env is None:
                raise Abort()
            v = num_poly(s.p, dict(env))
            self.eng.stats["concretisations"] += 1
            fr = traceback.extract_stack(limit=8)
            self.eng.notes.add(
                "concretised at " + "/".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in fr[:-2][-3:])
            )
        self.trace.append(v)
        self.concretised += 1
        fv = Fraction(v)
        z = core.zpoly(s.p)
        tol = Fraction(1, 10**9)
        self.cons.append((z3.And(z <= core._q(fv + tol), z >= core._q(fv - tol)), frozenset(s.p.atoms())))
        return v

    def enum_int(self, s, lo=None, hi=None):
        if lo is None:
            l, h = interval(s.p)
            if not (h - l <= 64):
                return int(math.trunc(self.concretise(s)))
            lo, hi = math.ceil(l), math.floor(h)
        if s.p.atoms() and not all(core.STORE.atoms[a].isint for a in s.p.atoms()):
            # int(real): truncation
            t = core.ite(s >= 0, core.floor_(s), -core.floor_(-s))
            s = t if isinstance(t, Sym) else Sym(core.const_poly(t))
            if s.p.is_const():
                return int(s.p.const_value())
        for v in range(lo, hi):
            if bool(s == v):
                return v
        return hi

    def _nested(self, label):
        """self test (SYMEX_NEST=1): a concrete run started in the middle of a symbolic one must be clean"""
        if NEST and self.nchecks in (1, 6, 40) and len(self.eng.nested) < 6:
            c, exc = self.eng.concrete({})
            self.eng.nested.append(1)
            if (exc and exc != "abort") or self.eng._unlisted(c.fails):
                print("NESTED RUN:", label, exc, c.fails[:1], flush=True)

    # ------------------------------------------------ claims
    def observe(self, label, *vals):
        for v in vals:
            for x in core.flat([v]):
                self.obs.append((label, x))

    def check(self, cond, label, detail="", strict=None):
        """claim: cond holds for every input on this path. `strict`: stronger negation used for replayable models"""
        self.nchecks += 1
        self._nested(label)
        self.eng.stats["claims"] += 1
        c = tobool(cond)
        if c is True:
            self.eng.discharged_trivially(label)
            return
        neg = core.Not(c)
        self.eng.decide(self, neg, label, detail, strict)

    def eq(self, a, b, label, tol=1e-7):
        la = list(core.flat([a]))
        lb = list(core.flat([b]))
        if len(la) != len(lb):
            if len(lb) == 1:
                lb = lb * len(la)
            elif len(la) == 1:
                la = la * len(lb)
            else:
                self.check(False, label, f"different sizes {len(la)} and {len(lb)}")
                return
        for i, (x, y) in enumerate(zip(la, lb)):
            self.obs.append((label, x))
            self.obs.append((label, y))
            lab = label if len(la) == 1 else f"{label}[{i}]"
            if not isinstance(x, (Sym, SymBool)) and not isinstance(y, (Sym, SymBool)):
                ok = (x == y) or (isnum(x) and isnum(y) and (abs(x - y) <= tol or (x != x and y != y)))
                self.check(bool(ok), lab, f"{x!r} vs {y!r}")
                continue
            if not isnum(x) or not isnum(y) or isbad(x) or isbad(y):
                self.check(False, lab, f"{x!r} vs {y!r}")
                continue
            d = core.lift(x) - core.lift(y)
            self.nchecks += 1
            self._nested(lab)
            self.eng.stats["claims"] += 1
            if self.eng.linear_relaxation_zero(d, tol, lab):
                continue
            D = Sym(d)
            neg = core.Or(D > tol, D < -tol)
            if neg is False:
                self.eng.discharged_trivially(lab)
                continue
            strict = [core.Or(D > m, D < -m) for m in _margins(tol)]
            if neg is True:
                neg = None
            self.eng.decide(self, neg, lab, "", strict)

    def le(self, a, b, label, slack=1e-7):
        la = list(core.flat([a]))
        lb = list(core.flat([b]))
        if len(lb) == 1:
            lb = lb * len(la)
        if len(la) == 1:
            la = la * len(lb)
        if len(la) != len(lb):
            self.check(False, label, "different sizes")
            return
        for i, (x, y) in enumerate(zip(la, lb)):
            self.obs.append((label, x))
            self.obs.append((label, y))
            lab = label if len(la) == 1 else f"{label}[{i}]"
            if not isnum(x) or not isnum(y) or x is None or isnan(x) or isnan(y):
                self.check(False, lab, f"{x!r} <= {y!r}")
                continue
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                self.check(bool(x <= y + slack), lab, f"{x!r} <= {y!r}")
                continue
            if isbad(x) or isbad(y):
                self.check(bool(x <= y), lab, f"{x!r} <= {y!r}")
                continue
            D = Sym(core.lift(x) - core.lift(y))
            self.nchecks += 1
            self.eng.stats["claims"] += 1
            neg = D > slack
            if neg is False:
                self.eng.discharged_trivially(lab)
                continue
            strict = [D > m for m in _margins(slack)]
            self.eng.decide(self, None if neg is True else neg, lab, "", strict)

    def same(self, a, b, label):
        """exact structural/concrete equality of non-numeric things"""
        self.check(a == b, label, f"{a!r} vs {b!r}")

    def patch(self):
        return shim.Patched()


NEST = bool(os.environ.get("SYMEX_NEST"))


def _margins(tol):
    """by how much a replayable model should violate a claim, tried in this order"""
    m = [max(1e-2, 100 * tol), max(1e-4, 10 * tol)]
    return m + [100 * tol] if 100 * tol < 1e-4 else m


def isnum(x):
    return isinstance(x, (Sym, SymBool, int, float, Fraction, np.integer, np.floating, bool, np.bool_))


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def isbad(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class Leak(BaseException):
    """a proxy value reached a run on plain floats: a fault of a harness, nothing is concluded from such a run"""


class ConcreteCtx(CtxBase):
    """The same harness on plain floats and unpatched code."""

    def __getattr__(self, name):
        if name in ("concretise", "enum_int", "branch"):
            raise Leak(name)
        raise AttributeError(name)

    def __init__(self, env, tolscale=0.5):
        self.env = env
        self.obs = []
        self.fails = []
        self.ts = tolscale
        self.nchecks = 0
        self.used = {}

    def real(self, name, lo=None, hi=None):
        if name in self.env:
            v = float(self.env[name])
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
        else:
            l = -1.0 if lo is None else float(lo)
            h = (l + 2.0) if hi is None else float(hi)
            v = l + 0.37 * (h - l)
        self.used[name] = v
        return v

    def reals(self, name, n, lo=None, hi=None):
        return np.array([self.real(f"{name}{i}", lo, hi) for i in range(n)], dtype=float)

    def int(self, name, lo, hi):
        v = int(round(float(self.env.get(name, lo))))
        v = max(lo, min(hi, v))
        self.used[name] = v
        return v

    symint = int

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def array(self, xs):
        return np.array(xs, dtype=float)

    def assume(self, c):
        if not bool(c):
            raise Abort()

    def observe(self, label, *vals):
        for v in vals:
            for x in core.flat([v]):
                self.obs.append((label, x))

    def fail(self, label, detail):
        self.fails.append((label, str(detail)))

    def check(self, cond, label, detail="", strict=None):
        self.nchecks += 1
        if not bool(cond):
            self.fail(label, detail)

    def eq(self, a, b, label, tol=1e-7):
        la = list(core.flat([a]))
        lb = list(core.flat([b]))
        if len(la) != len(lb):
            if len(lb) == 1:
                lb = lb * len(la)
            elif len(la) == 1:
                la = la * len(lb)
            else:
                self.fail(label, f"different sizes {len(la)} and {len(lb)}")
                return
        for i, (x, y) in enumerate(zip(la, lb)):
            self.nchecks += 1
            self.obs.append((label, x))
            self.obs.append((label, y))
            lab = label if len(la) == 1 else f"{label}[{i}]"
            if x is None or y is None or not isnum(x) or not isnum(y):
                if not (x is y or x == y):
                    self.fail(lab, f"{x!r} vs {y!r}")
                continue
            x, y = float(x), float(y)
            if x == y or (x != x and y != y):
                continue
            if not abs(x - y) <= tol * self.ts:
                self.fail(lab, f"{x!r} vs {y!r}")

    def le(self, a, b, label, slack=1e-7):
        la = list(core.flat([a]))
        lb = list(core.flat([b]))
        if len(lb) == 1:
            lb = lb * len(la)
        if len(la) == 1:
            la = la * len(lb)
        if len(la) != len(lb):
            self.fail(label, "different sizes")
            return
        for i, (x, y) in enumerate(zip(la, lb)):
            self.nchecks += 1
            self.obs.append((label, x))
            self.obs.append((label, y))
            lab = label if len(la) == 1 else f"{label}[{i}]"
            if not isnum(x) or not isnum(y):
                self.fail(lab, f"{x!r} <= {y!r}")
                continue
            if not float(x) <= float(y) + slack * self.ts:
                self.fail(lab, f"{float(x)!r} <= {float(y)!r}")

    def same(self, a, b, label):
        self.check(a == b, label, f"{a!r} vs {b!r}")

    def patch(self):
        return shim.NoPatch()


class Engine:
    """Explores one harness case."""

    def __init__(self, seed=1, max_paths=4000, max_depth=400, budget_s=600.0, validate=2, query_timeout=QUERY_TIMEOUT):
        self.seed = seed
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.budget_s = budget_s
        self.validate = validate
        self.query_timeout = query_timeout
        self.stats = dict(
            paths=0, aborted=0, branches=0, forks=0, queries=0, claims=0, discharged=0, trivially=0, relaxed=0,
            feasibility_queries=0, reach_sat=0, reach_unknown=0, assumes=0, concretisations=0, solver_s=0.0,
            validated=0, mismatched=0, degraded=0, cut_div0=0, unknown_feas=0,
        )
        self.notes = set()
        self.violations = []  # dicts
        self.undecided = []
        self.todo = []
        self.samples = []
        self.known = []
        self.known_hits = []
        self.nested = []

    # ------------------------------------------------ solver plumbing
    def _solve(self, zs, timeout, nra=True, seed=0):
        t0 = time.time()
        s = z3.SolverFor("QF_NRA") if nra else z3.Solver()
        s.set("timeout", int(timeout))
        for z in zs:
            s.add(z)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats["solver_s"] += time.time() - t0
        if os.environ.get("SYMEX_SLOW") and time.time() - t0 > float(os.environ["SYMEX_SLOW"]):
            print("SLOW", round(time.time() - t0, 1), r, timeout, flush=True)
        m = s.model() if r == z3.sat else None
        return r, m

    def _gather(self, ctx, extra):
        at = set()
        zs = []
        items = list(ctx.cons) + list(extra)
        for z, a in items:
            zs.append(z)
            at |= a
        cons, allat = closure_constraints(at)
        seen = set()
        out = []
        for c in cons:
            i = c.get_id()
            if i not in seen:
                seen.add(i)
                out.append(c)
        isint = any(core.STORE.atoms[a].isint for a in allat)
        return out + zs, allat, isint

    def _relevant(self, ctx, extra):
        """Cone of influence: only path constraints sharing atoms (transitively) with the query. Dropping the others
        is sound for unsat; for sat the full path is used."""
        at = set()
        for z, a in extra:
            at |= a
        _, cl = closure_constraints(at)
        cl = set(cl)
        items = [(z, a, closure_constraints(a)[1]) for z, a in ctx.cons]
        used = [False] * len(items)
        changed = True
        while changed:
            changed = False
            for i, (z, a, c) in enumerate(items):
                if not used[i] and (c & cl - core_const()):
                    used[i] = True
                    cl |= c
                    changed = True
        sub = [(z, a) for (z, a, c), u in zip(items, used) if u]
        return sub

    def feasible(self, ctx, b):
        self.stats["feasibility_queries"] += 1
        extra = [(b.z, b.at)]
        sub = self._relevant(ctx, extra)
        fake = _Cons(sub)
        zs, at, isint = self._gather(fake, extra)
        r, m = self._solve(zs, FEAS_TIMEOUT, nra=not isint)
        if r == z3.unknown:
            r, m = self._solve(zs, FEAS_TIMEOUT, nra=isint)
        if r == z3.unknown:
            self.stats["unknown_feas"] += 1
            return True
        return r == z3.sat

    def discharged_trivially(self, label):
        self.stats["trivially"] += 1
        self.stats["discharged"] += 1

    def linear_relaxation_zero(self, d, tol, label):
        if self._linear_relaxation_zero(d, tol):
            return True
        if not any(core.STORE.atoms[a].den is not None for a in d.atoms()):
            return False
        # p = R / Q with Q != 0: |p| <= tol  <=>  |R| <= tol |Q|
        rq = core.clear_denominators(d)
        if rq is None:
            return False
        R, q = rq
        if not R.t:
            return self._linear_relaxation_zero(R, tol)
        return q > 0 and self._linear_relaxation_zero(R, Fraction(tol) * Fraction(q))

    def _linear_relaxation_zero(self, d, tol):
        """|d| <= tol by the linear relaxation in which every monomial is an independent variable within its
        interval; decided by the solver (LRA)."""
        if d.is_const():
            v = abs(d.const_value())
            if v > Fraction(tol):
                return False
        iv = []
        for m, c in d.t.items():
            if m == ():
                iv.append((c, None, None))
                continue
            lo, hi = interval(core.Poly({m: Fraction(1)}))
            if lo == -math.inf or hi == math.inf:
                return False
            iv.append((c, lo, hi))
        # quick numeric screen to avoid building hopeless queries
        mx = sum(abs(float(c)) * (1 if l is None else max(abs(l), abs(h))) for c, l, h in iv)
        if mx > 10 * tol:
            return False
        t0 = time.time()
        s = z3.Solver()
        terms = []
        for i, (c, l, h) in enumerate(iv):
            if l is None:
                terms.append(core._q(c))
            else:
                v = z3.Real(f"m{i}")
                s.add(v >= core._q(Fraction(l)), v <= core._q(Fraction(h)))
                terms.append(core._q(c) * v)
        e = z3.Sum(terms) if terms else z3.RealVal(0)
        s.add(z3.Or(e > core._q(Fraction(tol)), e < -core._q(Fraction(tol))))
        r = s.check()
        self.stats["solver_s"] += time.time() - t0
        self.stats["queries"] += 1
        if r == z3.unsat:
            self.stats["discharged"] += 1
            self.stats["relaxed"] += 1
            return True
        return False

    def decide(self, ctx, neg, label, detail, strict=None):
        """neg: negated claim (SymBool/bool/None=always violated)."""
        if neg is None or neg is True:
            extra = []
        else:
            extra = [(neg.z, neg.at)]
        self.stats["queries"] += 1
        res = z3.unknown
        if extra:
            sub = self._relevant(ctx, extra)
            zs, at, isint = self._gather(_Cons(sub), extra)
            for nra, to in ((not isint, self.query_timeout / 4), (isint, self.query_timeout / 4), (not isint, self.query_timeout)):
                res, m = self._solve(zs, to, nra=nra)
                if res != z3.unknown:
                    break
            if res == z3.unsat:
                self.stats["discharged"] += 1
                return
        # sat or unknown: look for a model of the full path + negated claim that replays
        got = self.find_counterexample(ctx, extra, strict, label, detail)
        if got == "unsat":
            self.stats["discharged"] += 1
            return
        if got is None:
            self.undecided.append(dict(label=label, solver=str(res)))
            return
        for k in self.known:
            if re.fullmatch(k["label"], label):
                self.known_hits.append(dict(id=k["id"], text=k["text"]))
                return
        self.violations.append(got)
        raise Abort()

    def model_env(self, ctx, extra, timeout=None, fixed=None):
        """env of input-variable floats for path+extra, or None / 'unknown'"""
        zs, at, isint = self._gather(ctx, extra)
        if fixed:
            zs = zs + fixed
        r = z3.unknown
        for nra in (not isint, isint):
            r, m = self._solve(zs, timeout or self.query_timeout / 2, nra=nra)
            if r != z3.unknown:
                break
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            return "unknown"
        return self._env_from_model(m, at)

    def _env_from_model(self, m, at):
        env = {}
        for a in sorted(at):
            A = core.STORE.atoms[a]
            if A.kind == "var":
                env[a] = _zval(m.eval(A.z, model_completion=True))
        # make angles consistent with the model's cos/sin
        for a in sorted(at):
            A = core.STORE.atoms[a]
            if A.kind == "cos" and isinstance(A.info, core.Poly):
                (mono, base), = A.info.t.items()
                if len(mono) == 1 and mono[0][1] == 1 and core.STORE.atoms[mono[0][0]].kind == "var":
                    sid = core.STORE.get(("sin", mono, base))
                    cv = _zval(m.eval(A.z, model_completion=True))
                    sv = _zval(m.eval(sid.z, model_completion=True))
                    ang = math.atan2(sv, cv) / float(base)
                    per = 2 * math.pi / float(base)
                    v = env.get(mono[0][0], 0.0)
                    k = round((v - ang) / per)
                    env[mono[0][0]] = ang + k * per
                    V = core.STORE.atoms[mono[0][0]]
                    if V.lo is not None and V.hi is not None:
                        for kk in sorted(range(-4, 5), key=lambda q: abs(q - k)):
                            if V.lo <= ang + kk * per <= V.hi:
                                env[mono[0][0]] = ang + kk * per
                                break
        return env

    def find_counterexample(self, ctx, extra, strict, label, detail):
        strict = strict or []
        if not isinstance(strict, (list, tuple)):
            strict = [strict]
        attempts = []
        for s in strict:
            if isinstance(s, SymBool):
                attempts.append([(s.z, s.at)])
            elif s is True:
                attempts.append([])
        attempts.append([])
        rng = random.Random(self.seed)
        last = None
        sat_seen = False
        tried = []
        nattempt = 0
        for att in attempts:
            env = self.model_env(ctx, extra + att)
            if env is None:
                if not att:
                    if not sat_seen:
                        return "unsat"
                continue
            if env == "unknown":
                continue
            sat_seen = True
            r = self.replay(ctx, env, label)
            tried.append(env)
            if r:
                return self._viol(label, detail, env, r)
        # consistent models: pin angle-like inputs to concrete values, randomise others
        zs, at, isint = self._gather(ctx, extra)
        angs = [a for a in at if core.STORE.atoms[a].kind == "cos" and isinstance(core.STORE.atoms[a].info, core.Poly)]
        vars_ = [a for a in at if core.STORE.atoms[a].kind == "var"]
        for k in range(8):
            fixed = []
            pinned = {}
            for a in angs:
                A = core.STORE.atoms[a]
                for v in A.info.atoms():
                    V = core.STORE.atoms[v]
                    if V.kind == "var" and v not in pinned:
                        lo = V.lo if V.lo is not None else -3.0
                        hi = V.hi if V.hi is not None else 3.0
                        pinned[v] = lo + rng.random() * (hi - lo)
                        fixed.append(V.z == core._q(Fraction(pinned[v])))
                try:
                    cv = A.num(dict(pinned))
                    sid = core.STORE.get(("sin",) + [kk for kk, vv in core.STORE.by_key.items() if vv is A][0][1:])
                    sv = sid.num(dict(pinned))
                    fixed.append(z3.And(A.z <= core._q(Fraction(cv) + Fraction(1, 10**9)), A.z >= core._q(Fraction(cv) - Fraction(1, 10**9))))
                    fixed.append(z3.And(sid.z <= core._q(Fraction(sv) + Fraction(1, 10**9)), sid.z >= core._q(Fraction(sv) - Fraction(1, 10**9))))
                except KeyError:
                    pass
            others = [v for v in vars_ if v not in pinned and core.STORE.atoms[v].lo is not None and core.STORE.atoms[v].hi is not None]
            rng.shuffle(others)
            for v in others[: len(others) * (k + 1) // 8]:
                V = core.STORE.atoms[v]
                if V.isint:
                    continue
                x = V.lo + rng.random() * (V.hi - V.lo)
                w = (V.hi - V.lo) * 0.05
                fixed.append(z3.And(V.z >= core._q(Fraction(x - w)), V.z <= core._q(Fraction(x + w))))
            att = attempts[0] if k % 2 == 0 else []
            env = self.model_env(ctx, extra + att, timeout=self.query_timeout / 4, fixed=fixed)
            if env is None or env == "unknown":
                continue
            sat_seen = True
            env.update(pinned)
            r = self.replay(ctx, env, label)
            tried.append(env)
            if r:
                return self._viol(label, detail, env, r)
        if sat_seen:
            self.notes.add(f"model of the negated claim '{label}' did not replay on the real code")
            if os.environ.get("SYMEX_DEBUG"):
                for e in tried[:2]:
                    print("NOREPLAY", label, {core.STORE.atoms[a].name: v for a, v in e.items()}, flush=True)
        return None

    def _viol(self, label, detail, env, r):
        return dict(
            label=label, detail=detail, inputs={core.STORE.atoms[a].name: v for a, v in env.items()}, observed=r
        )

    # ------------------------------------------------ replay
    def concrete(self, env_by_name, tolscale=0.5):
        c = ConcreteCtx(env_by_name, tolscale)
        old = core.CTX
        core.CTX = c
        try:
            with shim.Suspended():
                st = random.getstate()
                nst = np.random.get_state()
                try:
                    self.fn(c)
                except Abort:
                    c.aborted = True
                    return c, "abort"
                except Leak:
                    self.notes.add("HARNESS FAULT: a symbolic value reached a concrete run")
                    c.fails = []
                    return c, "abort"
                except Exception as e:  # noqa
                    return c, "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + _where(e)
                finally:
                    random.setstate(st)
                    np.random.set_state(nst)
        finally:
            core.CTX = old
        return c, None

    def _unlisted(self, fails):
        return [f for f in fails if not any(re.fullmatch(k["label"], f[0]) for k in self.known)]

    def replay(self, ctx, env, label):
        names = {core.STORE.atoms[a].name: v for a, v in env.items()}
        c, exc = self.concrete(names)
        # a claim that failed before an input drawn later ran into an assumption has failed: it was decided
        # symbolically without that assumption, too
        if exc is not None and exc != "abort":
            return f"exception on the real code: {exc}"
        fails = [f for f in c.fails if f[0] == label] or self._unlisted(c.fails)
        if fails:
            same = fails
            return f"{same[0][0]}: {same[0][1]}"
        return None

    # ------------------------------------------------ exploration
    def run(self, fn, name="case"):
        self.fn = fn
        self.t0 = time.time()
        core.STORE = core.Store()
        core._reset_caches()
        self.todo = [[]]
        seen_viol = set()
        complete = True
        while self.todo:
            if len(self.undecided) >= 6 and not self.violations:
                self.undecided.append(dict(label="stopped early", solver="several undecided claims"))
                break
            if self.stats["paths"] >= self.max_paths or time.time() - self.t0 > self.budget_s:
                complete = False
                self.notes.add(f"path budget reached with {len(self.todo)} prefixes open")
                self.undecided.append(dict(label="exploration incomplete", solver="budget"))
                break
            prefix = self.todo.pop()
            ctx = SymCtx(self, prefix)
            core.CTX = ctx
            nv = len(self.violations)
            try:
                with shim.Patched():
                    self.fn(ctx)
            except Abort:
                if len(self.violations) == nv:
                    self.stats["aborted"] += 1
                    continue
            except PathBudget as e:
                self.notes.add(str(e))
                self.undecided.append(dict(label="path too long", solver=str(e)))
                continue
            except Exception as e:  # noqa
                self._exception(ctx, e)
                continue
            finally:
                core.CTX = None
            self.stats["paths"] += 1
            if len(self.violations) > nv:
                if len(self.violations) >= 3:
                    break
                continue
            core.CTX = ctx
            self._finish_path(ctx)
            core.CTX = None
        self.complete = complete
        return self

    def _finish_path(self, ctx):
        env = self.model_env(ctx, [], timeout=8000)
        if env is None:
            # assumption made the path infeasible: nothing was claimed on it
            self.stats["paths"] -= 1
            self.stats["aborted"] += 1
            return
        if env == "unknown":
            self.stats["reach_unknown"] += 1
            return
        if ctx.nchecks:
            self.stats["reach_sat"] += 1
        if self.stats["validated"] + self.stats["mismatched"] < self.validate or (
            self.stats["paths"] % 97 == 0 and self.stats["validated"] < 10 * self.validate
        ):
            self._validate(ctx, env)

    def _validate(self, ctx, env):
        names = {core.STORE.atoms[a].name: v for a, v in env.items()}
        c, exc = self.concrete(names)
        if exc == "abort":
            return
        if exc is not None:
            self.violations.append(dict(label="no exception", detail="", inputs=names, observed=exc))
            return
        c.fails = self._unlisted(c.fails)
        if c.fails:
            # the solver says the claim holds for all reals; a float-rounding boundary or an encoding gap
            self.stats["mismatched"] += 1
            self.notes.add(f"concrete run at a path model disagrees on '{c.fails[0][0]}': {c.fails[0][1]}")
            return
        full = {}
        for nm, v in c.used.items():
            a = core.STORE.get(("var", nm))
            if a is not None:
                full[a.id] = v
        for a in core.STORE.atoms:
            if a.kind == "var" and a.id not in full and a.id in env:
                full[a.id] = env[a.id]
        if len(c.obs) != len(ctx.obs):
            self.stats["mismatched"] += 1
            self.notes.add(f"concrete run took a different path ({len(c.obs)} vs {len(ctx.obs)} observations)")
            return
        bad = None
        for (l1, s), (l2, v) in zip(ctx.obs, c.obs):
            if isinstance(s, Sym) and isinstance(v, (int, float, np.floating, np.integer)):
                try:
                    e = num_poly(s.p, full)
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    continue
                if abs(e - float(v)) > 1e-6 * max(1.0, abs(e), abs(float(v))):
                    bad = (l1, e, float(v))
                    break
        if bad:
            self.stats["mismatched"] += 1
            self.notes.add(f"encoding/real mismatch at {bad[0]}: {bad[1]} vs {bad[2]}")
        else:
            self.stats["validated"] += 1
            if len(self.samples) < 2:
                self.samples.append(
                    dict(inputs={k: round(v, 6) if isinstance(v, float) else v for k, v in list(c.used.items())[:12]}, claims=ctx.nchecks,
                         decisions=len(ctx.trace))
                )

    def _exception(self, ctx, e):
        if _harness_fault(e):
            raise e
        if os.environ.get("SYMEX_DEBUG"):
            traceback.print_exception(type(e), e, e.__traceback__)
        core.CTX = ctx
        env = self.model_env(ctx, [], timeout=8000)
        if env is None:
            self.stats["aborted"] += 1
            core.CTX = None
            return
        if env == "unknown":
            env = {}
        names = {core.STORE.atoms[a].name: v for a, v in env.items()}
        c, exc = self.concrete(names)
        c.fails = self._unlisted(c.fails)
        if exc is not None and exc != "abort":
            self.violations.append(dict(label="no exception", detail="", inputs=names, observed=exc))
        elif c.fails:
            self.violations.append(
                dict(label=c.fails[0][0], detail="", inputs=names, observed=c.fails[0][1])
            )
        elif isinstance(e, ZeroDivisionError):
            self.stats["cut_div0"] += 1
        else:
            self.stats["degraded"] += 1
            self.notes.add(f"path not encodable, run concretely instead: {type(e).__name__}: {e} @ {_where(e)}")
            # explore the un-encodable path by solver-chosen concrete inputs
            rng = random.Random(self.seed)
            for _ in range(6):
                zs, at, isint = self._gather(ctx, [])
                fixed = []
                for v in [a for a in at if core.STORE.atoms[a].kind == "var" and not core.STORE.atoms[a].isint]:
                    V = core.STORE.atoms[v]
                    if V.lo is not None and V.hi is not None and rng.random() < 0.7:
                        x = V.lo + rng.random() * (V.hi - V.lo)
                        w = (V.hi - V.lo) * 0.1
                        fixed.append(z3.And(V.z >= core._q(Fraction(x - w)), V.z <= core._q(Fraction(x + w))))
                env = self.model_env(ctx, [], timeout=4000, fixed=fixed)
                if not env or env == "unknown":
                    continue
                names = {core.STORE.atoms[a].name: v for a, v in env.items()}
                c, exc = self.concrete(names)
                c.fails = self._unlisted(c.fails)
                if exc not in (None, "abort"):
                    self.violations.append(dict(label="no exception", detail="", inputs=names, observed=exc))
                    break
                if c.fails:
                    self.violations.append(dict(label=c.fails[0][0], detail="", inputs=names, observed=c.fails[0][1]))
                    break
        core.CTX = None


class _Cons:
    def __init__(self, cons):
        self.cons = cons


def core_const():
    return _const_ids()


def _const_ids():
    s = core.STORE
    return {s.SQ3.id, s.SQ2.id, s.PI.id}


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return n / d if d != 0 else 0.0
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    try:
        return float(str(v))
    except ValueError:
        return 0.0


def _harness_fault(e):
    """a fault of the harness itself (undefined name, missing attribute used by the harness), not of the code under test"""
    if not isinstance(e, (NameError, AttributeError, ImportError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and "/harness/" in tb[-1].filename


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in list(reversed(tb))[:3])
