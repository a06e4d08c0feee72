"""C40: parameter and state helpers treat every specification form alike."""
from .envs import *

BOUNDS = "any values; every subset of four names resp. keys; three spellings of a name; all specification forms"

N4 = NAMES[:4]


def ut():
    import gym_electric_motor.utils as m

    return m


def arrays(ctx):
    v = [ctx.real(f"v{j}", -1e6, 1e6) for j in range(4)]
    form = ctx.choice("form", ["dict", "dict-order", "dict-case", "list", "array", "float", "int"])
    if form.startswith("dict"):
        keep = [j for j in range(4) if ctx.bool(f"has{j}")]
        if form == "dict-order":
            keep = keep[::-1]
        arg = {(N4[j].upper() if form == "dict-case" else N4[j]): v[j] for j in keep}
        want = [v[j] if j in keep else 0.0 for j in range(4)]
        copy = dict(arg)
    elif form == "list":
        arg, want = list(v), v
    elif form == "array":
        arg, want = ctx.array(list(v)), v
    elif form == "float":
        arg, want = v[0], [v[0]] * 4
    else:
        k = ctx.int("k", -2, 2)
        arg, want = k, [k] * 4
    names = list(N4)
    r = ut().set_state_array(arg, names)
    ctx.same(len(r), 4, "one entry per name")
    ctx.eq(list(r), want, "expanded array in declared order")
    ctx.same(names, N4, "names are left alone")
    if form.startswith("dict"):
        ctx.same(list(arg), list(copy), "the dictionary is left alone")
        ctx.eq([arg[k] for k in copy], [copy[k] for k in copy], "the values are left alone")


def unknown(ctx):
    v = ctx.real("v", -10, 10)
    bad = ctx.choice("bad", ["omga", "i_a", "", "u "])
    n = ctx.int("others", 0, 4)
    d = {N4[j]: v for j in range(n)}
    d[bad] = v
    ctx.check(raises(lambda: ut().set_state_array(d, list(N4)), AssertionError, KeyError, ValueError) is not None, "unknown names are rejected")
    m = ctx.choice("length", [0, 1, 3, 5])
    ctx.check(raises(lambda: ut().set_state_array([v] * m, list(N4)), AssertionError) is not None, "lists of a wrong length are rejected")
    ctx.check(raises(lambda: ut().set_state_array(np.array([0.5] * m), list(N4)), AssertionError) is not None, "arrays of a wrong length are rejected")


def into(ctx):
    base = [ctx.real(f"b{j}", -10, 10) for j in range(4)]
    v = [ctx.real(f"v{j}", -10, 10) for j in range(4)]
    keep = [j for j in range(4) if ctx.bool(f"has{j}")]
    arr = ctx.array(list(base))
    ut().state_dict_to_state_array({N4[j]: v[j] for j in keep[::-1]}, arr, list(N4))
    ctx.eq(list(arr), [v[j] if j in keep else base[j] for j in range(4)], "only the given entries change")


def merge(ctx):
    ks = ["a", "b", "c", "d"]
    src = {k: ctx.real("s" + k, -10, 10) for k in ks}
    new = {k: ctx.real("n" + k, -10, 10) for k in ks[::-1] if ctx.bool("has" + k)}
    s0, n0 = dict(src), dict(new)
    bad = ctx.bool("unknown")
    if bad:
        new["e"] = n0["e"] = 1.0
        ctx.check(raises(lambda: ut().update_parameter_dict(src, new), KeyError) is not None, "unknown keys are rejected")
    else:
        r = ut().update_parameter_dict(src, new)
        ctx.same(sorted(r), ks, "exactly the keys of the source")
        ctx.eq([r[k] for k in ks], [n0.get(k, s0[k]) for k in ks], "exactly the given keys are overridden")
        ctx.check(r is not src and r is not new, "a new dictionary")
    ctx.same((list(src), list(new)), (list(s0), list(n0)), "keys of both sources unchanged")
    ctx.eq([src[k] for k in ks], [s0[k] for k in ks], "source unchanged")
    ctx.eq([new[k] for k in n0], [n0[k] for k in n0], "update unchanged")
    if not bad:
        r = ut().update_parameter_dict(src, new, copy=False)
        ctx.check(r is src, "in place on request")
        ctx.eq([src[k] for k in ks], [n0.get(k, s0[k]) for k in ks], "in place merge")


def init(ctx):
    class Base:
        def __init__(self, a=1.0, b=2.0):
            self.a, self.b = a, b

    class Default(Base):
        pass

    a, b, c = ctx.real("a", -10, 10), ctx.real("b", -10, 10), ctx.real("c", -10, 10)
    o = ut().initialize(Base, None, Default, dict(a=a, b=b))
    ctx.eq([o.a, o.b], [a, b], "default with default arguments")
    ctx.check(type(o) is Default, "default class")
    x = Base(c)
    ctx.check(ut().initialize(Base, x, Default, dict(a=a)) is x, "instances are used as they are")
    given = dict(b=c)
    o = ut().initialize(Base, given, Default, dict(a=a, b=b))
    ctx.eq([o.a, o.b], [a, c], "a dictionary overrides exactly the given arguments")
    ctx.same(list(given), ["b"], "the dictionary is left alone")


def cases(tier):
    return [dict(name="expand", fn=arrays), dict(name="unknown", fn=unknown), dict(name="into", fn=into), dict(name="merge", fn=merge), dict(name="initialize", fn=init)]
