"""C24: rewards decrease with tracking error, stay in range and punish violations."""
from .envs import *

BOUNDS = ("any states and references inside the state space (also beyond it for monotonicity), any violation degree in [0, 1], weights any values in [0, 10] with positive sum "
          "(default, dictionary, list, array), powers 1, 2, 3, per state powers, 1/2 at sampled structure, bias any value in [-5, 5] or 'positive', gamma any value in [0, 0.99], "
          "normalised and plain weights, given and default violation reward")

N3, LO3 = ["omega", "torque", "i"], [-1.0, -1.0, 0.0]
LEN = [2.0, 2.0, 1.0]


def build(ctx, weights, power, normed, bias, viol, refd=(0, 2)):
    import gym_electric_motor.reward_functions as m

    s = stub_system(ctx, lambda n: None, N3, LIM[:3], NOM[:3], LO3)
    g = rec_generator(ctx, [[0.0] * len(refd)], refd)
    g.set_modules(s)
    w = None
    if weights == "default":
        arg, w = None, [(1 / len(refd) if j in refd else 0.0) if refd else 1 / 3 for j in range(3)]
    else:
        w = [ctx.real(f"w{j}", 0, 10) for j in range(3)]
        if weights == "dict":
            w[1] = 0.0
            arg = {"i": w[2], "omega": w[0]}
        elif weights == "list":
            arg = list(w)
        else:
            arg = ctx.array(list(w))
        ctx.assume(sum(w) >= 0.01)
    p = {"dict": {"omega": 2, "i": 1, "torque": 3}, "list": [1, 3, 2]}.get(power, power)
    pw = {"dict": [2, 3, 1], "list": [1, 3, 2]}.get(power, [power] * 3)
    b = "positive" if bias == "positive" else ctx.real("bias", -5, 5)
    kw = {}
    gamma = ctx.real("gamma", 0, 0.99)
    vr = None
    if viol:
        vr = ctx.real("vr", -100, 100)
    r = m.WeightedSumOfErrors(reward_weights=arg, normed_reward_weights=normed, violation_reward=vr, gamma=gamma, reward_power=p, bias=b)
    r.set_modules(s, g, None)
    tot = sum(w)
    wn = [x / tot for x in w] if normed else w
    T = 1 if normed else tot
    B = T if bias == "positive" else b
    return r, wn, pw, T, B, gamma, vr


def run(weights, power, normed, bias, viol, refd=(0, 2)):
    def h(ctx):
        r, w, pw, T, B, gamma, vr = build(ctx, weights, power, normed, bias, viol, refd)
        lo, hi = r.reward_range
        ctx.eq(lo, B - T, "lower end of the range", 1e-6)
        ctx.eq(hi, B, "upper end of the range", 1e-6)
        V = vr
        if vr is None:
            x = (B - T) / (1 - gamma)
            V = ite(x < 0, x, 0.0)
        s = [ctx.real(f"s{j}", LO3[j], 1) for j in range(3)]
        f = [ctx.real(f"f{j}", LO3[j], 1) for j in range(3)]
        st, rf = ctx.array(s), ctx.array(f)
        d = ctx.real("d", 0, 1)
        act = 0
        r0 = r.reward(st, rf, 0, act, 0.0)
        ctx.eq(list(st), s, "the state is left alone")
        ctx.eq(list(rf), f, "the reference is left alone")

        def pot(e, n):
            q = 1
            for _ in range(n):
                q = q * e
            return q

        err = [(ite(a > b, a - b, b - a)) / q for a, b, q in zip(s, f, LEN)]
        want = B - sum(x * pot(e, n) for x, e, n in zip(w, err, pw))
        ctx.eq(r0, want, "weighted sum of errors", 1e-6)
        ctx.le(lo, r0, "reward at least the lower end", 1e-6)
        ctx.le(r0, hi, "reward at most the upper end", 1e-6)
        ctx.eq(r.reward(st, ctx.array(s), 3, act, 0.0), B, "zero error gives the largest reward", 1e-6)
        ctx.eq(r.reward(st, rf, 1, act, 1.0), V, "full violation gives the violation reward", 1e-5)
        ctx.eq(r.reward(st, rf, 1, act, d), (1 - d) * want + d * V, "linear blend", 1e-5)
        ctx.eq(r(st, rf, 1, act, 0.0), want, "calling the reward function is the same", 1e-6)
        ctx.eq(r.reward(st, rf, 9, 1, 0.0), want, "neither step nor action matter", 1e-6)

    return h


def mono(power, normed):
    def h(ctx):
        r, w, pw, T, B, gamma, vr = build(ctx, "list", power, normed, 0.0, True)
        s = [ctx.real(f"s{j}", -2, 2) for j in range(3)]
        f = [ctx.real(f"f{j}", -2, 2) for j in range(3)]
        j = ctx.choice("which", [0, 1, 2])
        sj = ctx.real("moved", -2, 2)
        # the error of state j grows (or stays), all other errors are unchanged
        ctx.assume(ite(sj > f[j], sj - f[j], f[j] - sj) >= ite(s[j] > f[j], s[j] - f[j], f[j] - s[j]))
        a = r.reward(ctx.array(s), ctx.array(f), 0, 0, 0.0)
        s2 = list(s)
        s2[j] = sj
        b = r.reward(ctx.array(s2), ctx.array(f), 0, 0, 0.0)
        ctx.le(b, a, "a larger error never pays", 1e-9)

    return h


def cases(tier):
    out = []
    for wt in ("default", "dict", "list", "array"):
        for pw in (1, 2, "dict"):
            for normed in (False, True):
                out.append(dict(name=f"{wt}-{pw}-{'normed' if normed else 'plain'}", fn=run(wt, pw, normed, 0.0, True)))
    out.append(dict(name="default-violation", fn=run("list", 1, False, 0.0, False)))
    out.append(dict(name="default-violation-normed", fn=run("dict", 2, True, 0.0, False)))
    out.append(dict(name="positive", fn=run("list", 1, False, "positive", False)))
    out.append(dict(name="positive-normed", fn=run("list", 1, True, "positive", False)))
    out.append(dict(name="positive-violation", fn=run("default", "list", False, "positive", True)))
    out.append(dict(name="no-reference", fn=run("default", 1, False, 0.0, False, ())))
    for pw in (1, 2, 3, "dict", "list"):
        for normed in (False, True):
            out.append(dict(name=f"monotone-{pw}-{'normed' if normed else 'plain'}", fn=mono(pw, normed)))
    return out
