"""C05: multi converters behave as the independent concatenation of their sub-converters."""
from .convs import *

BOUNDS = ("tau = 1e-4; interlocking time any value in [1e-7, tau/2]; two-step histories; sub-converter combinations listed per case; "
          "currents any value in +-1000 A, continuous actions any value in [-3, 3]")


def run(kind, names):
    def h(ctx):
        c = cv()
        til = ctx.real("til", 1e-7, TAU / 2)
        tab = FINITE if kind == "F" else CONT
        cls = c.FiniteMultiConverter if kind == "F" else c.ContMultiConverter
        conv = cls(subconverters=[getattr(c, tab[n][0]) for n in names], tau=TAU, interlocking_time=til)
        alone = [make(n, TAU, til) for n in names]
        # spaces
        for sp in ("voltages", "currents"):
            ctx.same(getattr(conv, sp).low.tolist(), sum([getattr(a, sp).low.tolist() for a in alone], []), sp + " low")
            ctx.same(getattr(conv, sp).high.tolist(), sum([getattr(a, sp).high.tolist() for a in alone], []), sp + " high")
        if kind == "F":
            ctx.same(list(conv.action_space.nvec), [a.action_space.n for a in alone], "action space")
        else:
            ctx.same(conv.action_space.low.tolist(), sum([a.action_space.low.tolist() for a in alone], []), "action low")
            ctx.same(conv.action_space.high.tolist(), sum([a.action_space.high.tolist() for a in alone], []), "action high")
        ctx.eq(conv.reset(), sum([list(a.reset()) for a in alone], []), "reset output")
        t = ctx.real("t0", 0, 10)
        for step in range(2):
            acts = []
            for k, n in enumerate(names):
                if kind == "F":
                    nn = tab[n][1]
                    if step == 0:
                        acts.append(ctx.int(f"a{step}_{k}", 0, nn - 1) if nn < 8 else ctx.choice(f"a{step}_{k}", [1, 6]))
                    else:
                        acts.append((acts0[k] * 3 + 2) % nn)
                else:
                    acts.append(ctx.reals(f"a{step}_{k}_", tab[n][1], -3, 3))
            acts0 = acts
            if kind == "F":
                times = conv.set_action(np.array(acts), t)
            else:
                times = conv.set_action(ctx.array([x for a in acts for x in a]), t)
            own = [a.set_action(x, t) for a, x in zip(alone, acts)]
            ref = own[0] if len(own[0]) >= len(own[1]) else own[1]
            ctx.eq(list(times), list(ref), "switching times are the union")
            if step == 0:
                cur = [ctx.reals(f"i_{k}_", tab[n][-1], -1000, 1000) for k, n in enumerate(names)]
            d = ctx.real(f"d{step}", 0, TAU)
            for j, tt in enumerate((t + d,) if step == 0 else (t + TAU,)):
                u = conv.convert([x for q in cur for x in q], tt)
                v = sum([list(a.convert(list(q), tt)) for a, q in zip(alone, cur)], [])
                ctx.eq(u, v, "voltages are the concatenation")
                ctx.eq(
                    conv.i_sup([x for q in cur for x in q]), sum(a.i_sup(list(q)) for a, q in zip(alone, cur)),
                    "supply current is the sum",
                )
            t = t + TAU

    return h


def cases(tier):
    combos = [
        ("F", ["F2QC", "F2QC"]), ("F", ["F4QC", "F2QC"]), ("F", ["F1QC", "F4QC"]), ("F", ["FB6", "F2QC"]),
        ("C", ["C4QC", "C2QC"]), ("C", ["C1QC", "CB6"]), ("C", ["CB6", "C4QC"]), ("C", ["CB6", "CB6"]), ("C", ["C2QC", "C1QC"]),
    ]
    if tier == "thorough":
        combos += [("F", ["FB6", "F4QC"]), ("F", ["FB6", "FB6"]), ("F", ["F2QC", "FB6"]), ("C", ["C4QC", "C4QC"]), ("C", ["CB6", "C2QC"])]
    return [dict(name="+".join(n), fn=run(k, n), opts=dict(max_paths=100000)) for k, n in combos]
