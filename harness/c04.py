from optim import observe, scen_cases
SPEC = "OptimConf"
LIMIT = 200


def build(ctx):
    return (scen_cases(ctx, "KTGL", ctx.pick(36, 240), pairs=(("psi", "ker"), ("T", "ker"), ("n", "via"), ("psi", "T"), ("ker", "via")))
            + scen_cases(ctx, "KLTGL", ctx.pick(28, 160), pairs=(("ker", "ker2"), ("phi", "ker2"), ("psi", "phi"))))
