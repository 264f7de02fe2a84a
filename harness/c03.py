from optim import observe, scen_cases
SPEC = "OptimConf"
LIMIT = 200


def build(ctx):
    return (scen_cases(ctx, "LGL", ctx.pick(20, 72), pairs=(("d", "via"), ("alpha", "tau"), ("d", "tau")))
            + scen_cases(ctx, "LTGL", ctx.pick(36, 260), pairs=(("psi", "phi"), ("psi", "via"), ("phi", "n"))))
