from optim import observe, scen_cases
SPEC = "OptimConf"
LIMIT = 200


def build(ctx):
    return (scen_cases(ctx, "IC", ctx.pick(24, 128), pairs=(("alpha", "tau"),))
            + scen_cases(ctx, "LTMD", ctx.pick(40, 260), pairs=(("psi", "phi"), ("psi", "axis"))))
