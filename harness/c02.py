from optim import observe, scen_cases
SPEC = "OptimConf"
LIMIT = 200


def build(ctx):
    return scen_cases(ctx, "TGL", ctx.pick(48, 400), pairs=(("psi", "n"), ("psi", "T"), ("psi", "via"), ("psi", "beta")))
