from optim import observe, scen_cases
SPEC = "OptimConf"


def build(ctx):
    return scen_cases(ctx, "GL", ctx.pick(40, 128), pairs=(("d", "kind"), ("alpha", "kind")))
