import numpy as np

from c07 import solver
from core import F
from hlib import covs, rs
from optim import LEVEL
SPEC = "ControlConf"
PAIRS = (("model", "ctl"), ("model", "psi"), ("model", "phi"), ("model", "n"))


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenControl"), ctx.pick(160, 700), pairs=PAIRS)):
        rng = rs(ctx.seed, "ctl", i, sorted(s.items()))
        c = dict(s)
        T, d = s["T"], s["d"]
        c["S"] = F(covs(rng, T, d, "corr").round(6))
        c["weights"] = [1.0] * T if s["n"] == "none" else [float(v) for v in rng.randint(5, 20, T)]
        if s["model"] == "IC":
            c["weights"] = [0.5]
        w = max(1.0, float(np.mean(c["weights"])))
        for f, l in (("alpha", "small"), ("beta", "mid"), ("tau", "mid"), ("eta", "small")):
            c[f] = round(LEVEL[l] * w * float(rng.uniform(0.5, 2)), 4)
        if s["model"] in ("KTGL", "KLTGL"):
            for k in ("kpsi", "kphi"):
                M = np.triu(rng.uniform(0.02, 0.6, (T, T)) * (rng.rand(T, T) < 0.8) * w, 1)
                c[k] = F((M + M.T + np.eye(T)).round(4))
        c.update(rho=max(1.0, 0.3 * w), over=1.0, rule="default", init="empirical", compobj=True, tol=1e-9, rtol=1e-9, max_iter=4000)
        c["K0"] = F(np.array([np.eye(d) * (2.0 + t) + 0.1 for t in range(T)]))
        c["id"] = "L-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def one(c, **kw):
    m = c["model"]
    r, warned = solver(c, **kw)
    two = lambda a: F([a]) if m in ("GL", "LGL", "IC") else F(a)
    lat = m in ("LGL", "LTGL", "KLTGL", "LTMD", "IC")
    return dict(K=two(r[0]), L=two(r[1]) if lat else [], warned=warned, arity=len(r),
                last=int(r[-1]) if np.isscalar(r[-1]) else -1)


def observe(c):
    b = dict(c)
    kw = {}
    ctl = c["ctl"]
    if ctl == "rho_lo":
        b["rho"] = c["rho"] * 0.4
    elif ctl == "rho_hi":
        b["rho"] = c["rho"] * 2.7
    elif ctl == "over":
        b["over"] = 1.6
    elif ctl == "under":
        b["over"] = 0.7
    elif ctl == "init_zero":
        b["init"] = "zero"
    elif ctl == "init_array":
        b["init"] = "array"
    elif ctl == "rule_never":
        b.update(rule="never", mu=10.0, tau_inc=1.0, tau_dec=1.0)
    elif ctl == "rule_eager":
        b.update(rule="eager", mu=5.0, tau_inc=1.3, tau_dec=1.2)
    elif ctl == "verbose":
        kw["verbose"] = True
    elif ctl == "no_history":
        kw["return_history"] = False
    elif ctl == "no_niter":
        kw["return_n_iter"] = False
    elif ctl == "bare":
        kw.update(return_history=False, return_n_iter=False)
    elif ctl == "no_obj":
        b["compobj"] = False
    return dict(base=one(c), run=one(b, **kw))
