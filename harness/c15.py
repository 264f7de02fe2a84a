import numpy as np

from core import F
from hlib import rs
SPEC = "GlmConf"
AL = dict(tiny=.004, small=.03, mid=.1, big=.3, huge=3.0)
ASSUMPTIONS = ["Optimality is claimed for step sizes below 1/L and tolerances small enough to converge; shorter runs are compared with the specified iteration."]


def data(kind, fam, rng, d):
    n = dict(tall=24, dep=20, column=16, tiny=d + 2 if fam != "poisson" else 2 * d + 4)[kind]
    if fam == "gauss":
        X = rng.randn(n, d)
        if kind == "dep":
            X[:, 1] = .7 * X[:, 0] + .6 * X[:, 1]
            X[:, -1] = X[:, -1] + 1.0
    elif fam == "poisson":
        X = rng.poisson(.6 + .3 * rng.rand(n, 1), size=(n, d)).astype(float)
        X = np.minimum(X, 3)
        if kind == "dep":
            X[:, 1] = np.minimum(X[:, 0] + (rng.rand(n) < .3), 3)
    else:
        X = np.where(rng.rand(n, d) < .5, -1.0, 1.0)
        if kind == "dep":
            X[:, 1] = X[:, 0] * np.where(rng.rand(n) < .25, -1, 1)
            X[:, -1] = -X[:, 0] * np.where(rng.rand(n) < .3, -1, 1)
        X[0], X[1] = 1, -1
    if kind == "column":
        X[:, 1] = 0 if fam == "gauss" else 1
    return X.round(3)


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenGlm"), ctx.pick(220, 900),
                                    pairs=(("fam", "how", "al"), ("fam", "run", "data"), ("fam", "run", "how"), ("fam", "icpt", "run")))):
        rng = rs(ctx.seed, "glm", i, sorted(s.items()))
        c = dict(s)
        d = int(rng.randint(3, 5))
        X = data(s["data"], s["fam"], rng, d)
        if s["icpt"]:
            # the model of the data with a constant variable
            c["Xfit"] = F(X)
            X = np.hstack([X, np.ones((len(X), 1))])
        L = float(np.linalg.eigvalsh(X.T.dot(X) / len(X)).max())
        c["X"] = F(X)
        c["alpha"] = round(AL[s["al"]] * float(rng.uniform(.8, 1.25)), 4)
        if s["fam"] == "logit":
            c["alpha"] = round(c["alpha"] * len(X) / 3, 4)
        c["gamma"] = round(float(rng.uniform(.5, .95)) / L, 4)
        c["tol"] = dict(converged=1e-8, short=1e-12, one=1e-3, loose=float(rng.choice([3e-3, 1e-2])))[s["run"]]
        c["max_iter"] = dict(converged=20000, short=int(rng.randint(2, 12)), one=1, loose=5000)[s["run"]]
        c["id"] = "G-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.generalized_linear_model.glm_gaussian import Gaussian_GLM_GM
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel
    from regain.generalized_linear_model.glm_poisson import PoissonGraphicalModel
    X = np.array(c.get("Xfit", c["X"]))
    X0 = X.copy()
    kw = dict(alpha=c["alpha"], tol=c["tol"], max_iter=c["max_iter"], verbose=c["verb"])
    if c["fam"] == "gauss":
        e = Gaussian_GLM_GM(reconstruction=c["how"], **kw)
        r = e.fit(X, gamma=c["gamma"])
    elif c["fam"] == "poisson":
        e = PoissonGraphicalModel(reconstruction=c["how"], intercept=c["icpt"], gamma=c["gamma"], **kw)
        r = e.fit(X)
    elif c["fam"] == "ising":
        e = IsingGraphicalModel(gamma=c["gamma"], **kw)
        r = e.fit(X)
    else:
        kw["verbose"] = min(kw["verbose"], 1)
        e = IsingGraphicalModel(mode="logistic_regression", reconstruction=c["how"], **kw)
        r = e.fit(X)
    runs = [] if c["fam"] == "logit" else [e.history] if c["fam"] == "ising" else e.history
    hist = []
    for r_, (thetas, checks) in enumerate(runs):
        ks = sorted(set(range(min(6, len(checks)))) | {len(checks) - 1}) if checks else []
        hist.append(dict(len=len(thetas), last=F(thetas[-1]), lastiter=int(checks[-1].iter) if checks else -1,
                         lastnorm=float(checks[-1].iter_norm) if checks else -1., objs=[float(h.obj) for h in checks][:400],
                         at=[dict(i=int(checks[k].iter), x=F(thetas[int(checks[k].iter) + 1]), prev=F(thetas[int(checks[k].iter)]), obj=float(checks[k].obj), norm=float(checks[k].iter_norm)) for k in ks]))
    return dict(hist=hist, K=F(e.precision_), get=F(e.get_precision()), clean=bool(np.array_equal(X, X0)), self=r is e)
