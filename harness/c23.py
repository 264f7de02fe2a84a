"""Wishart-family distributions and the statistical functions around them."""
import warnings

import numpy as np

from core import F
from hlib import rs
SPEC = "DistConf"
LIMIT = 300
ASSUMPTIONS = ["Samples are judged by their first two moments at six standard errors (1500 draws)."]


def spd(rng, p, sc):
    A = rng.randn(p, p)
    M = A.dot(A.T) / p + .3 * np.eye(p)
    return dict(eye=np.eye(p), diag=np.diag(rng.uniform(.3, 3, size=p)), full=M, tiny=.01 * M, big=40 * M)[sc]


def dof(rng, p, k):
    return dict(low=float(p), edge=float(p + 1), mid=float(p + 2 + rng.randint(3)), frac=p + 1.37 + rng.rand(), high=p + 30.)[k]


def build(ctx):
    out = []
    sc = ctx.scenarios("ScenDist")
    k = lambda kind: [s for s in sc if s["kind"] == kind]
    pick = (ctx.cover(k("wi"), ctx.pick(90, 250), pairs=(("p", "dist", "nu"), ("dist", "nu", "sc")))
            + ctx.cover(k("niw"), ctx.pick(80, 400), pairs=(("p", "n"), ("kappa", "mu", "n"), ("nu", "sc", "p")))
            + ctx.cover(k("samp"), ctx.pick(56, 110), pairs=(("dist", "n", "nu"), ("p", "dist", "n"), ("calls", "dist", "p"), ("calls", "dist", "n"), ("calls", "dist", "nu", "n"), ("sc", "dist")))
            + k("uni") + ctx.cover(k("frob"), ctx.pick(20, 36), pairs=(("p", "T"), ("v", "T"))) + ctx.cover(k("mvn"), ctx.pick(36, 144), pairs=(("T", "n"), ("p", "n"), ("sc", "T"))))
    for i, s in enumerate(pick):
        rng = rs(ctx.seed, "dist", i, sorted(s.items()))
        c = dict(s)
        p = s["p"]
        kd = s["kind"]
        if kd in ("wi", "niw", "samp"):
            S = spd(rng, p, s["sc"])
            nu = dof(rng, p, s["nu"])
            c["S"], c["nu_"] = F(S), nu
            c["kappa_"] = dict(tenth=.1, one=1., seven=7.)[s.get("kappa", "seven")]
            c["mu_"] = F(np.zeros(p) if s.get("mu") == "zero" else rng.randn(p) * 3 + np.arange(p))
            c["seed"] = int(rng.randint(1 << 30))
            if kd != "samp":
                g = np.trace(S) / p
                c["Xs"] = F(np.array([spd(rng, p, "full") * g * f for f in (.3, 1, 3, nu)]))
                c["ms"] = F(np.array([np.array(c["mu_"]) + rng.randn(p) * f for f in (.1, 1, 4, 1)]))
            if kd == "niw":
                c["X"] = F((rng.randn(s["n"], p).dot(np.linalg.cholesky(S).T) + rng.randn(p)).round(5))
                c["cut"] = int(rng.randint(1, s["n"])) if s["n"] > 1 else 0
        elif kd == "uni":
            c["mu_"] = dict(neg=-1.3, zero=0., pos=2.1)[s["m"]]
            c["sigma"] = dict(small=.2, one=1., large=2.5)[s["v"]]
            c["xs"] = F(np.exp(c["mu_"] + c["sigma"] * rng.randn(5)))
            c["mean"], c["var"] = dict(neg=.2, zero=1., pos=7.5)[s["m"]], dict(small=.05, one=1., large=30.)[s["v"]]
        elif kd == "frob":
            c["S"], c["D"] = F(rng.randn(p, p, s["T"])), F(rng.randn(p, p, s["T"]))
            c["var"] = dict(small=.05, one=1., large=30.)[s["v"]]
        else:
            c["C"] = F(np.array([spd(rng, p, s["sc"]) for _ in range(s["T"])]))
            c["X"] = F(np.array([rng.randn(s["n"], p) * 2 for _ in range(s["T"])]))
        c["id"] = "DIST-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def par(d):
    return dict(mu=F(d.mu), kappa=F(float(d.kappa)), nu=F(float(d.nu)), S=F(d.S))


def observe(c):
    warnings.simplefilter("ignore")
    from regain.bayesian import stats as st
    from regain.bayesian import wishart_distribution_ as w
    k = c["kind"]
    p = c["p"]
    A = np.array
    if k == "uni":
        if c["fn"] == "stat":
            m, s = st.lognstat(c["mean"], c["var"])
            return dict(mu=F(m), sigma=F(s))
        f = st.lognormal_pdf if c["fn"] == "pdf" else st.lognormal_logpdf
        return dict(v=F(f(A(c["xs"]), c["mu_"], c["sigma"])))
    if k == "frob":
        return dict(v=F(float(st.log_lik_frob(A(c["S"]), A(c["D"]), c["var"]))))
    if k == "mvn":
        return dict(v=F(float(st.t_mvn_logpdf(A(c["X"]), A(c["C"]).T))))
    S, nu, mu, ka = A(c["S"]), c["nu_"], A(c["mu_"]), c["kappa_"]
    S0, mu0 = S.copy(), mu.copy()
    if k == "wi":
        d = (w.InverseWishartDistribution if c["dist"] == "iw" else w.WishartDistribution)(nu, S)
        Xs = A(c["Xs"])
        X0 = Xs.copy()
        mode = d.mode
        has = bool(np.ndim(mode) == 2)
        try:
            mean = F(d.mean)
        except ZeroDivisionError:
            mean = []
        return dict(ll=F([d.log_likelihood(X) for X in Xs]), l=F([d.likelihood(X) for X in Xs]), mean=mean, has_mode=has, mode=F(mode) if has else [],
                    ll_mode=F(d.log_likelihood(np.asarray(mode))) if has else F(0.), clean=bool(np.array_equal(S, S0) and np.array_equal(Xs, X0)))
    if k == "niw":
        d = w.NormalInverseWishartDistribution(mu, ka, nu, S)
        Xs, ms, X = A(c["Xs"]), A(c["ms"]), A(c["X"])
        X0 = X.copy()
        post = d.posterior(X)
        seq = d.posterior(X[:c["cut"]]).posterior(X[c["cut"]:]) if c["cut"] else post
        rev = d.posterior(X[::-1])
        mm, mS = d.marginals
        ll = lambda q: F([float(q.log_likelihood(m, Z)) for m, Z in zip(ms, Xs)])
        return dict(ll=ll(d), l=F([float(d.likelihood(m, Z)) for m, Z in zip(ms, Xs)]), mode_mu=F(d.mode[0]), mode_S=F(d.mode[1]),
                    marg_mu=F([float(mm.logpdf(m)) for m in ms]), marg_S=F([float(mS.log_likelihood(Z)) for Z in Xs]), pred=F([float(d.predictive().logpdf(m)) for m in ms]),
                    post=par(post), post_ll=ll(post), seq=par(seq), rev=par(rev), post_pred=F([float(post.predictive().logpdf(m)) for m in ms]),
                    clean=bool(np.array_equal(S, S0) and np.array_equal(mu, mu0) and np.array_equal(X, X0) and par(d) == dict(mu=F(mu0), kappa=F(float(ka)), nu=F(float(nu)), S=F(S0))))
    np.random.seed(c["seed"])
    n = c["n"]
    if c["dist"] == "niw":
        r = w.NormalInverseWishartDistribution(mu, ka, nu, S)
        r = [r.sample() for _ in range(n)] if c["calls"] == "many" else r.sample(n)
        r = [r] if n == 1 else r
        return dict(ms=F([x[0] for x in r]), Ss=F([x[1] for x in r]), shape=str(np.shape(r[0][1])), shape_ok=all(np.shape(x[0]) == (p,) and np.shape(x[1]) == (p, p) for x in r))
    d = (w.InverseWishartDistribution if c["dist"] == "iw" else w.WishartDistribution)(nu, S)
    r = np.array([d.sample() for _ in range(n)]) if c["calls"] == "many" else d.sample(n)
    want = {(n, p, p)} if n > 1 else {(p, p), (1, p, p)}
    if p == 1:
        want |= {(n,), ()} if n == 1 else {(n,)}
    return dict(Ss=F(np.reshape(r, (-1, p, p))), shape=str(np.shape(r)), shape_ok=np.shape(r) in want)
