"""Wishart processes: construction, sampler transitions, chain and estimator."""
import warnings

import numpy as np

from core import F
from hlib import rs
SPEC = "WPConf"
LIMIT = 300
ASSUMPTIONS = ["Samplers are judged by averages over independent replicates started from the exact target (six standard errors) and by batch means of whole chains (seven).",
               "Log-likelihoods are compared only for covariances with condition number below 1e7."]


def spd(rng, p):
    A = rng.randn(p, p)
    return A.dot(A.T) / p + .4 * np.eye(p)


def rbf(a, b, w):
    return np.exp(-.5 * w * (a[:, None] - b[None]) ** 2)


def build(ctx):
    out = []
    sc = ctx.scenarios("ScenWP")
    k = lambda kind: [s for s in sc if s["kind"] == kind]
    pick = (ctx.cover(k("con"), ctx.pick(20, 80), pairs=(("p", "nu"), ("T", "p"))) + ctx.cover(k("gp"), ctx.pick(12, 36), pairs=(("T", "k"), ("p", "k")))
            + ctx.cover(k("pred"), ctx.pick(20, 144), pairs=(("T", "at"), ("p", "at"), ("nu", "at")))
            + ctx.cover(k("ess"), ctx.pick(14, 96), pairs=(("c", "prior"), ("c", "angle"), ("p", "nu", "T"), ("start", "c")))
            + k("essb") + ctx.cover(k("ell"), ctx.pick(14, 24), pairs=(("p", "c"), ("var", "c"), ("mean", "c")))
            + ctx.cover(k("hyp"), ctx.pick(8, 24), pairs=(("g", "var"), ("T", "g"), ("m", "g")))
            + ctx.cover(k("chain"), ctx.pick(6, 12), pairs=(("c", "g"), ("ell", "g"), ("ell", "c")))
            + ctx.cover(k("wp"), ctx.pick(36, 200), pairs=(("sizes", "ell"), ("burn", "ell"), ("kernel", "ell"), ("p", "T"), ("centred", "labels"), ("kernel", "T"), ("p", "ell"))))
    for i, s in enumerate(pick):
        rng = rs(ctx.seed, "wp", i, sorted(s.items()))
        c = dict(s)
        p = s["p"]
        kd = s["kind"]
        c["seed"] = int(rng.randint(1 << 30))
        L = np.tril(rng.randn(p, p)) + np.eye(p)
        if kd == "con":
            c["u"], c["L"] = F(rng.randn(s["nu"], p, s["T"])), F(L)
        elif kd == "gp":
            T = s["T"]
            t = np.sort(rng.uniform(0, 3, size=T))
            K = dict(rbf=rbf(t, t, 1.) + .05 * np.eye(T), eye=np.eye(T), singular=np.outer(1 + t, 1 + t))[s["k"]]
            c["K"], c["nu"] = F(K), 2000
        elif kd == "pred":
            t = np.sort(rng.permutation(12)[:s["T"]]).astype(float)
            te = dict(train=t, between=(t[1:] + t[:-1]) / 2, one=t[-1:] + .5, shuffled=rng.permutation(t))[s["at"]]
            c["t"], c["te"], c["w"] = F(t), F(te), float(rng.uniform(.8, 2))
            c["u"], c["L"] = F(rng.randn(s["nu"], p, s["T"])), F(L)
            c["K"], c["A"] = F(rbf(t, t, c["w"])), F(rbf(te, t, c["w"]))
        elif kd == "ess":
            T, nu, n = s["T"], s["nu"], 1500
            K = spd(rng, T)
            cs = dict(none=0., weak=.5, strong=6.)[s["c"]] * rng.uniform(.7, 1.3, size=T)
            Pr = np.zeros((nu * p * T,) * 2)
            one = np.kron(np.eye(p), np.linalg.inv(K)) + np.kron(L.T.dot(L), np.diag(cs))
            Pr = np.kron(np.eye(nu), one)
            x0 = np.linalg.solve(np.linalg.cholesky(Pr).T, rng.randn(nu * p * T, n))
            c["K"], c["L"], c["cs"], c["x0"], c["steps"] = F(K), F(L), F(cs), F(x0), 5
        elif kd == "essb":
            c["width"], c["kk"] = dict(narrow=.6, wide=1.5)[s["a"]], dict(flat=.1, weak=4., strong=60.)[s["c"]]
        elif kd == "ell":
            n, nu, T = 1500, 2, 2
            u = rng.randn(nu, p, T)
            u = .5 * u + u[:, :1]
            c["c_"], c["mean_"], c["sd"] = dict(none=0., flat=0., weak=.5, strong=4.)[s["c"]], dict(zero=0., one=1.)[s["mean"]], 1e5 if s["c"] == "flat" else .8
            M = sum(np.outer(u[i, :, t], u[i, :, t]) for i in range(nu) for t in range(T))
            x0 = []
            for r in range(p):
                Pr = c["c_"] * M[:r + 1, :r + 1] + np.eye(r + 1) / c["sd"] ** 2
                m = np.linalg.solve(Pr, np.ones(r + 1) * c["mean_"] / c["sd"] ** 2)
                x0.append(m[:, None] + np.linalg.solve(np.linalg.cholesky(Pr).T, rng.randn(r + 1, n)))
            c["u"], c["x0"] = F(u), F(np.vstack(x0))
            m = len(c["x0"])
            c["sweeps"] = 1 if s["c"] == "flat" else 6
            c["vp"] = .5 if s["var"] == "scalar" else F(rng.uniform(.1, 1.5, size=m))
            c["vps"], c["vpa"] = (c["vp"], []) if s["var"] == "scalar" else (0., c["vp"])
        elif kd == "hyp":
            n = 1200
            c["mu_"], c["sigma"] = .3, .6
            c["l0"] = F(c["mu_"] + c["sigma"] * rng.randn(n))
            th = np.exp(c["l0"])[:, None, None] if s["g"] == "scale" else 1.
            U = np.sqrt(th) * rng.randn(n, s["m"], s["T"])
            c["U"] = F(U)
            c["ls"] = F(np.log((U ** 2).mean((1, 2))))
            c["vp"] = dict(small=.1, large=2.)[s["var"]]
        elif kd == "chain":
            c.update(c_=dict(none=0., weak=.6, strong=4.)[s["c"]], mu_=.2, sigma=.5, mL=.7, sL=.8, L0=float(rng.uniform(.5, 1.5)), n_iter=4200)
        else:
            T = s["T"]
            n = [p + 3 + (int(rng.randint(1, 9)) if s["sizes"] == "unequal" else 2) for _ in range(T)]
            if s["sizes"] == "unequal":
                n[0] = n[-1] + 2
            C = np.linalg.cholesky(spd(rng, p))
            c["X"] = [F((rng.randn(m, p).dot(C.T) + rng.randn(p)).round(5)) for m in n]
            c["Y"] = [F((rng.randn(m, p).dot(C.T)).round(5)) for m in n[::-1]]
            c["classes"] = F(np.arange(T) if s["labels"] == "ints" else np.cumsum(rng.randint(1, 5, size=T)))
            c["n_iter"] = 41
            c["burn_in"] = dict(default=10, zero=0, given=17)[s["burn"]]
            c["theta"] = float(rng.choice([2., 100.])) if s["kernel"] != "periodic" else 1.5
            c["every"] = 7
        c["id"] = "WP-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    warnings.simplefilter("ignore")
    from scipy import stats
    from sklearn.base import clone
    from sklearn.utils import Bunch

    from regain.bayesian import gaussian_process_ as gp
    from regain.bayesian import sampling as sa
    from regain.bayesian import wishart_process_ as w
    k = c["kind"]
    p = c["p"]
    A = np.array
    np.random.seed(c["seed"])
    if k == "con":
        u, L = A(c["u"]), A(c["L"])
        u0, L0 = u.copy(), L.copy()
        V = sa.GWP_construct(u, L)
        return dict(shape=list(V.shape), Vt=F(np.moveaxis(V, -1, 0)), clean=bool(np.array_equal(u, u0) and np.array_equal(L, L0)))
    if k == "gp":
        x = gp.sample(A(c["K"]), nu=c["nu"], p=p)
        return dict(shape=list(x.shape), x=F(np.moveaxis(x, 0, -1)))
    if k == "pred":
        u, L, t, te = A(c["u"]), A(c["L"]), A(c["t"]), A(c["te"])
        o = [v.copy() for v in (u, L, t, te)]
        kern = lambda X, Y=None, inverse_width=None: rbf(X[:, 0], X[:, 0] if Y is None else Y[:, 0], inverse_width)
        V = w.predict(te, t, u, L, kern, c["w"])
        return dict(Vt=F(np.moveaxis(V, -1, 0)), clean=all(np.array_equal(a, b) for a, b in zip((u, L, t, te), o)))
    if k == "ess":
        K, L, cs, x0 = A(c["K"]), A(c["L"]), A(c["cs"]), A(c["x0"])
        lik = lambda V: float(-.5 * np.dot(cs, np.einsum("iit->t", V)))
        shape = (c["nu"], p, c["T"])
        R = np.linalg.cholesky(K).T
        full = np.kron(np.eye(c["nu"] * p), R)
        kw = {} if c["angle"] == "whole" else dict(angle_range=2.)
        x1, x5, fall, some, moved = [], [], [], [], 0
        for j in range(x0.shape[1]):
            u = x0[:, j].reshape(shape)
            V = sa.GWP_construct(u, L)
            ll = lik(V)
            prior = np.random.randn(*shape).dot(R) if c["prior"] == "sample" else full
            st = sa.elliptical_slice(Bunch(xx=u.copy(), V=V, L=L, log_likelihood=None if c["start"] == "none" else ll), prior, likelihood=lik, **kw)
            x1.append(np.array(st.xx).ravel())
            moved += not np.array_equal(st.xx, u)
            fall.append(ll - lik(sa.GWP_construct(st.xx, L)))
            for _ in range(c["steps"] - 1):
                prior = np.random.randn(*shape).dot(R) if c["prior"] == "sample" else full
                st = sa.elliptical_slice(st, prior, likelihood=lik, **kw)
            x5.append(np.array(st.xx).ravel())
            if j < 6 and st.log_likelihood is not None:
                some.append(dict(u=F(st.xx), V=F(np.moveaxis(st.V, -1, 0)), ll=F(float(st.log_likelihood))))
        return dict(x1=F(np.array(x1).T), x5=F(np.array(x5).T), fall=F(fall), some=some, moved=F(moved / x0.shape[1]))
    if k == "essb":
        tr, took, end = [], [], []
        # u = x cos + nu sin over three times: the squares give the angle within (-pi/2, pi/2)
        x, nu = A([1., 0., 1.]).reshape(1, 1, 3), A([0., 1., 1.]).reshape(1, 1, 3)
        angle = lambda v: float(.5 * np.arctan2(v[2] - v[0] - v[1], v[0] - v[1]))
        for _ in range(700):
            seen = []

            def lik(V):
                seen.append(angle(np.ravel(V)))
                return -c["kk"] * seen[-1] ** 2
            st = sa.elliptical_slice(Bunch(xx=x.copy(), V=sa.GWP_construct(x, np.eye(1)), L=np.eye(1), log_likelihood=0.), nu, likelihood=lik, angle_range=c["width"])
            u = np.ravel(st.xx)
            tr.append(F([a for a in seen if a != 0] or [0.]))
            took.append(not np.array_equal(st.xx, x))
            end.append(float(np.arctan2(u[1], u[0])))
        return dict(tr=tr, took=took, end=F(end))
    if k == "ell":
        u, x0 = A(c["u"]), A(c["x0"])
        lik = lambda V: float(-.5 * c["c_"] * np.einsum("iit->", V))
        pd = stats.norm(c["mean_"], c["sd"])
        step = lambda x: np.array(sa.sample_ell(np.array(x), c["vp"] if c["var"] == "scalar" else A(c["vp"]), u, prior_distr=pd, likelihood=lik))
        x1 = [step(x) for x in x0.T]
        x5 = x1
        for _ in range(c["sweeps"] - 1):
            x5 = [step(x) for x in x5]
        x1, x5 = A(x1).T, A(x5).T
        return dict(x5=F(x5), x1=F(x1), moved=F((x1 != x0).mean(1)))
    pr = stats.lognorm(loc=0, s=c.get("sigma"), scale=np.exp(c.get("mu_", 0)))
    if k == "hyp":
        T = c["T"]
        kern = (lambda inverse_width: np.eye(T) * inverse_width) if c["g"] == "scale" else (lambda inverse_width: np.eye(T))
        U, l0 = A(c["U"]), A(c["l0"])
        r = [sa.sample_hyper_kernel(np.exp(l), c["vp"], U[j], kern, pr) for j, l in enumerate(l0)]
        th = A([x[0] for x in r])
        mv = th != np.exp(l0)
        return dict(l1=F(np.log(th)), positive=bool((th > 0).all()), flags=bool((mv == A([bool(x[1]) for x in r])).all()), moved=F(mv.mean()))
    if k == "chain":
        kern = (lambda inverse_width: np.array([[float(inverse_width)]])) if c["g"] == "scale" else (lambda inverse_width: np.eye(1))
        lik = lambda V: float(-.5 * c["c_"] * V.sum())
        r = w.fit(np.exp(c["mu_"] + 1.6), .6, pr, 1., stats.norm(c["mL"], c["sL"]), kern, 1, nu=1, n_iter=c["n_iter"], likelihood=lik, L=None if c["ell"] == "learn" else A([[c["L0"]]]))
        return dict(u=F(A(r[0]).ravel()), ll=F(r[1]), lp=F(np.log(r[2])), L=F(A(r[3]).ravel()) if c["ell"] == "learn" else [], n=len(r))
    T = c["T"]
    X, y = np.vstack([A(x) for x in c["X"]]), np.concatenate([[int(cl)] * len(x) for cl, x in zip(c["classes"], c["X"])])
    o = np.random.permutation(len(y))
    X, y = X[o], y[o]
    X0, y0 = X.copy(), y.copy()
    kw = dict(theta=c["theta"], n_iter=c["n_iter"], assume_centered=c["centred"], learn_ell=c["ell"] == "learn", var_Lprop=.5)
    if c["burn"] != "default":
        kw["burn_in"] = c["burn_in"]
    if c["kernel"] != "default":
        kw["kernel"] = c["kernel"]
    kw.update(mu_prior=.7, var_prior=1.9, mu_Lprior=.4, var_Lprior=2.3) if c["seed"] % 2 else None
    e = w.WishartProcess(**kw)
    np.random.seed(c["seed"])
    e.fit(X, y)
    g = e.get_params()
    # the priors the chain was given, where the estimator shows them
    priors = [[float(d.mean()), float(d.var()), float(g[a]), float(g[b])] for d, a, b in
              ((getattr(e, "prior_theta_kernel", None), "mu_prior", "var_prior"), (getattr(e, "prior_ell", None), "mu_Lprior", "var_Lprior")) if hasattr(d, "mean")]
    e2 = clone(e)
    np.random.seed(c["seed"])
    e2.fit(X, y)
    g = e.get_params()
    params = all(g[a] == v for a, v in kw.items()) and e.set_params(mu_prior=g["mu_prior"]).get_params() == g
    learn = c["ell"] == "learn"
    short = w.fit(1., 1., stats.lognorm(1.), 1., stats.norm(), lambda inverse_width: np.eye(T), p, n_iter=3, likelihood=lambda V: 0.)
    n = len(e.loglikes_after_burnin)
    Ls = [F(e.Lmap)] * n if not learn else [F(x) for x in e.Ls_after_burnin]
    Y, yy = np.vstack([A(x) for x in c["Y"]]), np.concatenate([[int(cl)] * len(x) for cl, x in zip(c["classes"], c["Y"])])
    o = np.random.permutation(len(yy))
    return dict(priors=F(priors), ll=F(e.loglikes_after_burnin), us=[F(x) for x in e.samples_u_after_burnin], Ls=Ls, lp=F(e.lps_after_burnin), n_u=len(e.samples_u_after_burnin),
                n_lp=len(e.lps_after_burnin), n_L=len(Ls), pos=int(np.argmax(e.loglikes_after_burnin)), umap=F(e.u_map), Lmap=F(e.Lmap), lmap=F(float(e.lmap)),
                default_nu=len(short[0][0]), cov=F(e.covariance_), Dmap=F(np.moveaxis(e.D_map, -1, 0)), prec=F(e.precision_), loc=F(e.location_), classes=F(np.asarray(e.classes_, float)),
                score=F(float(e.score(Y[o], yy[o]))), again=bool(np.allclose(e.covariance_, e2.covariance_, rtol=1e-10)), params=bool(params),
                clean=bool(np.array_equal(X, X0) and np.array_equal(y, y0)))
