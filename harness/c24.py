"""G-Wishart inference."""
import warnings

import numpy as np

from core import F
from hlib import rs, samples
SPEC = "GWConf"
LIMIT = 300
ASSUMPTIONS = ["BayesianGraphicalLasso draws graphs at random: optimality is compared with every graph of probability >= 0.08 (missed by 300 draws with probability below 1e-10).",
               "The second derivative counts a diagonal parameter twice, as in the reference implementation; it cancels in the scores."]


def graph(rng, p, kind):
    G = np.zeros((p, p), bool)
    for i in range(p):
        for j in range(i + 1, p):
            G[i, j] = dict(empty=False, full=True, chain=j == i + 1, cycle=j == i + 1 or (i == 0 and j == p - 1), random=rng.rand() < .5)[kind]
    return G | np.eye(p, dtype=bool)


def build(ctx):
    out = []
    sc = ctx.scenarios("ScenGW")
    k = lambda kind: [s for s in sc if s["kind"] == kind]
    pick = (k("ugs") + ctx.cover(k("mb"), ctx.pick(30, 100), pairs=(("p", "m", "unique"), ("boolean", "unique", "near")))
            + ctx.cover(k("sb"), ctx.pick(14, 36), pairs=(("p", "corr"), ("p", "al")))
            + ctx.cover(k("ps"), ctx.pick(40, 60), pairs=(("p", "g"), ("g", "sc")))
            + ctx.cover(k("gw"), ctx.pick(70, 360), pairs=(("g", "mode", "score"), ("p", "g", "score"), ("prior", "score", "mode"), ("n", "score")))
            + ctx.cover(k("bgl"), ctx.pick(22, 80), pairs=(("mode", "score", "top"), ("p", "alphas", "via"), ("centered", "via")))
            + ctx.cover(k("h"), ctx.pick(24, 48), pairs=(("p", "fn"), ("fn", "g"))))
    for i, s in enumerate(pick):
        rng = rs(ctx.seed, "gw", i, sorted(s.items()))
        c = dict(s)
        p = s["p"]
        kd = s["kind"]
        if kd == "mb":
            Gs = []
            for _ in range(s["m"]):
                if Gs and rng.rand() < .35:
                    Gs.append(Gs[int(rng.randint(len(Gs)))])
                    continue
                A = rng.randn(p, p) * graph(rng, p, "random")
                if s["near"]:
                    A = A + 1e-10 * rng.randn(p, p)
                A = np.triu(A)
                Gs.append(A + A.T)
            c["Gs"], c["tol"] = F(np.array(Gs)), 1e-8
        elif kd == "sb":
            c["X"] = F(samples(rng, 16, p, dict(iid="iid", strong="block", shifted="shifted")[s["corr"]]).round(4))
            Gs = [graph(rng, p, "random") for _ in range(3)]
            c["mb"] = [[[bool(v and j != t) for j, v in enumerate((G | G.T)[t])] for G in Gs] for t in range(p)]
            c["alphas"] = [.01, .5, 1.] if s["al"] == "default" else F(np.array([.05, .2]))
        elif kd == "ps":
            X = samples(rng, 4 * p + 4, p, "corr")
            if s["sc"] == "scaled":
                X = X * np.logspace(-1, 1.5, p)
            if s["sc"] == "near":
                X[:, 1] = X[:, 0] + .15 * X[:, 1]
            c["C"] = F((X.T.dot(X) + .1 * np.eye(p)) / len(X))
            c["G"] = [[bool(v) for v in r] for r in graph(rng, p, s["g"])]
        elif kd == "gw":
            n = int(rng.randint(p + 2, 2 * p + 4)) if s["n"] == "few" else int(rng.randint(25, 60))
            X = samples(rng, n, p, "shifted")
            if s["mode"] == "gl":
                # the alternating solver runs with its default budget: well-conditioned data only
                X = X / X.std(0) + .8 * rng.randn(n, p)
            c["X"] = F(X.round(4))
            c["G"] = [[bool(v) for v in r] for r in graph(rng, p, s["g"])]
            c["d0"] = float(rng.randint(3, 8))
            A = .3 * rng.randn(p, p)
            c["S0"] = F(dict(eye=np.eye(p), diag=np.diag(rng.uniform(.3, 3, size=p)), full=np.eye(p) + A.dot(A.T)).get(s["prior"], np.eye(p)))
        elif kd == "bgl":
            X = samples(rng, 30, p, "corr")
            X = X if s["centered"] else X + np.arange(p)
            c["X"] = F((X - X.mean(0) if s["centered"] else X).round(4))
            if s["mode"] == "gl":
                X = (X - X.mean(0)) / X.std(0) + .8 * rng.randn(30, p) + (0 if s["centered"] else np.arange(p))
                c["X"] = F((X - X.mean(0) if s["centered"] else X).round(4))
            S = np.cov(X.T, bias=True)
            top = np.abs(S - np.diag(np.diag(S))).max()
            c["alphas_"] = F(np.array([.3, .75] if s["alphas"] == "two" else [.5]) * top)
            c["tol"] = 1e-6
            c["seed"] = int(rng.randint(1 << 30))
        elif kd == "h":
            A = rng.randn(p, p)
            D = A.dot(A.T) + np.eye(p)
            G = graph(rng, p, s["g"])
            A = np.triu(rng.uniform(.2, 1, size=(p, p)) * rng.choice([-1, 1], size=(p, p)) * G, 1)
            A = A + A.T
            c["K"], c["D"], c["delta"] = F(A + np.diag(np.abs(A).sum(1) + rng.uniform(.5, 2, size=p))), F(D), float(rng.randint(3, 9))
        c["id"] = "GW-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    warnings.simplefilter("ignore")
    from regain.bayesian import gwishart_inference as g
    k = c["kind"]
    B = lambda M: [[bool(v) for v in r] for r in np.asarray(M)]
    if k == "ugs":
        return dict(Gs=[B(G) for G in g.mk_all_ugs(c["p"])])
    if k == "mb":
        Gs = [np.array(G) for G in c["Gs"]]
        G0 = [G.copy() for G in Gs]
        kw = {}
        if not c["boolean"]:
            kw["boolean"] = False
        if c["unique"]:
            kw["unique"] = True
        mb = g.markov_blankets(Gs, **kw)
        return dict(mb=[F(np.asarray(m).astype(float)) for m in mb], clean=all(np.array_equal(a, b) for a, b in zip(Gs, G0)))
    if k == "sb":
        X = np.array(c["X"])
        X0 = X.copy()
        mb = [np.array(m) for m in c["mb"]]
        v = g.score_blankets(mb, X) if c["al"] == "default" else g.score_blankets(mb, X, alphas=c["alphas"])
        return dict(v=F(v), clean=bool(np.array_equal(X, X0)))
    if k == "ps":
        C, G = np.array(c["C"]), np.array(c["G"])
        C0, G0 = C.copy(), G.copy()
        P = g.precision_selection(G, c["p"], C)
        return dict(P=F(P), clean=bool(np.array_equal(C, C0) and np.array_equal(G, G0)))
    if k == "gw":
        X, G, S0 = np.array(c["X"]), np.array(c["G"]), np.array(c["S0"])
        X0, G0, S1 = X.copy(), G.copy(), S0.copy()
        kw = {} if c["prior"] == "default" else dict(S0=S0)
        r = g.GWishartScore(X, G, d0=c["d0"], score_method=c["score"], mode=c["mode"], **kw)
        return dict(P=F(r.P), Sn=F(r.Sn), dn=F(float(r.dn)), num_edges=int(r.num_edges), dof=int(r.dof), loglik=F(float(r.loglik)), norm=F(float(r.lognormconst)) if c["score"] != "bic" else 0., score=F(float(r.score)),
                    clean=bool(np.array_equal(X, X0) and np.array_equal(G, G0) and np.array_equal(S0, S1)))
    if k == "h":
        from regain.bayesian import _laplace_approximation as la
        f = dict(h=la.h, first=la.first_derivative_h, first2=la.first_derivative_h_version2, second2=la.second_derivative_h_version2)[c["fn"]]
        return dict(v=F(f(np.array(c["D"]), np.array(c["K"]), delta=c["delta"])))
    from regain.covariance import GraphicalLasso
    X = np.array(c["X"])
    X0 = X.copy()
    kw = dict(tol=c["tol"], alphas=np.array(c["alphas_"]), n_resampling=300, mode=c["mode"], top_n=c["top"], scoring=c["score"], assume_centered=c["centered"], max_iter=500)
    np.random.seed(c["seed"])
    if c["via"] == "fn":
        P, cov, loc = g.bayesian_graphical_lasso(X, **kw), [], []
    else:
        e = g.BayesianGraphicalLasso(**kw).fit(X)
        P, cov, loc = e.precision_, e.covariance_, e.location_
    # class and function draw the same graphs under the same options: data off centre, also with the default penalties
    twin = []
    for al in (np.array(c["alphas_"]), None):
        q = dict(kw, n_resampling=25, alphas=al, max_iter=60, tol=1e-4)
        X1 = X + .6
        np.random.seed(c["seed"] // 3)
        P1 = g.bayesian_graphical_lasso(X1, **q)
        np.random.seed(c["seed"] // 3)
        twin.append([F(P1), F(g.BayesianGraphicalLasso(**q).fit(X1).precision_)])
    prec = [GraphicalLasso(alpha=a, tol=c["tol"], max_iter=500, assume_centered=c["centered"]).fit(X).precision_ for a in c["alphas_"]]
    return dict(twin=twin, P=F(P), cov=F(cov), loc=F(loc), prec=F(np.array(prec)), clean=bool(np.array_equal(X, X0)))
