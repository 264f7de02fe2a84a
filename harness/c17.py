import numpy as np

from core import F
from hlib import rs
SPEC = "LassoConf"
LIMIT = 120
LAM = dict(tiny=.01, small=.1, mid=.6, big=2.0, huge=40.0)


def groups(kind, d, rng):
    if kind == "singles":
        return [[i] for i in range(d)]
    if kind == "pairs":
        return [list(range(i, min(i + 2, d))) for i in range(0, d, 2)]
    if kind == "mixed":
        return [[0], list(range(1, d))]
    if kind == "shuffled":
        p = [int(v) for v in rng.permutation(d)]
        return [p[:2], p[2:]]
    if kind == "nested":
        return [list(range(0, 2)), list(range(1, d)), [0, d - 1]]
    if kind == "one":
        return [list(range(d))]
    return [[0, 1], list(range(1, d - 1))]           # last feature in no group


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenLasso"), ctx.pick(164, 720),
                                    pairs=(("fn", "gr"), ("fn", "lam"), ("fn", "opt"), ("fn", "shape"), ("fn", "mode"), ("mode", "jobs", "targets"), ("mode", "norm")))):
        rng = rs(ctx.seed, "lasso", i, sorted(s.items()))
        c = dict(s)
        d = 3 if s["fn"] in ("class", "classifier") else int(rng.randint(3, 5))
        n = dict(tall=d + 5, square=d, fat=d - 1)[s["shape"]]
        A = rng.randn(n, d).round(3)
        if s["fn"] == "prox":
            A = np.eye(d)
        w = rng.randn(d) * (rng.rand(d) < .7) * 2
        b = (A.dot(w) + .3 * rng.randn(n)).round(3)
        c["A"], c["b"] = F(A), F(b)
        g = groups(s["gr"], d, rng)
        c["groups"] = [[v + 1 for v in x] for x in g]
        lam = LAM[s["lam"]] * float(rng.uniform(.7, 1.4))
        c["rho"] = 1.0 if s["opt"] != "rho" else round(float(rng.choice([.4, 2.5])), 2)
        c["relax"] = 1.0 if s["opt"] != "relax" else round(float(rng.choice([.8, 1.5])), 2)
        c["tol"], c["rtol"] = (1e-2, 1e-2) if s["opt"] == "loose" else (1e-8, 1e-8)
        c["max_iter"] = 60 if s["opt"] == "loose" else 6000
        if s["fn"] in ("latent",) or s["mode"] == "paspal":
            lam /= 4
        c["lamda"] = round(lam, 4)
        if s["fn"] == "class":
            B = np.array([b, A.dot(rng.randn(d)) + .2 * rng.randn(n) + 1.0])[:s["targets"]].round(3)
            c["B"], c["At"] = F(B), F(rng.randn(4, d).round(3))
        if s["fn"] == "classifier":
            lab = ["a", "b", "c"][:s["targets"]]
            y = np.array([lab[k % s["targets"]] for k in range(n)])
            y = y[rng.permutation(n)]
            c["y"], c["classes"] = list(y), lab
            c["B"] = F([np.where(y == l, 1.0, -1.0) for l in (lab if len(lab) > 2 else lab[1:])])
            c["At"] = F(rng.randn(6, d).round(3))
        c["id"] = "R-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.linear_model.group_lasso_ import group_lasso
    from regain.linear_model.group_lasso_overlap_ import GroupLassoOverlap, GroupLassoOverlapClassifier, group_lasso_overlap
    from regain.linear_model.lasso_ import lasso
    from regain.wrapper.paspal.glopridu import glo_prox, glopridu_algorithm
    A, b = np.array(c["A"]), np.array(c["b"])
    A0, b0 = A.copy(), b.copy()
    G = [[v - 1 for v in g] for g in c["groups"]]
    fn = c["fn"]
    if fn in ("lasso", "group", "overlap"):
        kw = dict(lamda=c["lamda"], rho=c["rho"], max_iter=c["max_iter"], tol=c["tol"], rtol=c["rtol"])
        if fn == "lasso":
            x, h = lasso(A, b, alpha=c["relax"], return_history=True, **kw)
            plain, k = lasso(A, b, alpha=c["relax"], **kw), 0
        elif fn == "group":
            x, h = group_lasso(A, b, groups=G, alpha=c["relax"], return_history=True, **kw)
            plain, k = group_lasso(A, b, groups=G, alpha=c["relax"], **kw), 0
        else:
            x, h, k = group_lasso_overlap(A, b, groups=G, **kw)
            plain = x
        return dict(x=F(x), plain=F(plain), hist=[F([float(v) for v in r]) for r in h], k=int(k),
                    clean=bool(np.array_equal(A, A0) and np.array_equal(b, b0)))
    if fn == "latent":
        x, _, _ = glopridu_algorithm(A, b, G, c["lamda"], tol_ext=1e-9, tol_int=1e-7)
        return dict(x=F(x))
    if fn == "prox":
        # (1/2d)|x-b|^2 + lam*Omega has the same minimiser as 1/2|x-b|^2 + d*lam*Omega
        x, _, _ = glo_prox(b, c["lamda"] * len(b), [np.array(g) for g in G], np.ones(len(G)), None, 1e-9, 500)
        return dict(x=F(x))
    kw = dict(alpha=c["lamda"], groups=G, fit_intercept=c["icpt"], mode=c["mode"], max_iter=6000)
    kw.update(dict(tol=c["tol"], rtol=c["rtol"], rho=c["rho"]) if c["mode"] == "admm" else dict(tol=1e-9, rtol=1e-7))
    At = np.array(c["At"])
    kw.update(n_jobs=c["jobs"], normalize=c["norm"])
    import joblib

    def fit(e, y):
        # the same code in threads, which cost nothing to start
        y0 = y.copy()
        with joblib.parallel_backend("threading", n_jobs=2):
            e.fit(A, y)
        k = len(c["B"])
        return e, dict(sparse=F(e.sparse_coef_.toarray()), nhist=len(e.history_), n_iter=[int(v) for v in np.atleast_1d(e.n_iter_)],
                       clean=bool(np.array_equal(A, A0) and np.array_equal(y, y0)), icpt=F(np.broadcast_to(np.atleast_1d(e.intercept_), (k,))), coef=F(np.atleast_2d(e.coef_)))
    if fn == "class":
        B = np.array(c["B"])
        e, r = fit(GroupLassoOverlap(**kw), B[0] if len(B) == 1 else B.T)
        pr = e.predict(At)
        # short and loose runs of the class on plain data take the steps of the function
        r["twin"] = []
        for m, tol, rtol in ((3, 1e-4, 1e-3), (40, .03, .05)):
            q = dict(kw, fit_intercept=False, normalize=False, max_iter=m, tol=tol, rtol=rtol)
            if c["mode"] == "admm":
                q["rho"] = 2.5
                fs = [group_lasso_overlap(A, v, lamda=c["lamda"], groups=G, rho=2.5, max_iter=m, tol=tol, rtol=rtol) for v in B]
            else:
                fs = [glopridu_algorithm(A, v, G, c["lamda"], max_iter_ext=m, tol_ext=tol, tol_int=rtol) for v in B]
            with joblib.parallel_backend("threading", n_jobs=2):
                e1 = GroupLassoOverlap(**q).fit(A, B[0] if len(B) == 1 else B.T)
            r["twin"].append(dict(x=F(np.atleast_2d(e1.coef_)), k=[int(v) for v in np.atleast_1d(e1.n_iter_)], fx=F(np.array([np.ravel(v[0]) for v in fs])), fk=[int(v[2]) for v in fs]))
        return dict(r, pred=F([pr] if len(B) == 1 else pr.T), classes=[])
    e, r = fit(GroupLassoOverlapClassifier(**kw), np.array(c["y"]))
    return dict(r, pred=[str(v) for v in e.predict(At)], classes=[str(v) for v in e.classes_])
