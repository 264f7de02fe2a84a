"""Discriminant analysis."""
import numpy as np

from core import F
from hlib import catch, rs, samples
SPEC = "BayesConf"
LIMIT = 200
ASSUMPTIONS = ["Temporal estimators (one precision per class) as documented; a stub estimator supplies arbitrary precisions."]


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenBayes"), ctx.pick(130, 600), pairs=(("est", "pd", "again"), ("est", "labels", "order"), ("est", "prior"), ("T", "d", "prior"), ("bal", "prior", "labels"), ("pd", "T")))):
        rng = rs(ctx.seed, "bayes", i, sorted(s.items()))
        c = dict(s)
        T, d = s["T"], s["d"]
        c["X"], c["y"] = [], []
        for r in range(1 + s["again"]):
            ns = [14] * T if s["bal"] else [int(v) for v in rng.permutation(np.arange(10, 24))[:T]]
            if s["est"] == "FB":
                ns = [14] * T
            X = np.vstack([samples(rng, n, d, "shifted") + .6 * rng.randn(d) for n in ns]).round(4)
            y = np.repeat(np.arange(1, T + 1), ns)
            if s["order"] == "shuffled":
                p = rng.permutation(len(y))
                X, y = X[p], y[p]
            c["X"].append(F(X))
            c["y"].append([int(v) for v in y])
        pri = rng.dirichlet(np.ones(T) * (.3 if s["prior"] == "extreme" else 3)) * .98 + .02 / T
        c["priors"] = F((pri / pri.sum()))
        P = []
        for _ in range(T):
            A = rng.randn(d, d)
            A = (A + A.T) / 2
            P.append(A + np.eye(d) * (np.abs(A).sum(1).max() + .2))
        if s["pd"] == "ensure-indef":
            for g in rng.choice(T, size=int(rng.randint(1, T + 1)), replace=False):
                P[g] = P[g] - np.eye(d) * (np.linalg.eigvalsh(P[g])[0] + .3)
        c["P"], c["loc"] = F(np.array(P)), F(rng.randn(T, d))
        c["test"] = F(np.vstack([np.array(c["X"][0])[:9], 2 * rng.randn(6, d), 8 * rng.randn(3, d)]).round(4))
        c["seed"] = int(rng.randint(1 << 30))
        c["id"] = "B-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


LAB = dict(int=[0, 1, 2, 3], gap=[2, 3, 7, 11], neg=[-5, -1, 0, 4], str=["alpha", "beta", "gamma", "zeta"])


def observe(c):
    from regain.covariance import LatentTimeGraphicalLasso, TimeGraphicalLasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import KernelLatentTimeGraphicalLasso
    from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso
    from regain.discriminant_analysis import DiscriminantAnalysis, PrecomputedDiscriminantAnalysis
    T = c["T"]
    seen = []

    class Stub(object):
        def fit(self, X, y):
            seen.append([int(v) for v in y])
            self.precision_ = np.array(c["P"])
            if c["est"] == "stubcov":
                self.covariance_ = np.array([np.linalg.inv(p) for p in self.precision_]) * 1.3
            if c["est"] != "stubloc":
                self.location_ = np.array(c["loc"])
            return self
    e = c["est"]
    if e == "FB":
        from regain.forward_backward.time_graphical_lasso_ import TimeGraphicalLassoForwardBackward
        est = TimeGraphicalLassoForwardBackward(alpha=.1, beta=.1, max_iter=15, time_norm=1)
    else:
        est = dict(TGL=lambda: TimeGraphicalLasso(alpha=.1, max_iter=30), TGLc=lambda: TimeGraphicalLasso(alpha=.1, max_iter=30, assume_centered=True),
                   KTGL=lambda: KernelTimeGraphicalLasso(alpha=.1, kernel=np.ones((T, T)) * .3 + .7 * np.eye(T), max_iter=30), LTGL=lambda: LatentTimeGraphicalLasso(alpha=.1, tau=2., max_iter=30),
                   KLTGL=lambda: KernelLatentTimeGraphicalLasso(alpha=.1, tau=2., max_iter=30, kernel_psi=np.eye(T), kernel_phi=np.eye(T)),
                   pre=lambda: PrecomputedDiscriminantAnalysis(c["P"])).get(e, Stub)()
    kw = {}
    if c["prior"] != "freq":
        kw["priors"] = list(c["priors"]) if c["prior"] == "list" else np.array(c["priors"])
    da = DiscriminantAnalysis(est, ensure_posdef=c["pd"] != "asis", **kw)
    lab = np.array(LAB[c["labels"]])[:T]
    rank = {v: k + 1 for k, v in enumerate(lab.tolist())}
    runs = []
    for X, y in zip(c["X"], c["y"]):
        X, yy = np.array(X), lab[np.array(y) - 1]
        X0, y0 = X.copy(), yy.copy()
        catch(da.fit, X, yy)
        t = np.array(c["test"])
        t0 = t.copy()
        rng = rs(c["seed"], "truth")
        truth = rng.randint(T, size=len(t))
        w = rng.randint(1, 5, size=len(t)).astype(float) if c["bal"] else None
        pred, prob, dec = da.predict(t), da.predict_proba(t), np.asarray(da.decision_function(t))
        sc = da.score(t, lab[truth], sample_weight=w) if w is not None else da.score(t, lab[truth])
        P = np.array(est.precision_)
        kept = bool(np.array_equal(P, np.array(c["P"]))) if e.startswith("stub") or e == "pre" else bool(np.allclose([np.linalg.pinv(p) for p in P], est.covariance_, atol=1e-6))
        runs.append(dict(classes=[rank.get(v, 0) for v in np.asarray(da.classes_).tolist()], priors=F(da.priors_), means=F(da.means_), precision=F(da.precision_), covariance=F(da.covariance_),
                         est_precision=F(P), est_has_cov=hasattr(est, "covariance_"), est_cov=F(est.covariance_) if hasattr(est, "covariance_") else [],
                         est_has_loc=hasattr(est, "location_"), est_loc=F(est.location_) if hasattr(est, "location_") else [], fit_y=seen[-1] if seen else [],
                         test=F(t), pred=[rank.get(v, 0) for v in np.asarray(pred).tolist()], proba=F(prob), decision=F(dec if dec.ndim == 2 else dec[:, None]),
                         truth=[int(v) + 1 for v in truth], weight=F(w if w is not None else np.ones(len(t))), score=F(float(sc)), kept=kept,
                         clean=bool(np.array_equal(X, X0) and np.array_equal(yy, y0) and np.array_equal(t, t0))))
    return dict(runs=runs)
