import numpy as np

from c09 import make
from core import F
from hlib import covs, rs, samples
SPEC = "ScoreConf"
LIMIT = 120


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenScore"), ctx.pick(150, 700),
                                    pairs=(("est", "test"), ("est", "norm"), ("est", "cent"), ("est", "scaling"), ("est", "squared")))):
        rng = rs(ctx.seed, "score", i)
        c = dict(s)
        if s["est"] in ("norm", "norm3"):
            d, T = int(rng.randint(2, 5)), int(rng.randint(2, 4))
            A, B = covs(rng, T, d, "corr"), covs(rng, T, d, "scaled")
            c["A"], c["B"] = (F(A[0]), F(B[0])) if s["est"] == "norm" else (F(A), F(B))
        else:
            temporal = s["est"] not in ("GL", "LGL")
            T, d = (int(rng.randint(2, 4)) if temporal else 1), int(rng.randint(2, 4))
            if s["est"] == "FB":
                T, d = 2, 2
            labels = [int(v) for v in np.cumsum(rng.randint(1, 4, T))]
            kind = "corr" if s["cent"] else "shifted"
            def draw(ns, kind):
                X = np.vstack([samples(rng, n, d, kind) + (0 if s["cent"] else t) for t, n in enumerate(ns)]).round(4)
                y = np.repeat(labels, ns)
                p = rng.permutation(len(y))
                return X[p], y[p]
            X, y = draw([int(v) for v in rng.randint(4 * d, 7 * d, T)], kind)
            if s["test"] == "train":
                Xt, yt = X, y
            elif s["test"] == "other":
                Xt, yt = draw([8] * T, kind)
            elif s["test"] == "unbalanced":
                Xt, yt = draw([3 + 7 * t for t in range(T)], kind)
            elif s["test"] == "shifted":
                Xt, yt = draw([6] * T, kind)
                Xt = Xt + 2.5
            else:
                Xt, yt = draw([1] * T, kind)
            c.update(T=T, X=F(X), y=[int(v) for v in y], Xt=F(Xt), yt=[int(v) for v in yt], classes=labels, B=F(covs(rng, T, d, "corr")))
            c["pars"] = dict(alpha=round(float(rng.uniform(.05, .3)), 3), beta=round(float(rng.uniform(.05, .4)), 3),
                             tau=round(float(rng.uniform(.3, .9)), 3), eta=round(float(rng.uniform(.05, .3)), 3))
        c["id"] = "S-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.utils import error_norm, error_norm_time
    kw = dict(norm=c["norm"], scaling=c["scaling"], squared=c["squared"])
    if c["est"] in ("norm", "norm3"):
        A, B = np.array(c["A"]), np.array(c["B"])
        o = dict(value=float(error_norm(A, B, upper_triangular=c["upper"], n=c["unit"], **kw)), self=float(error_norm(A, A.copy(), **kw)))
        if c["est"] == "norm3":
            o["time"] = float(error_norm_time(A, B, **kw))
        return dict(o, A=F(A), B=F(B))
    e = make(c, 1, c["T"]).set_params(tol=1e-5, max_iter=400)
    X, y, Xt, yt = np.array(c["X"]), np.array(c["y"]), np.array(c["Xt"]), np.array(c["yt"])
    static = c["est"] in ("GL", "LGL")
    one = (lambda a: F([a])) if static else F
    e.fit(X) if static else e.fit(X, y)
    B = np.array(c["B"])
    sc = lambda: float(e.score(Xt) if static else e.score(Xt, yt))
    o = dict(K=one(e.precision_), L=one(e.latent_) if hasattr(e, "latent_") else [], cov=one(e.covariance_), score=sc(),
             enorm=float(e.error_norm(B[0] if static else B, **kw)),
             obs=one(e.get_precision() if static else e.get_observed_precision()))
    if static:
        o["mahal"] = F(e.mahalanobis(Xt))
    o["again"] = sc()
    return o
