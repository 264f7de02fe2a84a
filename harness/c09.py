import numpy as np

from core import F
from hlib import rs, samples
SPEC = "GroupConf"
LIMIT = 120


def build(ctx):
    sc = ctx.scenarios("ScenGroup")
    for s in sc:
        s["first"], s["last"], s["k"] = s["hist"][0], s["hist"][-1], len(s["hist"])
    out, fb = [], 0
    for i, s in enumerate(ctx.cover(sc, ctx.pick(160, 600), pairs=(("est", "first"), ("est", "last"), ("est", "k"), ("est", "cent")))):
        rng = rs(ctx.seed, "grp", i)
        est = s["est"]
        temporal = est not in ("GL", "LGL")
        T, d = (int(rng.randint(2, 5)) if temporal else 1), int(rng.randint(2, 4))
        if est == "FB":
            fb += 1
            T, d = 2 + T % 2, 2
            if fb > ctx.pick(8, 40):
                continue
        ns = [int(v) for v in rng.randint(4 * d, 7 * d, T)]
        X = np.vstack([samples(rng, n, d, "shifted" if not s["cent"] else "corr") for n in ns]).round(4)
        g = np.concatenate([[t + 1] * ns[t] for t in range(T)])
        p = rng.permutation(len(g))
        X, g = X[p], g[p]
        labels = [int(v) for v in np.cumsum(rng.randint(1, 4, T)) - 4]
        c = dict(est=est, cent=s["cent"], T=T, X=F(X), g=[int(v) for v in g], classes=labels if temporal else [])
        n, nd, ops = len(g), d, []
        new = list(labels)
        cur = g.copy()
        for st in s["hist"]:
            if st == "samples":
                arg = [int(v) + 1 for v in rng.permutation(n)]
            elif st == "block":
                order = np.argsort(cur * (1 if rng.rand() < .5 else -1), kind="stable")
                arg = [int(v) + 1 for v in order]
            elif st == "labels":
                arg = [int(v) for v in np.cumsum(rng.randint(1, 9, T)) - 20]
                new = arg
            elif st == "strlabels":
                arg = ["t%02d" % v for v in np.cumsum(rng.randint(1, 9, T))]
                new = arg
            elif st == "features":
                arg = [int(v) + 1 for v in rng.permutation(d)]
            elif st == "shift":
                arg = F(rng.uniform(-3, 3, (T, d)).round(3))
            else:
                arg = int(rng.randint(2, 4))
                n *= arg
                cur = np.tile(cur, arg)
            if st in ("samples", "block"):
                cur = cur[np.array(arg) - 1]
            ops.append(dict(op=st, arg=arg))
        c["ops"], c["classes_after"] = ops, new if temporal else []
        c["pars"] = dict(alpha=round(float(rng.uniform(.05, .3)), 3), beta=round(float(rng.uniform(.05, .4)), 3),
                         tau=round(float(rng.uniform(.3, .9)), 3), eta=round(float(rng.uniform(.05, .3)), 3))
        c["id"] = "G-%03d-%s-%s-%s" % (i, est, "c" if s["cent"] else "u", "-".join(s["hist"]))
        out.append(c)
    return out


def transform(X, g, ops):
    for o in ops:
        a = o["arg"]
        if o["op"] in ("samples", "block"):
            idx = np.array(a) - 1
            X, g = X[idx], g[idx]
        elif o["op"] == "features":
            X = X[:, np.array(a) - 1]
        elif o["op"] == "shift":
            X = X + np.array(a)[g - 1]
        elif o["op"] == "dup":
            X, g = np.tile(X, (a, 1)), np.tile(g, a)
    return X, g


def make(c, mult, T):
    from regain.covariance import GraphicalLasso, LatentGraphicalLasso, LatentTimeGraphicalLasso, TimeGraphicalLasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import KernelLatentTimeGraphicalLasso
    from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso
    from regain.forward_backward.time_graphical_lasso_ import TimeGraphicalLassoForwardBackward
    e, p = c["est"], c["pars"]
    w = 10.0 * mult if e not in ("GL", "LGL") else 1.0
    q = dict(tol=1e-7, rtol=1e-7, max_iter=1500, assume_centered=c["cent"], alpha=p["alpha"] * w)
    K = np.minimum(1, 0.5 ** np.abs(np.subtract.outer(np.arange(T), np.arange(T)))) * p["beta"] * w
    np.fill_diagonal(K, 1)
    if e in ("LTGL", "KLTGL"):
        q["rho"] = 5.0
    if e == "GL":
        return GraphicalLasso(**q)
    if e == "LGL":
        return LatentGraphicalLasso(tau=p["tau"], **q)
    if e == "TGL":
        return TimeGraphicalLasso(beta=p["beta"] * w, psi="l1", **q)
    if e == "LTGL":
        return LatentTimeGraphicalLasso(beta=p["beta"] * w, psi="l2", tau=p["tau"] * w, eta=p["eta"] * w, phi="laplacian", **q)
    if e == "KTGL":
        return KernelTimeGraphicalLasso(kernel=K, psi="l1", **q)
    if e == "KLTGL":
        return KernelLatentTimeGraphicalLasso(kernel_psi=K, kernel_phi=K, tau=p["tau"] * w, psi="l1", phi="laplacian", **q)
    q.pop("rtol")
    q.update(tol=1e-9, max_iter=2500)
    return TimeGraphicalLassoForwardBackward(beta=p["beta"] * w, gamma=1.0 / w, delta=0.5, laplacian_penalty=True, **q)


def reference(c, S, n, mult):
    """The public solver function on the groups' covariances with the estimator's parameters."""
    from regain.covariance.graphical_lasso_ import graphical_lasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import kernel_latent_time_graphical_lasso
    from regain.covariance.kernel_time_graphical_lasso_ import kernel_time_graphical_lasso
    from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
    from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
    from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward
    f = dict(GL=graphical_lasso, LGL=latent_graphical_lasso, TGL=time_graphical_lasso, LTGL=latent_time_graphical_lasso,
             KTGL=kernel_time_graphical_lasso, KLTGL=kernel_latent_time_graphical_lasso, FB=tgl_forward_backward)[c["est"]]
    import inspect
    p = make(c, mult, c["T"]).get_params()
    kw = {k: v for k, v in p.items() if k in inspect.signature(f).parameters and not k.startswith("return_")}
    if c["est"] in ("GL", "LGL"):
        return f(S[0], return_n_iter=False, **kw)[0]
    return f(S, n_samples=n, return_n_iter=False, **kw)[0]


def record(c, X, g, labels, mult):
    T = c["T"]
    e = make(c, mult, T)
    temporal = c["est"] not in ("GL", "LGL")
    y = np.array(labels)[g - 1] if temporal else None
    e.fit(X, y) if temporal else e.fit(X)
    G = [X[g == t + 1] for t in range(T)]
    S = np.array([(x - (0 if c["cent"] else x.mean(0))).T.dot(x - (0 if c["cent"] else x.mean(0))) / len(x) for x in G])
    n = np.array([len(x) for x in G])
    one = (lambda a: F(a)) if temporal else (lambda a: F([a]))
    return dict(K=one(e.precision_), KS=one(reference(c, S, n, mult)),
                L=one(e.latent_) if c["est"] in ("LGL", "LTGL", "KLTGL") else [],
                loc=one(e.location_), classes=[str(v) if isinstance(v, str) else int(v) for v in e.classes_] if temporal else [],
                S=F(S), n=[int(v) for v in n])


def observe(c):
    X, g = np.array(c["X"]), np.array(c["g"])
    base = record(c, X, g, c["classes"], 1)
    X2, g2 = transform(X, g, c["ops"])
    mult = 1
    for o in c["ops"]:
        if o["op"] == "dup":
            mult *= o["arg"]
    return dict(base=base, run=record(c, X2, g2, c["classes_after"], mult))
