import copy
import json
import pickle

import numpy as np

from core import F, enc
from hlib import rs, samples
SPEC = "LifeConf"
LIMIT = 200
ESTS = ("GL", "LGL", "TGL", "LTGL", "KTGL", "KTGLf", "KLTGL", "SimTGL", "SimLTGL", "FB", "MGL", "LTMD",
        "fnGL", "fnLGL", "fnTGL", "fnLTGL", "fnKTGL", "fnKLTGL", "fnFB", "fnLTMD", "fnIC")


def build(ctx):
    sc = ctx.scenarios("ScenLife")
    out = []
    n = ctx.pick(30, 150)
    for e, est in enumerate(ESTS):
        rng = rs(ctx.seed, "life", est)
        # histories with two or more fits first
        multi = [s for s in sc if sum(o["op"] == "fit" for o in s["ops"]) >= 2]
        single = [s for s in sc if sum(o["op"] == "fit" for o in s["ops"]) < 2]
        m = n if est[-2:] != "FB" and est[:2] != "fn" else n // 2
        pick = [multi[i] for i in rng.permutation(len(multi))[:m * 2 // 3]] + [single[i] for i in rng.permutation(len(single))[:m - m * 2 // 3]]
        for k, s in enumerate(pick):
            c = dict(est=est, ops=s["ops"], seed=int(rng.randint(1 << 30)))
            c["id"] = "H-%s-%02d-%s" % (est, k, ".".join(o["op"][:2] + o["arg"][-1:] for o in s["ops"]))
            out.append(c)
    return out


class Fn:
    """The public solver functions seen as estimators: fit calls the function on the caller's arrays."""

    def __init__(self, fn, kw):
        self.fn, self.kw = fn, kw

    def get_params(self, deep=True):
        return self.kw

    def set_params(self, **kw):
        self.kw = kw
        return self

    def fit(self, S, extra=None):
        from regain.covariance.graphical_lasso_ import graphical_lasso
        from regain.covariance.infimal_convolution_ import infimal_convolution
        from regain.covariance.kernel_latent_time_graphical_lasso_ import kernel_latent_time_graphical_lasso
        from regain.covariance.kernel_time_graphical_lasso_ import kernel_time_graphical_lasso
        from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
        from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
        from regain.covariance.latent_time_matrix_decomposition import latent_time_matrix_decomposition
        from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
        from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward
        f = dict(GL=graphical_lasso, LGL=latent_graphical_lasso, TGL=time_graphical_lasso, LTGL=latent_time_graphical_lasso,
                 KTGL=kernel_time_graphical_lasso, KLTGL=kernel_latent_time_graphical_lasso, FB=tgl_forward_backward,
                 LTMD=latent_time_matrix_decomposition, IC=infimal_convolution)[self.fn]
        d, start = S.shape[-1], None
        kw = dict(self.kw)
        if extra is not None:
            kw["n_samples"] = extra
        if kw.pop("start", "") == "array":
            kw["init"] = start = np.tile(np.eye(d), (len(S), 1, 1)) if S.ndim == 3 else np.eye(d)
        r = f(S, **kw)
        self.precision_, self.latent_ = r[0], r[1]
        if start is not None and not np.array_equal(start, np.zeros_like(start) + np.eye(d)):
            raise AssertionError("init array modified")
        return self


def data_fn(fn, rng):
    from hlib import covs
    out = {}
    for name, T, d in (("D1", 3, 3), ("D2", 3 if fn in ("KTGL", "KLTGL") else 4, 2)):
        S = covs(rng, T, d, "corr")
        if fn in ("LTMD", "IC"):
            S = S - .3
        out[name] = (S[0], None) if fn in ("GL", "LGL", "IC") else (S, None if fn == "LTMD" else rng.randint(5, 20, T))
    return out


def params_fn(fn, which):
    one = which == "P1"
    q = dict(alpha=.1 if one else .3, max_iter=40 if one else 60, tol=1e-4, return_history=not one)
    if fn not in ("FB",):
        q.update(rtol=1e-4, rho=1.0 if one else 2.0, update_rho_options=None if one else dict(mu=5.0, tau_inc=1.5, tau_dec=1.5))
    if fn in ("LGL", "LTGL", "KLTGL", "LTMD", "IC"):
        q["tau"] = .7
    if fn in ("TGL", "LTGL", "LTMD", "FB"):
        q["beta"] = .5
    if fn in ("LTGL", "LTMD"):
        q.update(eta=.5, phi="l1")
    if fn in ("TGL", "LTGL", "KTGL", "KLTGL", "LTMD"):
        q["psi"] = "l2" if one else "laplacian"
    if fn not in ("FB", "LTMD", "IC"):
        q["start"] = "array" if one else ""
    K = np.array([[1, .5, .2], [.5, 1, .5], [.2, .5, 1]]) * (1 if one else 2)
    np.fill_diagonal(K, 1)
    if fn == "KTGL":
        q["kernel"] = K
    if fn == "KLTGL":
        q.update(kernel_psi=K, kernel_phi=K.copy())
    if fn == "FB":
        q.update(max_iter=6, gamma=.1, delta=.5)
    return q


def data(est, rng):
    if est[:2] == "fn":
        return data_fn(est[2:], rng)
    kernel = est in ("KTGL", "KLTGL")
    T1, T2 = (3, 3) if kernel else (3, 4)
    out = {}
    for name, T, d in (("D1", T1, 3), ("D2", T2, 2)):
        ns = rng.randint(8, 14, T)
        X = np.vstack([samples(rng, n, d, "shifted") for n in ns])
        y = np.repeat(np.cumsum(rng.randint(1, 3, T)), ns)
        if est == "MGL":
            X[rng.rand(*X.shape) < .1] = np.nan
            X = X - np.nanmean(X, 0)
        if est == "LTMD":
            A = rng.randn(T, d, d)
            X = A + A.transpose(0, 2, 1)
        p = rng.permutation(len(y))
        out[name] = (X, None) if est in ("GL", "LGL", "MGL", "LTMD") else (X[p], y[p])
    return out


def params(est, which, rng):
    if est[:2] == "fn":
        return params_fn(est[2:], which)
    one = which == "P1"
    q = dict(alpha=.11 if one else .43, max_iter=60 if one else 90, tol=1e-4 if one else 1e-5)
    if est not in ("GL", "LGL", "MGL"):
        q["alpha"] *= 8
    if est != "FB":
        q.update(rtol=1e-4, rho=1.0 if one else 1.6, update_rho_options=None if one else dict(mu=5.0, tau_inc=1.5, tau_dec=1.5))
    if est in ("GL", "MGL"):
        q["over_relax"] = 1.0 if one else 1.4
    if est in ("TGL", "LTGL", "LTMD", "FB", "SimTGL"):
        q["beta"] = 2.0 if one else .7
    if est in ("TGL", "LTGL", "KTGL", "KLTGL", "KTGLf", "LTMD"):
        q["psi"] = "laplacian" if one else "l1"
    if est in ("LTGL", "KLTGL", "LTMD", "SimLTGL"):
        q["tau"] = 3.0 if one else 1.1
    if est in ("LTGL", "LTMD"):
        q.update(eta=1.5, phi="l1" if one else "laplacian")
    if est not in ("LTMD", "MGL", "FB"):
        q["init"] = "empirical" if one else "zeros"
    if est in ("TGL", "KTGL"):
        q["return_history"] = not one
    if est not in ("MGL", "LTMD"):
        q["assume_centered"] = not one
    K = np.array([[1, .5, .2], [.5, 1, .5], [.2, .5, 1]]) * (1 if one else 2)
    np.fill_diagonal(K, 1)
    if est == "KTGL":
        q["kernel"] = K
    if est == "KTGLf":
        from sklearn.gaussian_process.kernels import RBF
        q.update(kernel=RBF, ker_param=1.0 if one else "auto", max_iter_ext=3)
    if est == "KLTGL":
        q.update(kernel_psi=K, kernel_phi=K.T.copy() * .5 + np.eye(3) * .5)
    if est in ("SimTGL", "SimLTGL"):
        q.update(max_iter_ext=3)
    if est == "FB":
        q.update(gamma=.05 if one else .1, delta=.5, max_iter=8)
    if est == "LTMD":
        q.pop("assume_centered", None)
    return q


def make(est, q):
    if est[:2] == "fn":
        return Fn(est[2:], q)
    from regain.covariance import GraphicalLasso, LatentGraphicalLasso, LatentTimeGraphicalLasso, TimeGraphicalLasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso
    from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso, SimilarityTimeGraphicalLasso
    from regain.covariance.latent_time_matrix_decomposition import LatentTimeMatrixDecomposition
    from regain.covariance.missing_graphical_lasso_ import MissingGraphicalLasso
    from regain.forward_backward.time_graphical_lasso_ import TimeGraphicalLassoForwardBackward
    return dict(GL=GraphicalLasso, LGL=LatentGraphicalLasso, TGL=TimeGraphicalLasso, LTGL=LatentTimeGraphicalLasso, KTGL=KernelTimeGraphicalLasso,
                KTGLf=KernelTimeGraphicalLasso, KLTGL=KernelLatentTimeGraphicalLasso, SimTGL=SimilarityTimeGraphicalLasso,
                SimLTGL=SimilarityLatentTimeGraphicalLasso, FB=TimeGraphicalLassoForwardBackward, MGL=MissingGraphicalLasso,
                LTMD=LatentTimeMatrixDecomposition)[est](**q)


def text(v):
    return json.dumps(enc(v if not callable(v) or isinstance(v, (dict, np.ndarray)) else v.__name__), sort_keys=True)


def pars(e):
    return {k: text(v) for k, v in sorted(e.get_params().items())}


def attrs(e, est):
    o = {}
    for k in ("precision_", "covariance_", "latent_", "location_", "complete_data_matrix_", "similarity_matrix_", "coef_", "intercept_", "reconstruction_err_"):
        if hasattr(e, k) and getattr(e, k) is not None:
            o[k] = dict(v=F(getattr(e, k)), s='')
    for k in ("classes_", "n_iter_"):
        if hasattr(e, k) and getattr(e, k) is not None:
            o[k] = dict(v=[], s=text(getattr(e, k)))
    return o


def score(e, est, D):
    if est in ("MGL", "LTMD") or est[:2] == "fn":
        return []
    X, y = D
    return [float(e.score(X) if y is None else e.score(X, y))]


def observe(c):
    from sklearn.base import clone
    est = c["est"]
    rng = np.random.RandomState(c["seed"])
    D = data(est, rng)
    P = {k: params(est, k, rng) for k in ("P1", "P2")}
    dig = lambda: text([[x for x in D[k] if x is not None] for k in sorted(D)]) + text([{a: (b if not isinstance(b, type) else b.__name__) for a, b in P[k].items()} for k in sorted(P)])
    inputs = dig()
    fresh, scores = {}, {}
    used = set()
    cur, fitted = "P1", None
    for o in c["ops"]:
        cur = o["arg"] if o["op"] == "set" else cur
        if o["op"] == "fit":
            used.add((cur, o["arg"]))
    fit = lambda e, d: e.fit(np.array(D[d][0], copy=True)) if D[d][1] is None else e.fit(np.array(D[d][0], copy=True), np.array(D[d][1], copy=True))
    for p, d in sorted(used):
        np.random.seed(12345)
        e = fit(make(est, copy.deepcopy(P[p])), d)
        fresh[p + d] = attrs(e, est)
        scores[p + d] = score(e, est, D[d])
    e = make(est, P["P1"])
    np.random.seed(c["seed"] % 1000)
    full = {p: pars(make(est, copy.deepcopy(P[p]))) for p in P}
    steps = []
    last = None
    for o in c["ops"]:
        ok, sc = True, []
        if o["op"] == "fit":
            X, y = D[o["arg"]]
            r = e.fit(X) if y is None else e.fit(X, y)
            ok = r is e
            last = o["arg"]
        elif o["op"] == "set":
            e.set_params(**P[o["arg"]])
        elif o["op"] == "clone":
            e = clone(e) if est[:2] != 'fn' else Fn(e.fn, e.kw)
            last = None
        elif o["op"] == "pickle":
            e = pickle.loads(pickle.dumps(e))
        elif o["op"] == "params":
            e.get_params()
            repr(e)
        elif o["op"] == "reseed":
            np.random.seed(7)
        elif o["op"] == "score":
            sc = score(e, est, D[last])
        steps.append(dict(params=pars(e), attrs=attrs(e, est), inputs=dig(), self=bool(ok), score=sc))
    return dict(fresh=fresh, scores=scores, steps=steps, params=full, inputs=inputs)
