import contextlib
import io
import warnings

import numpy as np

import c11
from core import F
from hlib import rs, samples
SPEC = "InputConf"
LIMIT = 300
UNLAB = ("GL", "LGL", "LTMD", "gauss", "poisson", "ising")


def build(ctx):
    out = []
    for s in ctx.scenarios("ScenInput"):
        c = dict(s)
        c["seed"] = int(rs(ctx.seed, "input", sorted(s.items())).randint(1 << 30))
        c["id"] = "V-%s-%s-%s-%d" % (s["est"], s["what"], s["kind"], s["n"])
        out.append(c)
    return out


def data(est, rng):
    T, n, d = 3, int(rng.randint(7, 11)), int(rng.randint(3, 5))
    if est == "LTMD":
        A = rng.randn(T, d, d)
        return A + A.transpose(0, 2, 1), None
    X = np.vstack([samples(rng, n, d, "shifted") for _ in range(T)]).round(4)
    y = np.repeat([0, 1, 2], n)
    if est in ("ising", "tising", "simising"):
        X = np.where(rng.rand(T * n, d) < .5, -1., 1.)
    elif est in ("poisson", "tpoisson"):
        X = np.minimum(rng.poisson(.8, size=(T * n, d)), 3).astype(float)
    elif est == "GLO":
        y = X[:, 0] + rng.randn(T * n).round(3)
    elif est == "GLOC":
        y = (rng.rand(T * n) < .5).astype(int)
        y[:2] = 0, 1
    return X, None if est in UNLAB else y


def make(est, **opt):
    from regain.covariance import TimeGraphicalLasso
    from regain.discriminant_analysis import DiscriminantAnalysis
    from regain.generalized_linear_model.glm_gaussian import Gaussian_GLM_GM
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel
    from regain.generalized_linear_model.glm_poisson import PoissonGraphicalModel
    from regain.generalized_linear_model.glm_time_ising import SimilarityTemporalIsingModel, TemporalIsingModel
    from regain.generalized_linear_model.glm_time_poisson import TemporalPoissonModel
    from regain.linear_model import GroupLassoOverlap, GroupLassoOverlapClassifier
    g = [[0, 1], [1, 2]]
    f = dict(gauss=lambda: Gaussian_GLM_GM(alpha=.1, max_iter=20), poisson=lambda: PoissonGraphicalModel(alpha=.1, max_iter=20),
             ising=lambda: IsingGraphicalModel(alpha=.1, max_iter=20), tising=lambda: TemporalIsingModel(alpha=.1, max_iter=4),
             simising=lambda: SimilarityTemporalIsingModel(alpha=.1, max_iter=4, max_iter_ext=2),
             tpoisson=lambda: TemporalPoissonModel(alpha=.1, max_iter=4), GLO=lambda: GroupLassoOverlap(alpha=.1, groups=g, max_iter=20),
             GLOC=lambda: GroupLassoOverlapClassifier(alpha=.1, groups=g, max_iter=20), DA=lambda: DiscriminantAnalysis(TimeGraphicalLasso(max_iter=20)))
    e = f[est]() if est in f else c11.make(est, dict(c11.params(est, "P1", rs("p")), max_iter=12))
    if opt:
        e.set_params(**opt)
    return e


def faulty(kind, X, y, rng):
    X = X.copy()
    if kind in ("nan", "inf", "neginf"):
        X.flat[int(rng.randint(X.size))] = dict(nan=np.nan, inf=np.inf, neginf=-np.inf)[kind]
    elif kind == "flat":
        X = X.ravel()[:len(X)]
    elif kind == "deep":
        X = X[None]
    elif kind == "text":
        X = np.full(X.shape, "a")
    elif kind == "empty":
        X, y = X[:0], None if y is None else y[:0]
    elif kind == "onefeature":
        X = X[..., :1]
    elif kind == "onesample":
        X = X[:1]
    elif kind == "long":
        y = np.r_[y, y[:int(rng.randint(1, 4))]]
    elif kind == "short":
        y = y[:-int(rng.randint(1, 4))]
    elif kind == "none":
        y = None
    elif kind == "ynan":
        y = y.astype(float)
        y[int(rng.randint(len(y)))] = np.nan
    elif kind == "twocolumns":
        y = np.c_[y, y]
    elif kind == "oneclass":
        y = np.zeros(len(y), int)
    elif kind == "singleton":
        y = y.copy()
        y[int(rng.randint(len(y)))] = 7
    elif kind == "threevalues":
        X[int(rng.randint(len(X))), int(rng.randint(X.shape[1]))] = rng.choice([0, 2, .5, -3])
    elif kind == "onevalue":
        X[:] = 1
    elif kind == "negative":
        X[int(rng.randint(len(X))), int(rng.randint(X.shape[1]))] = -1 - rng.randint(3)
    return X, y


def fit(e, est, X, y, kind=""):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e.fit(X) if est in UNLAB else e.fit(X, y)


def result(e):
    return F(np.asarray(getattr(e, "precision_", getattr(e, "coef_", None)), float))


def observe(c):
    import pandas as pd
    est, k = c["est"], c["kind"]
    rng = rs(c["seed"])
    X, y = data(est, rng)
    if c["what"] in ("fault", "option"):
        if c["what"] == "fault":
            e = make(est)
            X, y = faulty(k, X, y, rng)
        else:
            n = 3
            opt = dict(psi=dict(psi="nothing"), phi=dict(phi="l3"), choose=dict(choose="nothing"), mode=dict(mode="nothing"))
            for p in ("kernel", "kernel_psi", "kernel_phi"):
                opt[p + "-small"], opt[p + "-large"] = {p: np.eye(n - 1)}, {p: np.eye(n + 1)}
            opt["auto-without-function"] = dict(kernel=np.eye(n), ker_param="auto")
            e = make(est, **opt[k])
        try:
            fit(e, est, X, y)
            refused = False
        except Exception:
            refused = True
        return dict(refused=refused, fitted=any(getattr(e, a, None) is not None for a in ("precision_", "coef_")))
    ref = result(fit(make(est), est, X.astype(np.float32).astype(float) if k == "float32" else X, y))
    A, b = X.copy(), None if y is None else y.copy()
    if k == "list":
        A, b = A.tolist(), None if b is None else b.tolist()
        if est == "LTMD":
            A = [np.array(a) for a in A]
    elif k == "fortran":
        A = np.asfortranarray(A)
    elif k == "readonly":
        A.setflags(write=False)
        if b is not None:
            b.setflags(write=False)
    elif k == "strided":
        big = np.full((2 * len(X),) + X.shape[1:], 7.0)
        big[::2] = A
        A = big[::2]
    elif k == "float32":
        A = A.astype(np.float32)
    elif k == "frame":
        A, b = pd.DataFrame(A), None if b is None else pd.Series(b)
    elif k == "int":
        A = A.astype(int)
    elif k == "matrices":
        A = [a for a in A]
    opt = {}
    if k == "timelast":
        A = np.ascontiguousarray(A.transpose(1, 2, 0))
        opt = dict(time_on_axis="last")
    import copy
    A0, b0 = copy.deepcopy(A), copy.deepcopy(b)
    v = result(fit(make(est, **opt), est, A, b))
    clean = np.array_equal(np.asarray(A), np.asarray(A0)) and (b is None or np.array_equal(np.asarray(b), np.asarray(b0)))
    return dict(v=v, ref=ref, clean=bool(clean))
