"""Inputs for the scenarios (data only; no expected results)."""
import os
import warnings

import numpy as np

os.environ.setdefault("MPLBACKEND", "Agg")


def rs(*key):
    h = 0
    for k in key:
        for ch in str(k):
            h = (h * 1000003 + ord(ch)) % (2 ** 31 - 1)
    return np.random.RandomState(h)


def samples(rng, n, d, kind):
    """n x d sample matrix of a given shape kind."""
    A = rng.randn(d, d) * 0.5 + np.eye(d)
    X = rng.randn(n, d)
    if kind == "iid":
        pass
    elif kind == "corr":
        X = X.dot(A)
    elif kind == "scaled":
        X = X.dot(A) * np.linspace(0.5, 2.0, d)
    elif kind == "shifted":
        X = X.dot(A) + np.arange(1, d + 1)
    elif kind == "block":
        X[:, 1] = X[:, 0] * 0.8 + 0.6 * X[:, 1]
    elif kind == "heavy":
        X = X * (1 + np.abs(rng.randn(n, 1)))
    return X


def cov(X):
    X = X - X.mean(0)
    S = X.T.dot(X) / X.shape[0]
    return (S + S.T) / 2


def covs(rng, T, d, kind, n=None):
    """T empirical covariances that drift in time; n samples each (n may be < d)."""
    n = n or [4 * d + 3] * T
    out = []
    base = rng.randn(d, d) * 0.4 + np.eye(d)
    for t in range(T):
        B = base + 0.25 * t * rng.randn(d, d)
        X = rng.randn(n[t], d).dot(B)
        if kind == "scaled":
            X = X * np.linspace(0.6, 1.7, d)
        elif kind == "jump" and t >= T // 2:
            X[:, 0] = X[:, 0] + 0.9 * X[:, -1]
        elif kind == "diag":
            X = rng.randn(n[t], d)
        out.append(cov(X))
    S = np.array(out)
    if kind == "same":
        S = np.array([S[0]] * T)
    return S


def catch(fn, *a, **k):
    """(result, list of warning messages)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn(*a, **k)
    return r, [str(x.message) for x in w]
