import contextlib
import io
import random
import sys
import warnings

import numpy as np

from core import F
from hlib import rs
SPEC = "DiscConf"
LIMIT = 200
MINIMUM = -sys.maxsize - 1


def build(ctx):
    out = []
    items = ctx.scenarios("ScenDisc")
    a = [s for s in items if s["kind"] == "dataset"]
    b = [s for s in items if s["kind"] != "dataset"]
    for i, s in enumerate(ctx.cover(a, ctx.pick(80, 400), pairs=(("fn", "graph", "T"), ("fn", "change", "T"), ("fn", "ax", "n"))) + b):
        rng = rs(ctx.seed, "disc", i, sorted(s.items()))
        c = dict(s)
        f = s["fn"]
        c["npseed"] = int(rng.randint(1 << 30))
        c["d"] = d = int(rng.choice([4, 5, 7])) if f in ("ising", "poisson") else int(rng.choice([6, 9, 13])) if f == "multi" else int(rng.choice([2, 3, 4]))
        if f in ("energy", "pplus", "bracket", "sampler"):
            c["lo"], c["hi"] = (-1.0, 1.0) if s["kind"] == "pm1" else (0.0, 1.0)
            scale = 1.0 if f != "sampler" else .5
            J = np.triu(rng.uniform(-1, 1, size=(d, d)).round(2), 1) * scale
            if s["graph"] == "sign":
                J = np.triu(np.sign(rng.uniform(-1, 1, size=(d, d))), 1)
            elif s["graph"] == "empty":
                J = np.zeros((d, d))
            elif s["graph"] == "strong":
                J = np.triu(rng.choice([-1, 1], size=(d, d)) * rng.uniform(.7, 1.0, size=(d, d)).round(2), 1) * (1.1 if s["kind"] == "pm1" else 3.3) / max(1, d - 1)
            c["J"], c["h"] = F(J + J.T), F((rng.randn(d) * .5).round(2))
            c["beta"] = float(rng.choice([.5, 1.0, 1.3]))
            if s["graph"] == "strong":
                c["beta"] = 1.0
            c["x"] = F(np.where(rng.rand(d) < .5, c["lo"], c["hi"]))
            c["i"] = int(rng.randint(1, d + 1))
            u = rng.rand(d) < .6
            u[c["i"] - 1] = False
            c["unknown"] = [bool(v) for v in u]
        c["sweeps"] = 1 if s["graph"] == "strong" else 12
        if f == "sampler":
            c["n"] = 6000 if s["graph"] == "strong" else dict(MH=1500, constrained=1200, CFTP=1200, DIRECT=4000)[s["ax"]]
            fx = np.zeros(d, bool)
            if s["ax"] == "constrained":
                fx[int(rng.randint(d))] = True
            c["fixed"], c["val"] = [bool(v) for v in fx], F(np.where(rng.rand(d) < .5, c["lo"], c["hi"]))
        if f == "counts":
            c["n"] = 4000 if s["kind"] == "LPGM" else 3000
            J = np.triu(rng.rand(d, d) < dict(empty=0, some=.5, full=1.1)[s["graph"]], 1).astype(float)
            if s["kind"] == "Gibbs":
                J = J * -np.abs(rng.uniform(.1, .6, size=(d, d)).round(2))
            c["J"] = F(J + J.T)
            c["lam"], c["noise"] = float(rng.choice([1.0, 2.0, .5])), float(rng.choice([.5, 1.5]))
            c["var"] = F((rng.randn(d) * .4).round(2))
        c["id"] = "S-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def pack(b, ax, T):
    data = np.asarray(b.data)
    first = data.transpose(2, 0, 1) if ax == "last" and data.ndim == 3 else data
    X = np.asarray(b.X)
    return dict(shape=list(data.shape), y=[int(v) for v in b.y], theta=F(np.asarray(b.thetas, float)), X=F(X.astype(float)),
                counts=bool((X >= 0).all() and (X == np.round(X)).all()),
                stacked=bool(first.size == X.size and first.shape[-1] == X.shape[1] and np.array_equal(first.reshape(X.shape), X)))


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def observe(c):
    from regain import datasets as D
    from regain.datasets import ising as I, poisson as P
    from regain.datasets.multi_class import make_multiclass_dataset

    def seed():
        np.random.seed(c["npseed"])
        random.seed(c["npseed"])
    f, d = c["fn"], c["d"]
    seed()
    if f in ("ising", "poisson"):
        kw = dict(distribution=f, n_samples=c["n"], n_dim_obs=d, T=c["T"], time_on_axis=c["ax"], random_graph=c["graph"], update_theta="l1")
        kw["change" if f == "ising" else "n_to_change"] = c["change"]
        b = quiet(lambda: D.make_dataset(**kw))
        seed()
        b2 = quiet(lambda: D.make_dataset(**kw))
        return dict(pack(b, c["ax"], c["T"]), same=bool(np.array_equal(b.X, b2.X) and np.array_equal(b.thetas, b2.thetas)))
    if f == "multi":
        kind = ["gaussian", "ising", "poisson"] if c["kind"] == "all" else c["kind"]
        call = lambda: quiet(lambda: make_multiclass_dataset(n_samples=c["n"], n_dim_obs=d, n_classes=c["T"], _type=c["graph"], random_state=c["npseed"], probability=.3, distribution=kind))
        r, B = call()
        seed()
        r2, B2 = call()
        return dict(parts=[dict(pack(r[k], "first", c["T"]), name=k) for k in sorted(r)], binary=F(np.asarray(B, float)),
                    same=bool(sorted(r) == sorted(r2) and all(np.array_equal(r[k].X, r2[k].X) for k in r)))
    if f == "counts":
        J = np.array(c["J"])
        if c["kind"] == "LPGM":
            X = P.poisson_sampler(J.astype(int), n_samples=c["n"], _lambda=c["lam"], _lambda_noise=c["noise"])
            Z = X - X.mean(0)
            return dict(shape=list(X.shape), counts=bool((X >= 0).all() and (X == np.round(X)).all()), mean=F(X.mean(0)), cov=F(Z.T.dot(Z) / len(Z)))
        v = np.array(c["var"])
        X = P.poisson_sampler(J, variances=v.copy(), n_samples=c["n"], _type="PGM", max_iter=15)
        gap, gse, cr, cse = np.zeros(d), np.zeros(d), np.zeros((d, d)), np.ones((d, d))
        for i in range(d):
            r = X[:, i] - np.exp(v[i] + np.delete(X, i, 1).dot(np.delete(J[i], i)))
            gap[i], gse[i] = r.mean(), r.std() / np.sqrt(len(r))
            for j in range(d):
                if i != j:
                    z = r * X[:, j]
                    cr[i, j], cse[i, j] = z.mean(), z.std() / np.sqrt(len(r))
        return dict(shape=list(X.shape), counts=bool((X >= 0).all() and (X == np.round(X)).all()), gap=F(gap), gapse=F(gse), cross=F(cr), crossse=F(cse))
    J, h, x = np.array(c["J"]), np.array(c["h"]), np.array(c["x"])
    resp = [c["lo"], c["hi"]]
    J0, h0, x0 = J.copy(), h.copy(), x.copy()
    clean = lambda: bool(np.array_equal(J, J0) and np.array_equal(h, h0) and np.array_equal(x, x0))
    i = c["i"] - 1
    if f == "energy":
        return dict(v=F(float(I.hamiltonian(J, x, h))), clean=clean())
    if f == "pplus":
        return dict(v=F(float(I.p_plus(i, J, x, h, c["beta"], resp))), clean=clean())
    if f == "bracket":
        y = np.where(c["unknown"], float(MINIMUM), x)
        return dict(v=F(I.p_plus_minmax(i, J, y, h, c["beta"], resp)), clean=clean())
    if f == "sampler":
        kw = dict(n=c["n"], beta=c["beta"], responses=[int(v) for v in resp], max_iter=c["sweeps"])
        if c["ax"] == "constrained":
            con = np.ones((c["n"], d)) * MINIMUM
            con[:, np.array(c["fixed"])] = np.array(c["val"])[np.array(c["fixed"])]
            kw["constraints"] = con
        X = np.asarray(I.ising_sampler(J, h, method="MH" if c["ax"] == "constrained" else c["ax"], **kw), float)
        st, n = np.unique(X, axis=0, return_counts=True)
        return dict(shape=list(X.shape), states=F(st), counts=[int(v) for v in n])
    raise ValueError(f)
