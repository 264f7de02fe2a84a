import contextlib
import io
import warnings

import numpy as np

from core import F
from hlib import cov, rs
SPEC = "DataConf"
LIMIT = 200


def build(ctx):
    out = []
    items = ctx.scenarios("ScenData")
    a = [s for s in items if s["mode"] == "none"]
    b = [s for s in items if s["mode"] != "none"]
    sel = ctx.cover(a, ctx.pick(110, 700), pairs=(("ut", "ue", "h"), ("ut", "keep", "T"), ("ut", "prop", "T"), ("ut", "big"), ("norm", "deg"), ("ax", "T"), ("ut", "eps", "keep"), ("ut", "ue", "eps")))
    sel += ctx.cover(b, ctx.pick(150, 800), pairs=(("mode", "T"), ("mode", "h"), ("mode", "ax"), ("mode", "big"), ("mode", "eps")))
    for i, s in enumerate(sel):
        rng = rs(ctx.seed, "data", i, sorted(s.items()))
        c = dict(s)
        c["bad"] = s["mode"] if s["mode"] in ("mode", "distribution", "update_theta", "update_ell") else ""
        d = int(rng.choice([6, 7, 8, 10])) if s["ue"] in ("l2", "fixed") else int(rng.choice([10, 12]))
        if s["mode"] in ("ma", "mak", "sincos"):
            d = int(rng.choice([6, 12, 20, 41])) if s["mode"] != "sincos" else 6 if s["h"] == 0 else 41
        if s["mode"] == "none" and s["prop"] and rng.rand() < .5:
            d = 23
        if s["mode"] in ("my-direct", "mys-direct"):
            d = int(rng.choice([10, 12, 14]))
        c["d"] = d
        c["epsilon"] = dict(small=.001, mid=.01, large=.4, vast=2.0)[s["eps"]]
        c["n"] = int(rng.choice([2500, 4000])) if s["big"] and not c["bad"] else int(rng.choice([1, 2, 5, 9]))
        if s["mode"] == "mak":
            c["big"] = False        # nearly singular model: no sampling statement
            c["n"] = 3
        c["npseed"] = int(rng.randint(1 << 30))
        if s["mode"] == "func":
            L, K = [], []
            for _ in range(s["T"]):
                B = rng.randn(d, s["h"]) * .3
                L.append(B.dot(B.T))
                K.append(L[-1] + cov(rng.randn(d + 8, d)) + .2 * np.eye(d))
            c["fth"], c["fel"] = F(np.array(K)), F(np.array(L))
        else:
            c["fth"] = c["fel"] = 0
        c["id"] = "D-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


class Direct(object):
    pass


def direct(c, seed):
    from regain.datasets import gaussian as g
    b = Direct()
    kw = dict(p=c["d"], h=c["h"], n=c["n"], T=c["T"], random_state=seed)
    if c["mode"] == "my-direct":
        _, b.thetas, b.thetas_observed, b.cov, lat, data = g.data_Meinshausen_Yuan(**kw)
        b.ells = [lat.T.dot(lat)] * c["T"]
    else:
        _, b.thetas, th, b.thetas_observed, con, b.cov, data = g.data_Meinshausen_Yuan_sparse_latent(**kw)
        b.ells = [con.T.dot(np.linalg.inv(x)).dot(con) for x in th]
    b.thetas, b.thetas_observed, b.ells, b.cov = (np.array(x) for x in (b.thetas, b.thetas_observed, b.ells, b.cov))
    b.data = np.array(data)
    b.X, b.y = np.vstack(data), np.repeat(np.arange(len(data)), c["n"])
    return b


def call(c, seed):
    if c["mode"].endswith("-direct"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return direct(c, seed)
    import random
    from regain.datasets import make_dataset
    np.random.seed(seed)
    random.seed(seed)
    kw = dict(n_samples=c["n"], n_dim_obs=c["d"], n_dim_lat=c["h"], T=c["T"], time_on_axis=c["ax"], epsilon=c["epsilon"])
    m = c["mode"]
    if c["bad"]:
        kw[m] = "nothing-like-that"
    elif m == "none":
        kw.update(update_ell=c["ue"], update_theta=c["ut"], keep_sparsity=c["keep"], normalize_starting_matrices=c["norm"], proportional=c["prop"], degree=c["deg"])
    elif m == "func":
        K, L = np.array(c["fth"]), np.array(c["fel"])
        kw["mode"] = lambda **k: (K.copy(), K - L, L.copy())
    elif m.startswith("sin") and m != "sincos":
        kw["mode"] = "sin"
        if m == "sinnorm":
            kw["normalize"] = True
        if m == "sinsquare":
            kw["shape"] = "square"
    else:
        kw["mode"] = m
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return make_dataset(**kw)


def observe(c):
    if c["bad"]:
        try:
            call(c, c["npseed"])
        except ValueError:
            return dict(refused=True)
        return dict(refused=False)
    for k in range(40 if c["mode"] == "sincos" else 12):
        seed = (c["npseed"] + 7919 * k) % (1 << 31)
        try:
            b = call(c, seed)
            break
        except AssertionError:
            # the generator refuses a draw that is not a valid model
            if k == 11 and c["mode"] != "sincos":
                raise
    else:
        raise RuntimeError("no valid draw")
    b2 = call(c, seed)
    T, n, d = c["T"], c["n"], c["d"]
    data = np.asarray(b.data)
    first = data.transpose(2, 0, 1) if c["ax"] == "last" else data
    out = dict(shape=list(data.shape), xshape=list(b.X.shape), y=[int(v) for v in b.y], theta=F(b.thetas), obs=F(b.thetas_observed), ell=F(b.ells))
    out["stacked"] = bool(first.reshape(-1, first.shape[-1]).shape == b.X.shape and np.array_equal(first.reshape(-1, first.shape[-1]), b.X))
    out["finite"] = bool(np.isfinite(data).all())
    out["same"] = bool(np.array_equal(b.data, b2.data) and np.array_equal(b.X, b2.X) and np.array_equal(b.thetas, b2.thetas))
    if c["mode"].endswith("-direct"):
        out["cov"] = F(b.cov)
    if c["big"]:
        Z = [b.X[np.asarray(b.y) == t] for t in range(T)]
        out["S"] = F(np.array([z.T.dot(z) / len(z) for z in Z]))
        out["m"] = F(np.array([z.mean(0) for z in Z]))
        if T > 1:
            out["C"] = F(Z[0].T.dot(Z[1]) / len(Z[0]))
        out["y"] = out["y"]
    return out
