"""Recording of converged solver answers for the optimality properties C01-C05."""
import numpy as np

from core import F
from hlib import catch, cov, covs, rs, samples

LEVEL = {"tiny": 0.01, "small": 0.08, "mid": 0.4, "large": 2.5, "zero": 0.0, "huge": 20.0}
SOLVE = dict(tol=1e-9, rtol=1e-9, max_iter=4000)


def scen_cases(ctx, model, n, pairs=(), env=None):
    sc = ctx.scenarios("ScenOptim", env=dict(VP_MODEL=model, **(env or {})))
    out = []
    for i, s in enumerate(ctx.cover(sc, n, pairs)):
        rng = rs(ctx.seed, model, i, sorted(s.items()))
        c = dict(s)
        c["model"] = model
        for f in ("alpha", "beta", "tau", "eta"):
            if f in c:
                c[f] = round(c["alpha"] * float(rng.uniform(.94, 1.0)), 4) if s[f] == "near" else round(LEVEL[s[f]] * float(rng.uniform(0.7, 1.4)), 4)
        d, T = c["d"], c.get("T", 1)
        if c["kind"] == "singular":  # rank-deficient data: keep the problem well conditioned
            c["alpha"] = max(c["alpha"], 0.1)
        ns = {"none": [4 * d + 3] * T, "equal": [3 * d + 2] * T}.get(
            c.get("n"), [int(x) for x in rng.randint(2 * d, 5 * d, T)])
        if c.get("n") == "lopsided":
            ns[int(rng.randint(T))] = 25 * d
        c["weights"] = [1.0] * T
        if c.get("via") in ("class", "centered"):
            Xs = [samples(rng, ns[t], d, "corr" if c["kind"] != "diag" else "iid") for t in range(T)]
            if c["kind"] == "scaled":
                Xs = [x * np.linspace(0.5, 1.8, d) for x in Xs]
            if c["kind"] == "same":
                Xs = [Xs[0]] * T
                ns = [ns[0]] * T
            if c["kind"] == "singular":
                Xs = [x[: max(3, d - 1)] for x in Xs]
            times = np.cumsum(rng.randint(1, 4, T)) - 2
            if c["via"] == "centered":
                c["centered"] = True
                Xs = [x + rng.uniform(-.5, .5, d) for x in Xs]
            labels = np.concatenate([[times[t]] * len(Xs[t]) for t in range(T)])
            X = np.vstack(Xs)
            perm = rng.permutation(len(X))
            c["X"], c["y"] = F(X[perm].round(6)), [int(v) for v in labels[perm]]
            if model in ("TGL", "LTGL", "KTGL", "KLTGL"):
                c["weights"] = [float(len(x)) for x in Xs]
        else:
            kind = c["kind"]
            S = covs(rng, T, d, "corr" if kind == "singular" else kind,
                     [max(3, d - 1)] * T if kind == "singular" else None)
            c["S"] = F(S)
            if c.get("n") in ("equal", "uneven", "lopsided"):
                c["weights"] = [float(v) for v in ns]
        if model in ("KTGL", "KLTGL"):
            for k in ("kpsi", "kphi")[: 1 if model == "KTGL" else 2]:
                ker = c["ker"] if k == "kpsi" else c["ker2"]
                if ker.startswith("auto"):
                    c["auto"], c[k + "_fun"], c[k + "_par"] = True, ker[4:], "auto"
                elif ker in ("rbf", "const"):
                    c[k + "_fun"], c[k + "_par"] = ker, round(float(rng.uniform(0.4, 1.6)), 3)
                else:
                    M = np.zeros((T, T))
                    if ker == "matrix":
                        M = rng.uniform(0.02, 0.6, (T, T)) * (rng.rand(T, T) < 0.75)
                    elif ker == "tridiag":
                        M = np.diag(np.full(T - 1, round(float(rng.uniform(0.05, 0.6)), 3)), 1)
                    M = np.triu(M, 1)
                    M = (M + M.T) * float(np.mean(c["weights"]))
                    c[k] = F((M + np.eye(T)).round(4))
        if model == "IC":
            c["weights"] = [0.5]
        w = float(np.mean(c["weights"]))
        if w > 1:  # keep the penalties on the scale of the likelihood
            for f in ("alpha", "beta", "tau", "eta"):
                if f in c:
                    c[f] = round(c[f] * w, 4)
        c["id"] = "%s-%03d-%s" % (model, i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    o, ws = catch(observe1, c)
    o["converged"] = not any("did not converge" in w for w in ws)
    return o


def observe1(c):
    m = c["model"]
    X = np.array(c["X"]) if "X" in c else None
    y = np.array(c["y"]) if "X" in c else None
    S = np.array(c["S"]) if "S" in c else None
    n = None if c.get("n") in (None, "none") else np.array(c["weights"])
    kw = dict(SOLVE)
    slow = m in ("LTGL", "KLTGL", "LTMD")
    if slow:
        kw = dict(tol=1e-8, rtol=1e-8, max_iter=2000)
        if m != "LTMD":
            kw["rho"] = max(1.0, 0.5 * float(np.mean(c["weights"])))
    if "node" in (c.get("psi"), c.get("phi")):
        kw.update(tol=1e-7, rtol=1e-7, max_iter=500)  # the node prox is itself iterative
    skw = dict(kw)
    if X is not None and c.get("centered"):
        kw["assume_centered"] = True
    if m == "GL":
        from regain.covariance import GraphicalLasso
        from regain.covariance.graphical_lasso_ import graphical_lasso
        if X is not None:
            e = GraphicalLasso(alpha=c["alpha"], **kw).fit(X)
            return dict(K=[F(e.precision_)], L=[], cov=[F(e.covariance_)])
        K, C = graphical_lasso(S[0], alpha=c["alpha"], return_n_iter=False, **kw)
        return dict(K=[F(K)], L=[], cov=[])
    if m == "LGL":
        from regain.covariance import LatentGraphicalLasso
        from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
        if X is not None:
            e = LatentGraphicalLasso(alpha=c["alpha"], tau=c["tau"], **kw).fit(X)
            return dict(K=[F(e.precision_)], L=[F(e.latent_)], cov=[F(e.covariance_)], obs=[F(e.get_precision())])
        K, L, C = latent_graphical_lasso(S[0], alpha=c["alpha"], tau=c["tau"], return_n_iter=False, **kw)
        return dict(K=[F(K)], L=[F(L)], cov=[F(C)])
    if m == "TGL":
        from regain.covariance import TimeGraphicalLasso
        from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
        if X is not None:
            e = TimeGraphicalLasso(alpha=c["alpha"], beta=c["beta"], psi=c["psi"], **kw).fit(X, y)
            return dict(K=F(e.precision_), L=[], cov=F(e.covariance_))
        K, C = time_graphical_lasso(S, alpha=c["alpha"], beta=c["beta"], psi=c["psi"], n_samples=n,
                                    return_n_iter=False, **kw)
        return dict(K=F(K), L=[], cov=F(C))
    if m == "LTGL":
        from regain.covariance import LatentTimeGraphicalLasso
        from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
        p = dict(alpha=c["alpha"], beta=c["beta"], tau=c["tau"], eta=c["eta"], psi=c["psi"], phi=c["phi"])
        p.update(kw)
        if X is not None:
            e = LatentTimeGraphicalLasso(**p).fit(X, y)
            return dict(K=F(e.precision_), L=F(e.latent_), cov=F(e.covariance_), obs=F(e.get_observed_precision()))
        K, L, C = latent_time_graphical_lasso(S, n_samples=n, return_n_iter=False, **p)
        return dict(K=F(K), L=F(L), cov=F(C))
    if m in ("KTGL", "KLTGL"):
        from sklearn.gaussian_process import kernels
        from regain.covariance import kernel_latent_time_graphical_lasso_ as kl
        from regain.covariance import kernel_time_graphical_lasso_ as kt
        ks = {}
        for k in ("kpsi", "kphi")[: 1 if m == "KTGL" else 2]:
            if c["ker" if k == "kpsi" else "ker2"] == "none":
                ks[k] = (None, 1)
            elif k in c:
                ks[k] = (np.array(c[k]), 1)
            else:
                ks[k] = (dict(rbf=kernels.RBF, const=kernels.ConstantKernel)[c[k + "_fun"]], c[k + "_par"])
        if m == "KTGL":
            if X is not None:
                e = kt.KernelTimeGraphicalLasso(alpha=c["alpha"], psi=c["psi"], kernel=ks["kpsi"][0],
                                                ker_param=ks["kpsi"][1], **kw).fit(X, y)
                return dict(K=F(e.precision_), L=[], cov=F(e.covariance_))
            K, C = kt.kernel_time_graphical_lasso(S, alpha=c["alpha"], psi=c["psi"], kernel=ks["kpsi"][0],
                                                  n_samples=n, return_n_iter=False, **kw)
            return dict(K=F(K), L=[], cov=F(C))
        p = dict(alpha=c["alpha"], tau=c["tau"], psi=c["psi"], phi=c["phi"], kernel_psi=ks["kpsi"][0],
                 kernel_phi=ks["kphi"][0])
        p.update(kw)
        if X is not None:
            e = kl.KernelLatentTimeGraphicalLasso(ker_psi_param=ks["kpsi"][1], ker_phi_param=ks["kphi"][1], **p).fit(X, y)
            return dict(K=F(e.precision_), L=F(e.latent_), cov=F(e.covariance_), obs=F(e.get_observed_precision()))
        K, L, C = kl.kernel_latent_time_graphical_lasso(S, n_samples=n, return_n_iter=False, **p)
        return dict(K=F(K), L=F(L), cov=F(C))
    if m == "LTMD":
        from regain.covariance.latent_time_matrix_decomposition import (
            LatentTimeMatrixDecomposition, latent_time_matrix_decomposition)
        p = dict(alpha=c["alpha"], beta=c["beta"], tau=c["tau"], eta=c["eta"], psi=c["psi"], phi=c["phi"])
        p.update(kw)
        if c["axis"] != "func":
            A = S if c["axis"] == "first" else S.transpose(1, 2, 0)
            e = LatentTimeMatrixDecomposition(time_on_axis=c["axis"], **p).fit(A)
            return dict(K=F(e.precision_), L=F(e.latent_), cov=[], obs=F(e.get_observed_precision()),
                        rec=float(e.reconstruction_err_))
        out = latent_time_matrix_decomposition(S, return_n_iter=False, **p)
        return dict(K=F(out[0]), L=F(out[1]), cov=[])
    if m == "IC":
        from regain.covariance.infimal_convolution_ import infimal_convolution
        K, L, C = infimal_convolution(S[0], alpha=c["alpha"], tau=c["tau"], return_n_iter=False, **kw)
        return dict(K=[F(K)], L=[F(L)], cov=[])
    raise KeyError(m)
