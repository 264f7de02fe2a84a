import numpy as np

from core import F
from hlib import catch, covs, rs, samples
from optim import LEVEL
SPEC = "AdmmTrace"
DESIGNS = [("LoopDesign",)]
PAIRS = (("model", "budget"), ("model", "rule"), ("model", "init"), ("model", "psi"), ("model", "phi"), ("model", "rho"),
         ("model", "stop"), ("model", "n"), ("model", "T"), ("model", "via"), ("stop", "via"))


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenAdmm"), ctx.pick(180, 900), pairs=PAIRS)):
        rng = rs(ctx.seed, "admm", i, sorted(s.items()))
        c = dict(s)
        T, d = s["T"], s["d"]
        c["S"] = F(covs(rng, T, d, "corr").round(6))
        c["weights"] = [1.0] * T if s["n"] == "none" else [float(v) for v in rng.randint(5, 30, T)]
        if s["model"] == "IC":
            c["weights"] = [0.5]
        if s["via"] == "class":
            ns = [int(v) for v in rng.randint(3 * d, 6 * d + 3, T)]
            X = np.vstack([samples(rng, n, d, "shifted") for n in ns]).round(5)
            y = np.concatenate([[5 * t - 3] * ns[t] for t in range(T)])
            perm = rng.permutation(len(y))
            c["X"], c["y"] = F(X[perm]), [int(v) for v in y[perm]]
            del c["S"]
            if s["model"] not in ("GL", "LGL"):
                c["weights"] = [float(v) for v in ns]
        w = max(1.0, float(np.mean(c["weights"])))
        for f, l in (("alpha", "small"), ("beta", "mid"), ("tau", "mid"), ("eta", "small")):
            c[f] = round(LEVEL[l] * w * float(rng.uniform(0.5, 2)), 4)
        if i % 2:
            # strong sparsity against a weak trace penalty: the low-rank part is not zero
            c["alpha"], c["tau"] = round(3 * c["alpha"], 4), round(.12 * c["tau"], 4)
        c["rho"] = dict(half=0.5, one=1.0, three=3.0)[s["rho"]]
        c["over"] = dict(one=1.0, more=1.5, less=0.8)[s["over"]]
        c["mu"], c["tau_inc"], c["tau_dec"] = dict(default=(10.0, 2.0, 2.0), never=(10.0, 1.0, 1.0), eager=(2.37, 3.0, 1.5))[s["rule"]]
        c["max_iter"] = dict(one=1, short=int(rng.randint(3, 12)), long=400, loose=200)[s["budget"]]
        c["tol"], c["rtol"] = dict(long=(1e-4, 1e-4), loose=(1e-2, 3e-2)).get(s["budget"], (1e-6, 1e-5))
        if "node" in (s["psi"], s["phi"]):
            c["max_iter"] = min(c["max_iter"], 60)
        c["cut"] = max(1, min(c["max_iter"], int(rng.randint(1, 7))))
        if s["model"] in ("KTGL", "KLTGL"):
            for k in ("kpsi", "kphi"):
                M = np.triu(rng.uniform(0.02, 0.6, (T, T)) * (rng.rand(T, T) < 0.8) * w, 1)
                c[k] = F((M + M.T + np.eye(T)).round(4))
        if s["init"] == "array":
            c["K0"] = F(np.array([np.eye(d) + 0.1 * (t + 1) for t in range(T)]))
        c["rules"] = [[round(float(v), 6) for v in (rng.uniform(.1, 4), 10 ** rng.uniform(-3, 2), 10 ** rng.uniform(-3, 2), rng.uniform(1.5, 20), rng.uniform(1.1, 4), rng.uniform(1.1, 4))]
                      for _ in range(6)] + [[1.0, 10.0, 1.0, 10.0, 2.0, 2.0], [1.0, 1.0, 10.0, 10.0, 2.0, 2.0]]
        c["id"] = "A-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def solver(c, **over):
    m = c["model"]
    S = np.array(c["S"])
    n = None if c["n"] == "none" else np.array(c["weights"])
    kw = dict(alpha=c["alpha"], rho=c["rho"], tol=c["tol"], rtol=c["rtol"], max_iter=c["max_iter"], return_history=True,
              return_n_iter=True, compute_objective=c["compobj"])
    if c["rule"] != "default":
        kw["update_rho_options"] = dict(mu=c["mu"], tau_inc=c["tau_inc"], tau_dec=c["tau_dec"])
    if m not in ("IC", "LTMD"):
        kw["init"] = {"empirical": "empirical", "zero": "zeros"}.get(c["init"]) or np.array(c["K0"])
    kw.update(over)
    if m in ("GL", "LGL", "IC"):
        S = S[0]
        if isinstance(kw.get("init"), np.ndarray):
            kw["init"] = kw["init"][0]
    if m == "GL":
        from regain.covariance.graphical_lasso_ import graphical_lasso as f
        kw["over_relax"] = c["over"]
    elif m == "LGL":
        from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso as f
        kw["tau"] = c["tau"]
    elif m == "IC":
        from regain.covariance.infimal_convolution_ import infimal_convolution as f
        kw["tau"] = c["tau"]
    elif m == "TGL":
        from regain.covariance.time_graphical_lasso_ import time_graphical_lasso as f
        kw.update(beta=c["beta"], psi=c["psi"], n_samples=n)
    elif m == "KTGL":
        from regain.covariance.kernel_time_graphical_lasso_ import kernel_time_graphical_lasso as f
        kw.update(kernel=np.array(c["kpsi"]), psi=c["psi"], n_samples=n)
    elif m == "LTGL":
        from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso as f
        kw.update(beta=c["beta"], psi=c["psi"], n_samples=n, tau=c["tau"], eta=c["eta"], phi=c["phi"])
    elif m == "KLTGL":
        from regain.covariance.kernel_latent_time_graphical_lasso_ import kernel_latent_time_graphical_lasso as f
        kw.update(kernel_psi=np.array(c["kpsi"]), kernel_phi=np.array(c["kphi"]), psi=c["psi"], n_samples=n, tau=c["tau"], phi=c["phi"])
    elif m == "LTMD":
        from regain.covariance.latent_time_matrix_decomposition import latent_time_matrix_decomposition as f
        kw.update(beta=c["beta"], psi=c["psi"], tau=c["tau"], eta=c["eta"], phi=c["phi"])
    r, ws = catch(f, S, **kw)
    return list(r), any("did not converge" in w for w in ws)


def estimator(c):
    m = c["model"]
    p = dict(alpha=c["alpha"], rho=c["rho"], tol=c["tol"], rtol=c["rtol"], max_iter=c["max_iter"], compute_objective=c["compobj"])
    if c["rule"] != "default":
        p["update_rho_options"] = dict(mu=c["mu"], tau_inc=c["tau_inc"], tau_dec=c["tau_dec"])
    p["init"] = {"empirical": "empirical", "zero": "zeros"}.get(c["init"]) or np.array(c["K0"])
    import regain.covariance as rc
    from regain.covariance.kernel_latent_time_graphical_lasso_ import KernelLatentTimeGraphicalLasso
    if m in ("GL", "LGL") and isinstance(p["init"], np.ndarray):
        p["init"] = p["init"][0]
    if m == "GL":
        return rc.GraphicalLasso(over_relax=c["over"], **p)
    if m == "LGL":
        return rc.LatentGraphicalLasso(tau=c["tau"], **p)
    if m == "TGL":
        if "stop_at" in c:
            p.update(stop_at=c["stop_at"], stop_when=c["stop_when"])
        return rc.TimeGraphicalLasso(beta=c["beta"], psi=c["psi"], return_history=True, **p)
    if m == "LTGL":
        return rc.LatentTimeGraphicalLasso(beta=c["beta"], psi=c["psi"], tau=c["tau"], eta=c["eta"], phi=c["phi"], **p)
    if m == "KTGL":
        from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso
        return KernelTimeGraphicalLasso(kernel=np.array(c["kpsi"]), psi=c["psi"], return_history=True, **p)
    return KernelLatentTimeGraphicalLasso(kernel_psi=np.array(c["kpsi"]), kernel_phi=np.array(c["kphi"]), psi=c["psi"], phi=c["phi"],
                                          tau=c["tau"], return_history=True, **p)


def hist(h):
    return [{f: float(getattr(x, f)) for f in ("obj", "rnorm", "snorm", "e_pri", "e_dual") if getattr(x, f, None) is not None} for x in h]


def observe(c):
    from regain.update_rules import update_rho
    m = c["model"]
    extra, out = {}, {}
    if c["via"] == "class":
        if c["stop"]:
            h = hist(estimator(c).fit(np.array(c["X"]), np.array(c["y"])).history_)
            v = h[min(len(h) - 1, 6)]["obj"]
            c = dict(c, stop_at=float(v), stop_when=1e-6)
            out.update(stop_at=float(v), stop_when=1e-6)
        e, ws = catch(estimator(c).fit, np.array(c["X"]), np.array(c["y"]))
        two = lambda a: F([a]) if m in ("GL", "LGL") else F(a)
        def again(k):
            a, w = catch(estimator(dict(c, max_iter=k)).fit, np.array(c["X"]), np.array(c["y"]))
            return dict(n=int(a.n_iter_), warned=any("did not converge" in v for v in w))
        k = int(e.n_iter_)
        return dict(out, exact=again(k), less=again(k - 1) if k > 1 else {}, hist=hist(getattr(e, "history_", [])), n_iter=int(e.n_iter_), warned=any("did not converge" in w for w in ws),
                    K=two(e.precision_), L=two(e.latent_) if m in ("LGL", "LTGL", "KLTGL") else [], short=[], short_n=0, rule=[])
    if c["stop"]:
        r, _ = solver(c)
        h = hist(r[-2])
        v = h[min(len(h) - 1, 6)]["obj"]
        if np.isfinite(v):
            extra = dict(stop_at=float(v), stop_when=1e-6)
            out.update(stop_at=float(v), stop_when=1e-6)
    r, warned = solver(c, **extra)
    short, _ = solver(c, max_iter=c["cut"])
    k = int(r[-1])
    again = lambda j: (lambda q: dict(n=int(q[0][-1]), warned=q[1]))(solver(c, max_iter=j, **extra))
    out.update(exact=again(k), less=again(k - 1) if k > 1 else {})
    two = lambda a: F([a]) if m in ("GL", "LGL", "IC") else F(a)
    lat = m in ("LGL", "LTGL", "KLTGL", "LTMD", "IC")
    out.update(hist=hist(r[-2]), n_iter=int(r[-1]), warned=warned, K=two(r[0]), L=two(r[1]) if lat else [],
               short=hist(short[-2]), short_n=int(short[-1]))
    out["rule"] = [dict(rho=F(a[0]), r=F(a[1]), s=F(a[2]), mu=F(a[3]), tau_inc=F(a[4]), tau_dec=F(a[5]),
                        out=F(update_rho(a[0], a[1], a[2], iteration=3, mu=a[3], tau_inc=a[4], tau_dec=a[5]))) for a in c["rules"]]
    return out
