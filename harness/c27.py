"""Similarity models (clusters of times) and clustering of graphs."""
import itertools
import warnings

import numpy as np

from core import F
from hlib import rs
SPEC = "ClusConf"
LIMIT = 300
ASSUMPTIONS = ["The model of given clusters is fitted by the kernel model of the same library, whose optimality is C04 (Gaussian) and C16 (Ising).",
               "Runs whose clusters are decided by less than 1e-4 of the largest distance are not compared."]


def partitions(T, k):
    out = []
    for lab in itertools.product(range(k), repeat=T):
        # canonical: labels appear in order
        seen = []
        for v in lab:
            if v not in seen:
                seen.append(v)
        if seen == list(range(k)):
            out.append(list(lab))
    return out


def build(ctx):
    out = []
    sc = ctx.scenarios("ScenClus")
    k = lambda kind, **kw: [s for s in sc if s["kind"] == kind and all(s[a] == b for a, b in kw.items())]
    P = (("T", "k"), ("psi", "k"), ("beta", "data"), ("data", "k"), ("ker", "psi"), ("hist", "ker"))
    pick = (ctx.cover(k("sim", model="TGL"), ctx.pick(24, 120), pairs=P) + ctx.cover(k("sim", model="LTGL"), ctx.pick(20, 90), pairs=P[:1] + P[4:5] + (("phi", "ker"), ("data", "k"), ("hist", "ker")))
            + ctx.cover(k("sim", model="ISING"), ctx.pick(8, 40), pairs=(("T", "k"), ("beta", "data"), ("ker", "hist"))) + k("bad") + [x for x in k("step") if x["start"] == "chain" and x["T"] == 4 and x["k"] == 2] + ctx.cover([x for x in k("step") if not (x["start"] == "chain" and x["T"] == 4 and x["k"] == 2)], ctx.pick(8, 36), pairs=(("model", "start"),)) + k("poi") + ctx.cover(k("km"), ctx.pick(90, 300), pairs=(("n", "k"), ("dens", "k"), ("p", "k"), ("rounds", "k"), ("rounds", "n")))
            + ctx.cover(k("rep"), ctx.pick(24, 48), pairs=(("n", "p"), ("dens", "n"))))
    for i, s in enumerate(pick):
        rng = rs(ctx.seed, "clus", i, sorted(s.items()))
        c = dict(s)
        kd = s["kind"]
        c["seed"] = int(rng.randint(1 << 30))
        if kd in ("sim", "step"):
            T, p, n = s["T"], 3, 400 if s["data"] == "chain" else 40
            A = [np.eye(p) + (.9 if s["model"] == "ISING" else .45) * rng.randn(p, p) for _ in range(2)]
            which = dict(alternate=[t % 2 for t in range(T)], jump=[int(t >= T / 2) for t in range(T)], drift=[t / max(1, T - 1) for t in range(T)],
                         chain=(np.array([0, 1, 2.05, 3.8, 5.9][:T]) / (3.8 if T == 4 else 5.9))[rng.permutation(T)])[s["data"]]
            X = np.vstack([rng.randn(n, p).dot((1 - w) * A[0] + w * A[1]) for w in which])
            if s["model"] == "ISING":
                X = np.where(X > 0, 1., -1.)
            c["X"] = F(X.round(5))
            c["y"] = [int(3 * t + 1) for t in range(T) for _ in range(n)]
            c["beta_"] = dict(short=.4, one=1., long=3.)[s["beta"]]
            c["alpha"] = .05 if s["model"] == "ISING" else 2.
            kk = s["k"] or T
            c["parts"] = partitions(T, kk)
            t = np.arange(T)
            c["kernels"] = [F((np.array(l)[:, None] == np.array(l)[None]).astype(float) + np.exp(-.5 * (t[:, None] - t[None]) ** 2 / c["beta_"] ** 2)) for l in c["parts"]]
            yy = 3. * t + 1
            rbf = lambda l: np.exp(-.5 * (yy[:, None] - yy[None]) ** 2 / l ** 2)
            given = lambda: (lambda M: M + M.T + np.eye(T))(np.triu(rng.uniform(0, 1, size=(T, T)), 1))
            if s["ker"] != "learn":
                c["kernels"] = [F(dict(given=given(), call=rbf(2.5), const=np.full((T, T), .7))[s["ker"]])]
                c["kphi"] = F(dict(given=given(), default=np.eye(T), call=rbf(4.), const=np.full((T, T), .4))[s["phi"]])
            if kd == "step":
                B = rng.randn(3, 3) * .3
                w = (np.array([0, 1, 2.05, 3.8][:T]) if s["start"] == "chain" else rng.uniform(0, 3, size=T))[rng.permutation(T)]
                c["init"] = F(np.array([3 * np.eye(p) + .3 * v * (B + B.T) for v in w]) + (0 if s["start"] == "chain" else .05 * np.array([np.diag(v) for v in rng.randn(T, p)])))
            if kd == "step" and s["model"] == "ISING":
                c["kernels_more"] = [F(np.eye(T))]
        elif kd in ("km", "rep"):
            p = s["p"]

            def graph(dens):
                A = np.triu(rng.randn(p, p) * (rng.rand(p, p) < dict(sparse=.3, half=.5, full=1., equal=.5)[dens]), 1)
                return A + A.T + np.eye(p)
            Gs = [graph(s["dens"]) for _ in range(s["n"])]
            if s["dens"] == "equal":
                Gs = [Gs[j % 2] * (1 + j) for j in range(s["n"])]
            c["Gs"], c["Hs"] = F(np.array(Gs)), F(np.array([graph("half") for _ in range(2)]))
        c["id"] = "CL-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from sklearn.exceptions import NotFittedError

    from regain import clustering as cl
    k = c["kind"]
    A = np.array
    np.random.seed(c["seed"])
    if k == "poi":
        from regain.generalized_linear_model.glm_time_poisson import SimilarityTemporalPoissonModel
        rng = rs(1, "poi")
        X, y = rng.poisson(3, size=(60, 3)), np.repeat(np.arange(3), 20)
        SimilarityTemporalPoissonModel(max_iter=20, n_clusters=2).fit(X, y)
        return dict(ok=True)
    if k == "bad":
        from regain.covariance.kernel_latent_time_graphical_lasso_ import SimilarityLatentTimeGraphicalLasso
        from regain.covariance.kernel_time_graphical_lasso_ import SimilarityTimeGraphicalLasso
        from regain.generalized_linear_model.glm_time_ising import SimilarityTemporalIsingModel
        T = c["T"]
        rng = rs(c["seed"], "bad")
        X, y = rng.randn(T * 10, 3), np.repeat(np.arange(T), 10)
        wrong, right = np.eye(T + c["d"]), np.eye(T)
        e = dict(TGL=lambda: SimilarityTimeGraphicalLasso(kernel=wrong), LTGL=lambda: SimilarityLatentTimeGraphicalLasso(kernel_psi=wrong, kernel_phi=right),
                 LTGLphi=lambda: SimilarityLatentTimeGraphicalLasso(kernel_psi=right, kernel_phi=wrong), ISING=lambda: SimilarityTemporalIsingModel(kernel=wrong))[c["model"]]()
        try:
            e.fit(np.where(X > 0, 1., -1.) if c["model"] == "ISING" else X, y)
        except ValueError as ex:
            return dict(refused="does not match" in str(ex), what=str(ex)[:100])
        return dict(refused=False, what="")
    if k == "rep":
        Gs, Hs = A(c["Gs"]), A(c["Hs"])
        G0, H0 = Gs.copy(), Hs.copy()
        rep, D = cl.get_representative(list(Gs)), cl.compute_distances(list(Gs), list(Hs))
        return dict(rep=F(np.asarray(rep, float)), D=F(D), clean=bool(np.array_equal(Gs, G0) and np.array_equal(Hs, H0)))
    if k == "km":
        Gs = A(c["Gs"])
        G0 = Gs.copy()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            K = cl.graph_k_means(list(Gs), c["k"], max_iter=c["rounds"])
        return dict(K=F(K), warned=any("converge" in str(x.message) for x in w), clean=bool(np.array_equal(Gs, G0)))
    X, y = A(c["X"]), A(c["y"])
    X0, y0 = X.copy(), y.copy()
    m = c["model"]
    kw = dict(alpha=c["alpha"], psi=c["psi"], tol=1e-6, rtol=1e-6, max_iter=2000)
    ka = "kernel"
    if m == "TGL":
        from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso as K
        from regain.covariance.kernel_time_graphical_lasso_ import SimilarityTimeGraphicalLasso as S
    elif m == "LTGL":
        from regain.covariance.kernel_latent_time_graphical_lasso_ import KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso
        S, K, ka = SimilarityLatentTimeGraphicalLasso, KernelLatentTimeGraphicalLasso, "kernel_psi"
        kw.update(tau=1.5, phi="l1", kernel_phi=np.eye(c["T"]) + .5 * (np.eye(c["T"], k=1) + np.eye(c["T"], k=-1)))
    else:
        from regain.generalized_linear_model.glm_time_ising import SimilarityTemporalIsingModel as S
        from regain.generalized_linear_model.glm_time_ising import TemporalIsingModel as K
        kw.update(tol=1e-4, rtol=1e-4, max_iter=25)
    more = dict(n_clusters=c["k"] or None, max_iter_ext=12)
    # without a kernel for the latent part, consecutive times are coupled with weight eta
    own = dict({a: b for a, b in kw.items() if a != "kernel_phi"}, eta=.5) if c["phi"] == "default" else kw
    if k == "step":
        init = A(c["init"])
        start = {} if m == "ISING" else dict(init=init)
        res = []
        for n in (1, 2):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                res.append(F(S(beta=c["beta_"], n_clusters=c["k"], max_iter_ext=n, **start, **kw).fit(X, y).precision_))
            if n == 1:
                warned = any("theta did not" in str(x.message) for x in w)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref = [dict(prec=F(K(**{ka: A(M)}, **kw).fit(X, y).precision_)) for M in c["kernels"] + c.get("kernels_more", [])]
        return dict(warned=warned, one=res[0], two=res[1], refits=ref, clean=bool(np.array_equal(init, A(c["init"])) and np.array_equal(X, X0) and np.array_equal(y, y0)))
    kr = dict(kw)
    if c["ker"] == "learn":
        e = S(beta=c["beta_"], return_history=c["hist"], **more, **own)
    elif m != "LTGL":
        e = S(return_history=c["hist"], **{ka: A(c["kernels"][0])}, **kw)
    else:
        from sklearn.gaussian_process.kernels import RBF, ConstantKernel
        kr["kernel_phi"] = A(c["kphi"])
        kp = dict(given=dict(kernel_psi=A(c["kernels"][0])), call=dict(kernel_psi=RBF, ker_psi_param=2.5), const=dict(kernel_psi=ConstantKernel, ker_psi_param=.7))[c["ker"]]
        kf = dict(given=dict(kernel_phi=A(c["kphi"])), default=dict(kernel_phi=None), call=dict(kernel_phi=RBF, ker_phi_param=4.), const=dict(kernel_phi=ConstantKernel, ker_phi_param=.4))[c["phi"]]
        e = S(return_history=c["hist"], **{**kw, **kp, **kf})
    refuses = False
    try:
        e.transform(X)
    except NotFittedError:
        refuses = True
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        e.fit(X, y)
    ref = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for M in c["kernels"]:
            r = K(**{ka: A(M)}, return_history=c["hist"], **kr).fit(X, y)
            ref.append(dict(n_iter=int(r.n_iter_), hist=len(r.history_) if c["hist"] else 0, prec=F(r.precision_), lat=F(r.latent_) if m == "LTGL" else []))
    learn = c["ker"] == "learn"
    return dict(n_iter=int(e.n_iter_), hist=len(e.history_) if c["hist"] else 0, prec=F(e.precision_), lat=F(e.latent_) if m == "LTGL" else [], sim=F(e.similarity_matrix_) if learn else [],
                transform=bool(not learn or np.array_equal(e.transform(X), e.similarity_matrix_)), refuses=refuses,
                warned=any("theta did not" in str(x.message) for x in w), refits=ref, clean=bool(np.array_equal(X, X0) and np.array_equal(y, y0)))
