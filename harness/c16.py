import numpy as np

from core import F
from hlib import catch, rs
SPEC = "GlmTimeConf"
LIMIT = 120
AL = dict(small=.02, mid=.08, big=.25)
ASSUMPTIONS = ["Balanced classes; step sizes below 1/L; the Poisson fixed point is decided for the squared (laplacian) temporal penalty and for decoupled times."]


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenGlmT"), ctx.pick(124, 460),
                                    pairs=(("fam", "via", "psi"), ("fam", "T", "ker"), ("fam", "via", "hist"), ("fam", "stop")))):
        rng = rs(ctx.seed, "glmt", i, sorted(s.items()))
        c = dict(s)
        d, n, T = int(rng.randint(2, 4 if s["T"] > 2 or s["psi"] == "node" else 6)), int(rng.randint(7, 11)), s["T"]
        flip = np.where(rng.rand(T, n, 1) < .25 + .15 * rng.rand(T, 1, 1), -1, 1)
        X = np.where(rng.rand(T, n, d) < .5, -1.0, 1.0)
        X[:, :, 1:2] = X[:, :, :1] * flip
        if s["fam"] == "poisson":
            X = np.minimum(rng.poisson(.7, size=(T, n, d)), 3).astype(float)
            X[:, 0] = 1
        c["X"] = F(X)
        c["alpha"] = round(AL[s["al"]] * float(rng.uniform(.8, 1.25)), 4)
        c["rhov"] = dict(one=1.0, less=.5, more=2.5)[s["rho"]]
        W = np.eye(T)
        if s["ker"] == "chain":
            for t in range(T - 1):
                W[t, t + 1] = W[t + 1, t] = round(float(rng.uniform(.02, .3)), 3)
        elif s["ker"] == "dense":
            for t in range(T):
                for u in range(t):
                    W[t, u] = W[u, t] = round(float(rng.choice([0, .03, .1, .3])), 3)
        c["W"] = F(W)
        L = max(float(np.linalg.eigvalsh(x.T.dot(x) / n).max()) for x in X)
        c["gamma"] = round(.9 / (L + c["rhov"] * max(T - 1, 1)), 4) if s["fam"] == "ising" else .5
        c["classes"] = F(np.arange(T) if s["lab"] == "int" else np.arange(T) * .5 - .75 if s["lab"] == "float" else np.arange(T) * 3 - 7)
        c["_seed"] = int(rng.randint(1 << 30))
        c["id"] = "T-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.generalized_linear_model.glm_time_ising import TemporalIsingModel, _fit_time_ising_model
    from regain.generalized_linear_model.glm_time_poisson import TemporalPoissonModel, _fit_time_poisson_model
    X, W = np.array(c["X"]), np.array(c["W"])
    X0, W0 = X.copy(), W.copy()
    fn, cls = ((_fit_time_ising_model, TemporalIsingModel), (_fit_time_poisson_model, TemporalPoissonModel))[c["fam"] == "poisson"]
    base = dict(alpha=c["alpha"], rho=c["rhov"], psi=c["psi"])
    if c["via"] == "fn":
        upd = dict(tau_inc=1, tau_dec=1) if c["fam"] == "poisson" or c["rho"] == "less" else None
        run = lambda **k: fn(X, kernel=None if c["ker"] == "none" else W, gamma=c["gamma"], max_iter=500 if c["psi"] != "node" else 150, tol=3e-6, rtol=3e-6,
                             return_history=c["hist"], return_n_iter=True, update_rho_options=upd, **k, **base)
        res = run()
        r = dict(K=F(res[0]), n_iter=int(res[-1]), obj=0.0, nhist=0)
        if c["hist"]:
            r.update(obj=float(res[1][-1].obj), nhist=len(res[1]))
        if c["stop"]:
            objs = [float(h.obj) for h in res[1]]
            at = objs[min(len(objs) - 1, 4)]
            again = run(stop_at=at, stop_when=1e-3)
            r.update(at=at, objs=objs, stopped=[float(h.obj) for h in again[1]], stop_n=int(again[2]), same=len(again[1]) == len(objs))
    else:
        T, n, d = X.shape
        rng = np.random.RandomState(c["_seed"])
        y = np.repeat(np.array(c["classes"]), n)
        if c["lab"] != "float":
            y = y.astype(int)
        rows = X.reshape(T * n, d)
        p = np.argsort(rng.rand(T * n) + 1e-9)
        # keep the order inside a class so that the grouped data are X itself
        order = np.empty(T * n, int)
        slots = {cl: iter(np.where(y == cl)[0]) for cl in np.unique(y)}
        lab = y[p]
        for k, cl in enumerate(lab):
            order[k] = next(slots[cl])
        rows, y = rows[order], y[order]
        kw = dict(max_iter=25, tol=1e-3, rtol=1e-3, **base)
        ker = dict(none=None, callable="rbf").get(c["ker"], W)
        if c["ker"] == "short":
            try:
                cls(kernel=np.eye(T + (1 if c["hist"] else -1)), **kw).fit(rows, y)
            except ValueError as ex:
                return dict(refused="does not match" in str(ex))
            return dict(refused=False)
        if c["ker"] == "const":
            from sklearn.gaussian_process.kernels import ConstantKernel
            e = cls(kernel=ConstantKernel, ker_param=.15, return_history=c["hist"], **kw)
            W = np.full((T, T), .15)
        elif ker == "rbf" if isinstance(ker, str) else False:
            from sklearn.gaussian_process.kernels import RBF
            e = cls(kernel=RBF, ker_param=1.3, return_history=c["hist"], **kw)
            cl = np.unique(y)[:, None]
            W = np.exp(-.5 * (cl - cl.T) ** 2 / 1.3 ** 2)
        else:
            e = cls(kernel=ker, return_history=c["hist"], **kw)
        Xr = rows.copy()
        _, ws = catch(e.fit, rows, y)
        k2 = dict(kw)
        res, wf = catch(fn, X, kernel=W, return_n_iter=True, **k2)
        r = dict(K=F(e.precision_), Kfn=F(res[0]), n_iter=int(e.n_iter_), n_fn=int(res[-1]), classes=F(e.classes_), get=F(e.get_precision()), nhist=len(e.history_) if c["hist"] else 0,
                 warned=any("converge" in w for w in ws), warned_fn=any("converge" in w for w in wf))
        r["clean"] = bool(np.array_equal(rows, Xr) and np.array_equal(X, X0))
        return r
    r["clean"] = bool(np.array_equal(X, X0) and np.array_equal(W, W0))
    return r
