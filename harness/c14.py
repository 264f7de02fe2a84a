import contextlib
import io

import numpy as np

from core import F
from hlib import catch, cov, rs, samples
SPEC = "MissConf"
LIMIT = 120
ASSUMPTIONS = ["Fixed-point clauses are decided on runs that report convergence at tol 1e-9."]


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenMiss"), ctx.pick(190, 900), pairs=(("pat", "data", "run"), ("via", "pat"), ("via", "run", "hist"), ("al", "data"), ("d", "pat")))):
        rng = rs(ctx.seed, "miss", i, sorted(s.items()))
        c = dict(s)
        d, n = s["d"], int(rng.randint(12, 26))
        X = samples(rng, n, d, "iid" if s["data"] == "centred" else "corr")
        if s["data"] == "shifted":
            X = X + np.linspace(-2, 3, d)
        elif s["data"] == "scaled":
            X = X * 6
        else:
            X = X - X.mean(0)
        X = X.round(4)
        M = np.zeros((n, d), bool)
        p = s["pat"]
        if p == "one":
            M[int(rng.randint(n)), int(rng.randint(d))] = True
        elif p in ("few", "many"):
            M = rng.rand(n, d) < (.1 if p == "few" else .3)
        elif p == "column":
            M[rng.rand(n) < .4, int(rng.randint(d))] = True
        elif p in ("row", "allrow"):
            M[rng.rand(n, d) < .05] = True
            r = int(rng.randint(n))
            M[r] = True
            if p == "row":
                M[r, int(rng.randint(d))] = False
        for r in range(n):
            if M[r].all() and p != "allrow":
                M[r, 0] = False
        c["X"], c["M"] = F(np.where(M, 0, X)), [[bool(v) for v in r] for r in M]
        S = X.T.dot(X) / n
        od = np.abs(S - np.diag(np.diag(S))).max()
        c["alpha"] = round(float(dict(small=.05, mid=.3, big=1.5)[s["al"]] * od * rng.uniform(.8, 1.2)), 4)
        c["tol"] = 1e-9 if s["run"] == "converged" else float(rng.choice([1e-9, 1e-3]))
        c["iters"] = 4000 if s["run"] == "converged" else int(rng.choice([1, 1, 2, 3, 5]))
        c["over"] = 1.0 if s["ovr"] == "plain" else 1.4
        c["rho"] = 1.0 if s["run"] == "converged" else float(rng.choice([1., .4, 3.]))
        c["rule"] = bool(s["run"] == "short" and rng.rand() < .5)
        c["talk"] = int(rng.choice([0, 1, 2])) if s["run"] == "short" else 0
        c["id"] = "M-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.covariance.missing_graphical_lasso_ import MissingGraphicalLasso, missing_graphical_lasso
    M = np.array(c["M"])
    X = np.where(M, np.nan, np.array(c["X"]))
    X0 = X.copy()
    kw = dict(alpha=c["alpha"], tol=c["tol"], rtol=1e-9, max_iter=c["iters"], over_relax=c["over"], rho=c["rho"])
    if c["rule"]:
        kw["update_rho_options"] = dict(mu=1.5, tau_inc=3., tau_dec=2.)
    if c["talk"]:
        kw["verbose"] = c["talk"]
    with contextlib.redirect_stdout(io.StringIO()):
        return run(c, X, X0, kw, MissingGraphicalLasso, missing_graphical_lasso)


def run(c, X, X0, kw, MissingGraphicalLasso, missing_graphical_lasso):
    if c["via"] == "fn":
        r, w = catch(missing_graphical_lasso, X, return_history=c["hist"], return_n_iter=True, **kw)
        K, S, Z = r[:3]
        hist = [dict(iteration=int(h["iteration"]), log_likelihood=F(float(h["log_likelihood"])), difference=F(float(h["difference"]))) for h in r[3]] if c["hist"] else []
        n_iter = r[-1]
    else:
        e, w = catch(MissingGraphicalLasso(**kw).fit, X)
        K, S, Z, hist, n_iter = e.precision_, e.covariance_, e.complete_data_matrix_, [], e.n_iter_
    more = {}
    if c["run"] == "short":
        # the other way in, silently; and the M step of a single iteration on its own
        kw.pop("verbose", None)
        if c["via"] == "fn":
            e, _ = catch(MissingGraphicalLasso(**kw).fit, X)
            more["twin"] = dict(K=F(e.precision_), S=F(e.covariance_), Z=F(e.complete_data_matrix_))
        else:
            r, _ = catch(missing_graphical_lasso, X, return_n_iter=False, **kw)
            more["twin"] = dict(zip("KSZ", map(F, r)))
        if c["iters"] == 1:
            from regain.covariance.graphical_lasso_ import graphical_lasso
            r, _ = catch(graphical_lasso, np.array(S), init=np.eye(len(S)), **kw)
            more["step"] = F(r[0])
    return dict(more, K=F(K), S=F(S), Z=F(Z), hist=hist, n_iter=int(n_iter), warned=any("Missing" in m for m in w), clean=bool(np.array_equal(X, X0, equal_nan=True)))
