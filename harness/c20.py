"""Stability selection: a recording estimator logs every fit of the search."""
import sys
import threading
import types

import numpy as np

from core import F
from hlib import catch, rs
SPEC = "StabConf"
DESIGNS = ["StabDesign"]
LIMIT = 200
ASSUMPTIONS = ["netanalytics is not installed: graphlet distances come from a stand-in module (share of nodes whose degree differs).",
               "Selections within 1e-9 of the threshold 0.05 are not compared."]


def build(ctx):
    out = []
    sc = ctx.scenarios("ScenStab")
    fits = ctx.cover([s for s in sc if s["kind"] == "fit"], ctx.pick(96, 420), pairs=(("est", "path", "mode"), ("est", "grid", "size"), ("path", "grid"), ("refit", "again", "train"), ("size", "again", "est"), ("refit", "mode"), ("train", "scoring", "est"), ("jobs", "est")))
    fns = ctx.cover([s for s in sc if s["kind"] == "fn"], ctx.pick(80, 400), pairs=(("fn", "T", "dens"), ("fn", "p", "m"), ("m", "dens")))
    for i, s in enumerate(fns):
        rng = rs(ctx.seed, "stabfn", i, sorted(s.items()))
        c = dict(s)
        T, p, m = max(s["T"], 1), s["p"], s["m"]
        base = graphs(rng, T, p, .5)
        Gs = []
        for k in range(m):
            G = dict(none=np.zeros_like(base) + np.eye(p), mixed=graphs(rng, T, p, rng.rand()), same=base, full=graphs(rng, T, p, 1.1), flip=graphs(rng, T, p, 1.1) if k % 2 else np.zeros_like(base) + np.eye(p))[s["dens"]]
            Gs.append(G)
        c["Gs"] = F(np.array(Gs))
        c["id"] = "SF-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    for i, s in enumerate(fits):
        rng = rs(ctx.seed, "stab", i, sorted(s.items()))
        c = dict(s)
        c["p"] = int(rng.randint(3, 5))
        temporal = s["est"] in ("temporal", "tgl")
        c["classes"] = int(rng.randint(2, 4)) if temporal else 0
        c["reps"] = int(rng.randint(3, 7))
        data = []
        for r in range(2 if s["again"] else 1):
            n = int(rng.randint(25, 41)) + 14 * r
            if temporal:
                n = (n // c["classes"]) * c["classes"]
            A = np.eye(c["p"]) + .5 * rng.randn(c["p"], c["p"])
            data.append(F(rng.randn(n, c["p"]).dot(A).round(4)))
        c["data"] = data
        n = len(data[0])
        g = {"default": 0, "given": n // 2, "odd": n // 2 + 1}[s["size"]]
        if temporal and s["size"] == "given":
            g -= g % c["classes"]
        if temporal and s["size"] == "odd" and g % c["classes"] == 0:
            g += 1
        c["given"] = g
        if s["est"] in ("glasso", "tgl"):
            al = sorted(rng.choice([.02, .05, .1, .3, .5, .8, 1.2], size=4, replace=False).tolist())
        else:
            al = sorted((rng.choice(30, size=5, replace=False) / 10.).tolist())
        al = [al[k] for k in rng.permutation(len(al))]
        c["grid_"] = dict(alpha=al)
        if s["grid"] == "two":
            c["grid_"] = dict(alpha=al[:3], beta=[.1, .7, .3][: 2 + int(rng.randint(2))])
        elif s["grid"] == "lists":
            c["grid_"] = [dict(alpha=al[:3]), dict(beta=[.2, .9])]
        if s["est"] == "glasso" and s["grid"] == "two":
            c["grid_"] = dict(alpha=al[:3], rho=[1., 1.5])
        g = c["grid_"] if isinstance(c["grid_"], dict) else {k: v for d in c["grid_"] for k, v in d.items()}
        c["n_candidates"] = int(np.prod([len(v) for v in g.values()]))
        c["names"] = sorted(g)
        c["seed"] = int(rng.randint(1 << 30))
        c["id"] = "SS-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def graphs(rng, T, p, dens):
    out = []
    for _ in range(T):
        A = rng.randn(p, p) * (rng.rand(p, p) < dens)
        A = np.triu(A, 1)
        out.append(A + A.T + np.eye(p))
    return np.array(out)


def fake_netanalytics():
    m, g = types.ModuleType("netanalytics"), types.ModuleType("netanalytics.graphlets")

    def gdv(nodes, edges, graphlet_size=5):
        d = {v: 0 for v in nodes}
        for a, b in edges:
            d[a] += 1
            d[b] += 1
        return np.array([[d[v]] for v in nodes])
    g.graphlet_degree_vectors = gdv
    g.GCD = lambda a, b: (None, float(np.mean(np.any(a != b, axis=1))))
    m.graphlets = g
    sys.modules.setdefault("netanalytics", m)
    sys.modules.setdefault("netanalytics.graphlets", g)


class Fixed(object):
    def __init__(self, P):
        self.P = P

    def get_precision(self):
        return self.P


def edge_prob(c, alpha, beta):
    """How unstable a candidate is (0: never changes, 1: coin flips)."""
    a = alpha + .1 * beta
    r = min(max(a / 3.2, 0), 1)
    return dict(rising=(1 - r) ** 2, stable=.01, unstable=.9, dip=.5 if .35 < r < .6 else .02, flat=.06, edge=.1 * (1 - r))[c["path"]]


def observe(c):
    from regain.model_selection import stability_optimization as so
    fake_netanalytics()
    if c["kind"] == "fn":
        P = np.array(c["Gs"])
        es = [Fixed(g if c["T"] else g[0]) for g in P]
        P0 = P.copy()
        v = getattr(so, c["fn"])(es)
        return dict(v=F(float(v)), clean=bool(np.array_equal(P, P0)))
    from regain.covariance import GraphicalLasso, TimeGraphicalLasso
    import joblib
    from sklearn.base import BaseEstimator
    log = []
    idx = {}

    def rows_of(X):
        return [idx[tuple(r)] for r in np.asarray(X)]

    lock = threading.Lock()

    def scored(self, X, v):
        l = log[self.entry_]
        rows = rows_of(X)
        if rows == l["rows"]:
            l["train"] = v
        else:
            l["score"], l["test"] = v, rows
        return v

    def record(self, X, y, P):
        P = np.asarray(P)
        with lock:
            self.entry_ = len(log)
            log.append(dict(obj=self, rows=rows_of(X), y=[int(v) for v in y] if y is not None and c["classes"] else [], G=F(P if P.ndim == 3 else P[None]), par=self.get_params(), score=0.0, train=0.0, test=[]))

    class Stub(BaseEstimator):
        def __init__(self, alpha=1.0, beta=.5):
            self.alpha = alpha
            self.beta = beta

        def fit(self, X, y=None):
            T, p = max(c["classes"], 1), c["p"]
            rng = rs(c["seed"], self.alpha, self.beta, sorted(rows_of(X)))
            base = graphs(rs(c["seed"], "base"), T, p, .5)
            q = edge_prob(c, self.alpha, self.beta)
            flip = np.array([np.triu(rng.rand(p, p) < .5 * q, 1) for _ in range(T)])
            flip = flip | flip.transpose(0, 2, 1)
            P = np.where(flip, np.where(base != 0, 0, -.25), base)
            self.precision_ = P if c["classes"] else P[0]
            record(self, X, y, self.precision_)
            return self

        def get_precision(self):
            return self.precision_

        def score(self, X, y=None):
            return scored(self, X, float(rs("score", self.entry_, len(X)).rand()))

    class G(GraphicalLasso):
        def fit(self, X, y=None):
            super().fit(X)
            record(self, X, y, self.get_precision())
            return self

        def score(self, X, y=None):
            return scored(self, X, float(super().score(X)))

    class TG(TimeGraphicalLasso):
        def fit(self, X, y=None):
            super().fit(X, y)
            record(self, X, y, self.get_precision())
            return self

        def score(self, X, y=None):
            return scored(self, X, float(super().score(X, y)))

    est = G(max_iter=60) if c["est"] == "glasso" else TG(max_iter=40) if c["est"] == "tgl" else Stub()
    p0 = dict(est.get_params())
    kw = {}
    if c["given"]:
        kw["sampling_size"] = c["given"]
    rule = lambda r: int(np.argmax(r["mean_test_score"]))
    if c["scoring"] == "call":
        kw["scoring"] = (lambda e, X, y=None: 2 * e.score(X, y) + 1) if c["classes"] else (lambda e, X, y=None: 2 * e.score(X) + 1)
    so_ = so.GraphicalModelStabilitySelection(est, c["grid_"], n_repetitions=c["reps"], mode=c["mode"], n_jobs=c["jobs"], refit=dict(yes=True, no=False, rule=rule)[c["refit"]], return_train_score=c["train"], **kw)
    np.random.seed(c["seed"])
    runs = []
    for X in c["data"]:
        X = np.array(X)
        X0 = X.copy()
        idx.clear()
        idx.update({tuple(r): i for i, r in enumerate(X)})
        del log[:]
        y = None
        if c["classes"]:
            y = rs(c["seed"], "y").permutation(np.repeat(np.arange(c["classes"]), len(X) // c["classes"]))
        with joblib.parallel_backend("threading", n_jobs=2):
            catch(so_.fit, X, y)
        names = c["names"]
        params = [[float(v[k]) for k in names] for v in so_.cv_results_["params"]]
        be = getattr(so_, "best_estimator_", None)
        fits = []
        for l in log:
            par = [float(l["par"][k]) for k in names]
            refit = l["obj"] is be
            fits.append(dict(cand=params.index(par) + 1 if par in params else 0, refit=refit, rows=l["rows"], y=l["y"], G=l["G"], score=F(float(l["score"])), train=F(float(l["train"])), test=l["test"]))
        r = so_.cv_results_
        gs = c["mode"] == "gstars"
        runs.append(dict(params=F(np.array(params)), fits=fits, y=[int(v) for v in y] if y is not None else [],
                         raw=F(r["raw_test_instability"]), kept=F(r["mean_test_instability"]), mono=F(so_.monotonized_instabilities),
                         graphlets=F(so_.graphlets_instabilities) if gs else [], upper=F(so_.upper_bounds) if gs else [],
                         lb=int(so_.lower_bound) if gs else 0, ub=int(so_.upper_bound) if gs else 0,
                         best_index=int(so_.best_index_), best_params=F([float(so_.best_params_[k]) for k in names]),
                         best_estimator=F([float(be.get_params()[k]) for k in names]) if be is not None else [], has_best=be is not None,
                         mean_score=F(r["mean_test_score"]), std_score=F(r["std_test_score"]), splits=F(np.array([r["split%d_test_score" % k] for k in range(c["reps"])]).T),
                         rank_score=[int(v) for v in r["rank_test_score"]], n_splits=int(so_.n_splits_), cols=F([[float(r["param_" + k][j]) for k in names] for j in range(len(params))]),
                         train_score=F(r["mean_train_score"]) if c["train"] else [], has_train="mean_train_score" in r,
                         best_score=F(float(so_.best_score_)) if c["refit"] != "rule" else 0.0, clean=bool(np.array_equal(X, X0) and est.get_params() == p0)))
    return dict(runs=runs)
