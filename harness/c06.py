import numpy as np

from core import F
from hlib import catch, cov, rs, samples
from optim import LEVEL
SPEC = "FBConf"
LIMIT = 120


def build(ctx):
    sc = ctx.cover(ctx.scenarios("ScenFB"), ctx.pick(60, 240), pairs=(("choose", "pen"), ("crit", "pen"), ("choose", "n"), ("choose", "init"), ("choose", "eps", "pen"), ("extra", "choose"), ("extra", "via")))
    out = []
    for i, s in enumerate(sc):
        rng = rs(ctx.seed, "fb", i, sorted(s.items()))
        d, T = s["d"], s["T"]
        ns = [6 * d] * T if s["n"] != "uneven" else [int(v) for v in rng.randint(4 * d, 8 * d, T)]
        A = np.eye(d) + 0.25 * rng.randn(d, d)
        Xs = [(rng.randn(n, d).dot(A + 0.1 * rng.randn(d, d))).round(5) for n in ns]
        c = dict(s)
        c["model"], c["kind"] = "FB", ""
        c["psi"] = "laplacian" if s["pen"] == "laplacian" else "l1"
        w = 1.0
        c["weights"] = [1.0] * T
        if s["n"] != "none":
            c["weights"] = [float(n) for n in ns]
            w = float(np.mean(ns))
        if s["via"] == "class":
            y = np.concatenate([[3 * t - 1] * ns[t] for t in range(T)])
            perm = rng.permutation(len(y))
            c["X"], c["y"] = F(np.vstack(Xs)[perm]), [int(v) for v in y[perm]]
        else:
            c["S"] = F(np.array([cov(x) for x in Xs]))
        for f in ("alpha", "beta"):
            c[f] = round(LEVEL[s[f]] * w * float(rng.uniform(0.7, 1.4)), 5)
        c["delta"] = dict(half=0.5, quarter=0.25)[s["delta"]]
        c["gamma"] = dict(fixed=0.1 if i % 2 else .03, lamda=0.3, gamma=1.0, both=1.0)[s["choose"]] / w
        c["vareps"] = dict(none=0.0, tiny=1e-5, big=round(.15 * w, 5))[s["eps"]]
        if s["init"] == "array":
            c["K0"] = F(np.array([np.eye(d) * 0.9 + 0.02 for _ in range(T)]))
        c["id"] = "FB-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.forward_backward.time_graphical_lasso_ import TimeGraphicalLassoForwardBackward
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward
    p = dict(alpha=c["alpha"], beta=c["beta"], choose=c["choose"], lamda_criterion=c["crit"], gamma=c["gamma"], delta=c["delta"],
             tol=1e-9, vareps=c["vareps"], max_iter=2500, return_history=True, laplacian_penalty=c["pen"] == "laplacian",
             time_norm=2 if c["pen"] == "l2t" else 1, init=np.array(c["K0"]) if "K0" in c else "empirical")
    X, y = np.array(c.get("X", [])), np.array(c.get("y", []))

    def run(**k):
        q = dict(p, **k)
        if "X" in c:
            e, ws = catch(TimeGraphicalLassoForwardBackward(**q).fit, X, y)
            r = [e.precision_, e.covariance_] + ([e.history_] if q["return_history"] else []) + [e.n_iter_] + ([e.n_linesearch_] if q.get("return_n_linesearch") else [])
        else:
            n = None if c["n"] == "none" else np.array(c["weights"])
            r, ws = catch(tgl_forward_backward, np.array(c["S"]), n_samples=n, **q)
        return r, not any("did not converge" in w for w in ws)
    (K, C, h, it), conv = run()
    obj = [float(x.obj) for x in h]
    if c["extra"] == "plain":
        (K1, _, n1, l1), _ = run(return_history=False, return_n_linesearch=True)
        (_, _, _, _, l2), _ = run(return_n_linesearch=True)
        more = dict(K=F(K1), n_iter=int(n1), nls=int(l1), nls2=int(l2))
    elif c["extra"] == "stop":
        k = min(len(obj) - 1, 7)
        # between two values, so that rounding does not decide; beyond the last value the budget runs out
        at, when, budget = (obj[k], 1e-3, 60) if c["delta"] == .5 else (obj[-1] - 1. - abs(obj[-1]), 1e-6, 12)
        (K1, _, h1, n1), cv = run(stop_at=at, stop_when=when, max_iter=budget)
        more = dict(K=F(K1), obj=[float(x.obj) for x in h1], n_iter=int(n1), converged=cv, stop=at, when=when, budget=budget)
    else:
        S = np.array([np.cov(X[y == v].T, bias=True) for v in np.unique(y)])
        amax = float(max(np.abs(s - np.diag(np.diag(s))).max() for s in S))
        (K1, _, _, _), _ = run(alpha="max")
        (K2, _, _, _), _ = run(alpha=amax)
        more = dict(K=F(K1), K2=F(K2), amax=amax)
    if "X" in c:
        # the first steps of the class are those of the function with the same options
        k = dict(max_iter=4, eps=.6, lamda=.8)
        (K1, _, h1, n1), _ = run(**k)
        S = np.array([np.cov(X[y == v].T, bias=True) for v in np.unique(y)])
        r, _ = catch(tgl_forward_backward, S, n_samples=np.unique(y, return_counts=True)[1], **dict(p, **k))
        more["twin"] = dict(K=F(K1), obj=[float(x.obj) for x in h1], n=int(n1), fK=F(r[0]), fobj=[float(x.obj) for x in r[2]], fn=int(r[3]))
    return dict(K=F(K), cov=F(C), obj=obj, n_iter=int(it), converged=conv, more=more)
