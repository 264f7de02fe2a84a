import numpy as np

from core import F
from hlib import cov, rs
SPEC = "CritConf"


def build(ctx):
    out = []
    for i, s in enumerate(ctx.cover(ctx.scenarios("ScenCrit"), ctx.pick(300, 1000), pairs=(("fn", "pat", "def"), ("fn", "args", "d"), ("fn", "T"), ("fn", "def")))):
        rng = rs(ctx.seed, "crit", i, sorted(s.items()))
        c = dict(s)
        d = s["d"]
        K, S = [], []
        for _ in range(s["T"]):
            A = rng.randn(d, d)
            A = (A + A.T) / 2
            m = np.triu(rng.rand(d, d) < dict(diag=0, sparse=.5, full=1.1, neg=.6)[s["pat"]], 1)
            A = A * (m | m.T)
            if s["pat"] == "neg":
                A = -np.abs(A)
            k = A + np.diag(np.abs(A).sum(1) + rng.uniform(.3, 2, size=d))
            S.append(cov(rng.randn(d + 4, d)))
            K.append(k)
        if s["def"] == "indefinite":
            K[-1] = K[-1] - np.eye(d) * (np.linalg.eigvalsh(K[-1])[0] + np.linalg.eigvalsh(K[-1])[1]) / 2
        elif s["def"] == "singular":
            K[-1] = np.zeros((d, d))
            K[-1][0, 0] = 1.0
        c["K"], c["S"] = F(np.array(K)), F(np.array(S))
        c["n"] = float(rng.randint(20, 400)) if s["args"] in ("n", "both") else 100.0
        c["eps"] = round(float(rng.rand()), 3) if s["args"] in ("eps", "both") else .5
        if s["def"] != "pd":
            # only the log-likelihood is compared (the counts assume a full diagonal)
            c["fn"] = s["fn"] if s["fn"].startswith("ll") or s["def"] == "indefinite" else "ll"
        c["id"] = "I-%03d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain import scores
    S, K = np.array(c["S"]), np.array(c["K"])
    fn = dict(ll="log_likelihood", ll_t="log_likelihood_t").get(c["fn"], c["fn"])
    if fn in ("BIC", "EBIC", "EBIC_m"):
        S, K = S[0], K[0]
    S0, K0 = S.copy(), K.copy()
    kw = {}
    if c["args"] in ("n", "both"):
        kw["n"] = c["n"]
    if c["args"] in ("eps", "both"):
        kw["epsilon"] = c["eps"]
    if fn.startswith("log"):
        kw = {}
    v = getattr(scores, fn)(S, list(K) if c["form"] == "list" and fn == "BIC_t" else K, **kw)
    return dict(v=F(v), clean=bool(np.array_equal(S, S0) and np.array_equal(K, K0)))
