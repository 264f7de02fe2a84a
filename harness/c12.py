import numpy as np

from core import F
from hlib import rs
SPEC = "ProxConf"
DESIGNS = ["PenaltyDesign"]
SYM = ("logdet", "logdet_3d", "logdet_ma", "trace", "trace_3d", "node", "pair_node", "fl_sym")


def matrix(rng, d, pat):
    A = rng.randn(d, d)
    if pat == "ties":
        A = np.sign(A) * 0.75
    elif pat == "zerocol":
        A[:, 0] = 0
    elif pat == "zero":
        A = np.zeros((d, d))
    elif pat == "int":
        A = rng.randint(-3, 4, (d, d)).astype(float)
    elif pat == "big":
        A = A * 50
    elif pat == "tiny":
        A = A * 1e-3
    elif pat == "micro":
        return (A * 1e-7).round(14)
    elif pat == "onerow":
        A[1:] *= 0.01
    return A.round(9)


def build(ctx):
    sc = ctx.cover(ctx.scenarios("ScenProx"), ctx.pick(520, 3000), pairs=(("op", "pat"), ("op", "lam"), ("op", "T"), ("op", "d")))
    cases = []
    for i, s in enumerate(sc):
        rng = rs(ctx.seed, "prox", i, sorted(s.items()))
        a = np.array([matrix(rng, s["d"], s["pat"]) for _ in range(s["T"])])
        b = np.array([matrix(rng, s["d"], s["pat"]) for _ in range(s["T"])])
        if s["op"] in SYM:
            a = ((a + a.transpose(0, 2, 1)) / 2).round(14)
            b = ((b + b.transpose(0, 2, 1)) / 2).round(14)
        low = dict(tiny=1e-3, micro=1e-7).get(s["pat"], 1.0)
        sc_ = max(1.0, np.abs(a).max()) if s["pat"] == "big" else 1.0
        lam = dict(zero=[0.0], small=[0.05], mid=[0.6], huge=[40.0]).get(s["lam"], list(rng.uniform(0.05, 1.5, s["T"])))
        lam = [round(float(l * (sc_ if s["lam"] != "huge" else 1) * (low if i % 4 else 1)), 6 if low == 1 else 15) for l in lam]
        if s["op"].startswith("pair_node") or s["op"] == "node":
            lam = [min(l, 5.0) for l in lam]
        cases.append(dict(id="%04d-%s-%s-%s-d%dT%d" % (i, s["op"], s["pat"], s["lam"], s["d"], s["T"]), op=s["op"],
                          a=F(a), b=F(b), lamv=lam, lam_kind=s["lam"], d=s["d"],
                          beta=round(float(rng.choice([0.0, 0.07, 0.5, 9.0])) * float(np.abs(a).max()), 15)))
    return cases


def observe(c):
    from regain import norm, prox
    from regain.validation import check_norm_prox
    a, b = np.array(c["a"]), np.array(c["b"])
    T = len(a)
    l = c["lamv"][0]
    lt = np.array(c["lamv"])[:, None, None] if c["lam_kind"] == "pertime" else l
    op = c["op"]
    M = a[0].copy()
    a_in = a
    out = {}
    one = {"soft": prox.soft_thresholding, "soft_od": prox.soft_thresholding_off_diagonal,
           "soft_vec": prox.soft_thresholding_vector, "logdet": prox.prox_logdet,
           "logdet_ma": prox.prox_logdet_ala_ma, "trace": prox.prox_trace_indicator}
    if op in one:
        r = one[op](M, l)
        a_in = np.concatenate([M[None], a[1:]])
    elif op == "soft_vec1":
        r = prox.soft_thresholding_vector(M[0], l)
        a_in = np.concatenate([M[None], a[1:]])
    elif op in ("fl_gen", "fl_loop", "fl_sym"):
        kw = dict(fl_gen={}, fl_loop=dict(optimize=False), fl_sym=dict(optimize=False, symmetric=True))[op]
        r = prox.prox_FL(a, c["beta"], lt, **kw)
        out["tv"] = F(prox.prox_FL(a, c["beta"], 0.0, **kw))
    elif op == "linf_1d":
        r = prox.prox_linf_1d(M[0], l)
        a_in = np.concatenate([M[None], a[1:]])
    elif op == "soft_od_3d":
        r = prox.soft_thresholding_off_diagonal(a, lt)
    elif op == "block":
        r = prox.blockwise_soft_thresholding(a, lt)
    elif op == "block_sym":
        r = prox.blockwise_soft_thresholding_symmetric(a, lt)
    elif op == "linf":
        r = prox.prox_linf(a, lt)
    elif op == "logdet_3d":
        r = prox.prox_logdet(a, np.array(c["lamv"])[:, None] if c["lam_kind"] == "pertime" else l)
    elif op == "trace_3d":
        r = prox.prox_trace_indicator(a, np.array(c["lamv"])[:, None] if c["lam_kind"] == "pertime" else l)
    elif op == "laplacian":
        r = prox.prox_laplacian(a, lt)
    elif op in ("node", "pair_node"):
        f = prox.prox_node_penalty if op == "node" else check_norm_prox("node")[1]
        r = f(np.concatenate((a, b), axis=1), lamda=lt, tol=1e-9, rtol=1e-9, max_iter=4000)
        r = [r[0], r[1]]
    elif op.startswith("pair_"):
        r = check_norm_prox(op[5:])[1](a, lamda=lt)
    elif op == "norm_l1":
        r = norm.l1_norm(a)
    elif op == "norm_l1_od":
        r = norm.l1_od_norm(a)
    elif op == "norm_matrix_l1":
        r = norm.matrix_l1_norm(a)
    elif op == "norm_vector_p":
        r = norm.vector_p_norm(a, p=2)
    out["r"] = F(r)
    if op.startswith("pair_"):
        nrm, _, node = check_norm_prox(op[5:])
        out["norm"] = float(nrm(a[0]))
        out["node"] = bool(node)
    out["a_after"] = F(a_in)
    return out
