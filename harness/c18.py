import numpy as np

from core import F
from hlib import rs
SPEC = "StructConf"


def graph(mask, d, sgn, rng, scale=1.0):
    """Symmetric d x d matrix with non-zeros where mask (upper triangle) says."""
    iu = np.triu_indices(d, 1)
    v = rng.uniform(.3, 1.5, size=len(iu[0])).round(3) * scale
    if sgn == "neg":
        v = -v
    elif sgn == "mix":
        v = v * np.where(rng.rand(v.size) < .5, -1, 1)
    A = np.zeros((d, d))
    A[iu] = np.where(mask, v, 0)
    return A + A.T


def build(ctx):
    sc = ctx.scenarios("ScenStruct")
    small = [s for s in sc if s["fam"] == "small"]
    rand = [s for s in sc if s["fam"] == "rand"]
    out = []
    for i, s in enumerate(ctx.cover(small, ctx.pick(400, 1536), pairs=(("a", "b"),)) + ctx.cover(rand, ctx.pick(250, 864), pairs=(("a", "b", "nd"), ("thr", "b"), ("sgn", "a")))
                          + [s for s in sc if s["fam"] == "mean"]):
        rng = rs(ctx.seed, "st", i, sorted(s.items()))
        c = dict(s)
        nt = 1 if s["nd"] == 2 else int(rng.randint(2, 4))
        d = 3 if s["fam"] == "small" else int(rng.randint(3, 6))
        m = d * (d - 1) // 2
        c["eps"] = .01 if not s["thr"] else round(float(rng.choice([.01, .25, .8])), 3)
        c["T"], c["P"] = [], []

        def mask(kind, base=None):
            if isinstance(kind, int):
                return np.array([(kind >> k) & 1 for k in range(3)], bool)
            if kind in ("empty", "full"):
                return np.full(m, kind == "full")
            if kind == "noisy":
                return base ^ (rng.rand(m) < .3)
            if kind in ("same", "weak"):
                return base
            return rng.rand(m) < dict(sparse=.3, half=.5, random=.5)[kind]

        def pred(a, true):
            b = mask(s["b"], a)
            P = graph(b, d, s["sgn"], rng, .02 if s["b"] == "weak" else 1.0)
            if s["thr"]:
                extra = graph(~b & (rng.rand(m) < .5), d, s["sgn"], rng, c["eps"] * .6)
                P = P + extra
            if s["diag"] in ("one", "pred"):
                P = P + np.diag(rng.uniform(.5, 2, size=d).round(3))
            return P
        for _ in range(nt):
            a = mask(s["a"])
            T = graph(a, d, s["sgn"], rng)
            if s["diag"] == "one":
                T = T + np.diag(rng.uniform(1, 2, size=d).round(3))
            c["T"].append(T)
            c["P"].append(pred(a, T))
        if s["fam"] == "mean":
            c["Ps"] = [F([pred(a, T)]) for _ in range(int(rng.randint(1, 4)))]
        c["T"], c["P"] = F(c["T"]), F(c["P"])
        c["id"] = "S-%04d-%s" % (i, "-".join(str(s[k]) for k in sorted(s)))
        out.append(c)
    return out


def observe(c):
    from regain.utils import mean_structure_error, structure_error
    T, P = np.array(c["T"]), np.array(c["P"])
    if c["nd"] == 2:
        T, P = T[0], P[0]
    if c["fam"] == "mean":
        r = mean_structure_error(T, [np.array(p)[0] for p in c["Ps"]])
        sp = {k: [float(x) for x in v.split("+/-")] for k, v in r.items()}
        return dict(mu={k: v[0] for k, v in sp.items()}, sd={k: v[1] for k, v in sp.items()})
    T0, P0 = T.copy(), P.copy()
    kw = dict(thresholding=True, eps=c["eps"]) if c["thr"] else {}
    if c["nod"]:
        kw["no_diagonal"] = True
    m = structure_error(T, P, **kw)
    return dict(m={k: float(v) for k, v in m.items()}, clean=bool(np.array_equal(T, T0) and np.array_equal(P, P0)))
