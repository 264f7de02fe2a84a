import io
import os
import re
import shutil
import sys
import tempfile

import numpy as np

from core import F
from hlib import cov, rs
SPEC = "UtilConf"


def tree(t):
    if isinstance(t, list):
        return dict(leaf=False, v=0, kids=[tree(x) for x in t])
    return dict(leaf=True, v=int(t), kids=[])


def sym(rng, d, shift=0.0):
    A = rng.randn(d, d)
    return ((A + A.T) / 2 + shift * np.eye(d)).round(3)


def build(ctx):
    out = []
    for s in ctx.scenarios("ScenUtil"):
        rng = rs(ctx.seed, "util", sorted(s.items()))
        c = dict(s)
        f, k = s["fn"], s["kind"]
        d = int(rng.randint(2, 6))
        if f == "flatten":
            def t(depth):
                return [int(rng.randint(100)) if depth == 0 or rng.rand() < .4 else t(depth - 1) for _ in range(int(rng.randint(1, 4)))]
            c["tree"] = tree([] if k == "empty" else t(dict(flat=0, nested=1, deep=3, array=1)[k]) if k != "array" else
                             [[int(v) for v in r] for r in rng.randint(0, 9, size=(3, 2))])
        elif f == "upper":
            c["d"] = int(k[1:])
            c["a"] = F(rng.randn(c["d"] * (c["d"] + 1) // 2).round(3))
        elif f == "compose":
            n = dict(none=0, one=1, two=2, many=4)[k]
            c["fs"] = F([rng.randn(2).round(2) for _ in range(n)]) if n else []
            c["x"] = round(float(rng.randn()), 2)
        elif f == "to2d":
            n = [3] * 3 if k in ("equal", "list") else [4] if k == "one" else [int(v) for v in rng.randint(1, 6, size=4)]
            c["data"] = F([rng.randn(m, d).round(3) for m in n])
        elif f == "rank":
            def low(r):
                B = rng.randint(-3, 4, size=(d + 1, r)).astype(float)
                return B.dot(B.T)
            c["A"] = F([low(int(rng.randint(1, d + 1))) for _ in range(3)])
            c["B"] = c["A"] if k == "same" else F([low(1 if k == "low" else int(rng.randint(1, d + 1))) for _ in range(3)])
        elif f == "normalise":
            c["A"] = F(cov(rng.randn(d + 5, d) * (np.linspace(.2, 5, d) if k == "scaled" else 1)))
        elif f == "posdef":
            pd = [cov(rng.randn(d + 6, d)) + .05 * np.eye(d) for _ in range(3)]
            B = rng.randn(d, 1)
            ind = sym(rng, d)
            w = np.linalg.eigvalsh(ind)
            ind = ind - np.eye(d) * (w[0] + w[-1]) / 2
            c["A"] = F(dict(pd=pd[:1], psd=[np.diag([0.0] + [1.0] * (d - 1))], indef=[ind], neg=[-pd[0]], batch_pd=pd, batch_bad=[pd[0], ind, pd[1]])[k])
        elif f == "ensure":
            pd = cov(rng.randn(d + 6, d)) + .05 * np.eye(d)
            ind = sym(rng, d)
            w = np.linalg.eigvalsh(ind)
            ind = ind - np.eye(d) * (w[0] + w[-1]) / 2
            c["A"] = F(dict(pd=[pd], indef=[ind], zero=[np.zeros((d, d))], batch=[ind, pd, sym(rng, d, -1.0) - np.eye(d) * 3])[k])
        elif f == "threshold":
            c["A"] = F(rng.randn(d, d + 1).round(3))
            c["hasmin"], c["hasmax"] = k in ("min", "both", "newval"), k in ("max", "both")
            c["min"], c["max"], c["new"] = -.4567, .6543, 9.5 if k == "newval" else 0.0
        elif f == "topn":
            v = rng.permutation(d * (d + 1)).astype(float) + 1 + rng.rand(d * (d + 1)).round(2) * .5
            c["A"] = F((v * (np.where(rng.rand(v.size) < .5, -1, 1) if k == "neg" else 1)).reshape(d, d + 1))
            c["m"] = dict(one=1, all=d * (d + 1)).get(k, int(rng.randint(2, d * (d + 1))))
        elif f == "pickle":
            c["name"] = dict(noext="data", ext="data.pkl", other="data.bin")[k]
            c["files"] = [dict(noext="data.pkl", ext="data.pkl", other="data.bin.pkl")[k]]
        elif f == "network":
            n = int(rng.randint(3, 12))
            m = n * (n - 1) // 2
            w = (rng.permutation(m) + 1.0) * .25 * (rng.rand(m) < .7)
            A = np.zeros((n, n))
            A[np.triu_indices(n, 1)] = w
            c["A"] = F(A + A.T)
            c["labels"] = ["G%d" % (i + 1) for i in range(n)]
            c["thr"] = 1.0 if k != "threshold" else round(float(rng.choice([.1, .3, .55])), 2)
            c["keep"] = int(n * n * c["thr"] / 2) if k != "upper" else m
            c["fill"] = k in ("filldiag", "threshold")
        elif f == "diag":
            A = rng.randn(3, d, d).round(3)
            v = rng.randn(3, d).round(3)
            c["A"], c["d"] = F(A), F(v)
        elif f == "ending":
            c["arg"], c["ext"], c["want"] = dict(none=("log", [".txt"], "log.txt"), has=("a.txt", [".txt"], "a.txt"),
                                                 second=("b.log", [".txt", ".log"], "b.log"), list=("c", [".log", ".txt"], "c.log"))[k]
        elif f == "entropy":
            A = rng.randint(1, 9, size=(d + 1, d)).astype(float)
            if k == "zeros":
                A[0, 0] = A[1, -1] = 0
            c["A"] = F(A)
        elif f == "logdet":
            M = np.array([sym(rng, d, 4.0) for _ in range(1 if k != "batch" else 3)])
            if k == "negative":
                M[0] = np.diag([-1.0] + [2.0] * (d - 1))
            if k == "singular":
                M[0] = np.diag([0.0] + [2.0] * (d - 1))
            if k == "batch" and s["n"] % 2:
                M[1] = -np.diag(np.arange(1.0, d + 1))
            c["A"] = F(M)
        elif f == "gamma":
            c["g"], c["eps"] = round(float(rng.uniform(.05, 2)), 4), 1e-4
            c["it"] = dict(keep=20 * int(rng.randint(0, 5)) + int(rng.randint(1, 20)), halve=20 * int(rng.randint(1, 6)), zero=0).get(k, int(rng.randint(0, 60)))
            if k == "floor":
                c["g"], c["eps"] = round(float(rng.uniform(1e-3, 9e-3)), 5), 0.0123
        elif f == "topidx":
            c["A"] = F((rng.permutation(d * (d + 2)).astype(float) - d).reshape(d, d + 2))
            c["m"] = dict(one=1, all=d * (d + 2)).get(k, int(rng.randint(2, d * (d + 2))))
        elif f == "topics":
            nt, nd, nf = 2, 4, d + 2
            c["H"] = F(rng.permutation(nt * nf).reshape(nt, nf) + .25)
            c["W"] = F(rng.permutation(nt * nd).reshape(nd, nt) + .5)
            c["words"], c["docs"] = ["w%d" % i for i in range(nf)], ["D%d" % i for i in range(nd)]
            c["nw"], c["nd"] = int(rng.randint(1, nf + 1)), int(rng.randint(1, nd + 1))
        elif f == "logger":
            c["name"], c["file"] = dict(noext=("run", "run.log")).get(k, ("run.txt", "run.txt"))
        elif f == "heuristic":
            A = [cov(rng.randn(d + 6, d)) for _ in range(1 if k == "two" else 3)]
            c["A"], c["ns"], c["g"] = F(A), int(rng.randint(5, 60)), round(float(rng.uniform(.05, 1.5)), 2)
        c["id"] = "U-%s-%s-%d" % (f, k, s["n"])
        out.append(c)
    return out


def untree(t):
    return int(t["v"]) if t["leaf"] else [untree(x) for x in t["kids"]]


def loader(k):
    """What the loaders return, against the files of the package read with the csv module."""
    import csv
    import pickle
    from regain.data import base
    root = os.path.dirname(base.__file__)
    food = k.startswith("food")
    with open(os.path.join(root, "food_search_trends/food.csv" if food else "finance/finance.csv"), newline="") as fh:
        rows = list(csv.reader(fh))
    r = base.load_food_search_trends(**(dict(groups=True) if k == "foodgroups" else {})) if food else base.load_finance(**(dict(sectors=True) if k == "sectors" else {}))
    df = r[0] if isinstance(r, tuple) else r
    out = dict(parts=len(r) if isinstance(r, tuple) else 1, columns=[str(x) for x in df.columns] == rows[0][1:],
               index=[str(x) for x in df.index] == [x[0] for x in rows[1:]],
               values=bool(np.allclose(df.values.astype(float), np.array([[float(v) if v else np.nan for v in x[1:]] for x in rows[1:]]), equal_nan=True)),
               groups=True)
    if k == "foodgroups":
        with open(os.path.join(root, "food_search_trends/groups_of_food.pkl"), "rb") as fh:
            g = pickle.load(fh)
        out["groups"] = bool(g == r[2] and [str(x) for x in r[1].columns] == rows[0][1:] and sorted(map(str, r[1].index)) == sorted(map(str, g))
                             and all({str(x) for x in r[1].columns[r[1].loc[n].values == 1]} == {str(x) for x in v} for n, v in g.items())
                             and set(np.unique(r[1].values)) == {0.0, 1.0})
    if k == "sectors":
        with open(os.path.join(root, "finance/industries_sector.txt"), newline="") as fh:
            rows = list(csv.reader(fh))
        out["groups"] = [str(x) for x in r[1].index] == [x[0] for x in rows[1:]] and [list(map(str, x)) for x in r[1].values] == [x[1:] for x in rows[1:]]
    return out


def observe(c):
    from regain import math as M
    from regain import utils as U
    f, k = c["fn"], c["kind"]
    A = np.array(c["A"]) if "A" in c and f not in ("rank",) else None
    A0 = None if A is None else A.copy()
    clean = lambda: bool(np.array_equal(A, A0))
    if f == "flatten":
        x = untree(c["tree"])
        if k == "array":
            x = np.array(x)
        return dict(v=[int(v) for v in U.flatten(x)])
    if f == "upper":
        return dict(v=F(U.upper_to_full(np.array(c["a"]))))
    if f == "compose":
        return dict(v=float(U.compose(*[(lambda x, a=a, b=b: a * x + b) for a, b in c["fs"]])(c["x"])))
    if f == "to2d":
        data = [np.array(x) for x in c["data"]]
        X, y = U.convert_data_to_2d(np.array(data) if k == "equal" else data)
        return dict(X=F(X), y=[int(v) for v in y])
    if f == "rank":
        return dict(v=float(U.error_rank(np.array(c["A"]), np.array(c["B"]))))
    if f == "normalise":
        U.normalize_matrix(A)
        return dict(v=F(A))
    if f == "posdef":
        r = dict(all=bool(U.positive_definite(A if len(A) > 1 else A[0])), chol=False, eig=False, semi=False)
        if len(A) == 1:
            r.update(chol=bool(U.is_pos_def(A[0])), eig=bool(U.is_pos_def(A[0], chol=False)), semi=bool(U.is_pos_semidef(A[0])))
        r["clean"] = clean()
        return r
    if f == "ensure":
        X = A if len(A) > 1 else A[0]
        U.ensure_posdef(X)
        return dict(v=F(A))
    if f == "threshold":
        kw = {}
        if c["hasmin"]:
            kw["threshmin"] = c["min"]
        if c["hasmax"]:
            kw["threshmax"] = c["max"]
        if k == "newval":
            kw["newval"] = c["new"]
        return dict(v=F(np.asarray(U.threshold(A, **kw))), clean=clean())
    if f == "topn":
        return dict(v=F(U.retain_top_n(A, c["m"])), clean=clean())
    if f in ("pickle", "network"):
        tmp = tempfile.mkdtemp(prefix="vp-util-")
        try:
            if f == "pickle":
                obj = dict(a=np.arange(5.0), b=[1, "x", None], c=c["n"])
                p = os.path.join(tmp, c["name"])
                U.save_pickle(obj, p)
                files = sorted(os.listdir(tmp))
                got = U.load_pickle(os.path.join(tmp, files[0]))
                same = np.array_equal(got["a"], obj["a"]) and got["b"] == obj["b"] and got["c"] == obj["c"]
                return dict(same=bool(same), files=files)
            import pandas as pd
            df = pd.DataFrame(A, index=c["labels"], columns=c["labels"])
            name = os.path.join(tmp, "net" + dict(tsv=".tsv", delim=".net").get(k, ".csv"))
            if k == "upper":
                st = df.where(np.triu(np.ones(A.shape), 0).astype(bool)).stack()
                st.to_csv(name, header=False)
            elif k == "tsv":
                df.stack().to_csv(name, sep="\t", header=False)
            else:
                U.write_network(df, name)
            kw = dict(fill_diagonal=c["fill"], threshold=c["thr"], full_network=k != "upper")
            if k == "delim":
                kw["delimiter"] = ","
            net = U.read_network(name, **kw)
            return dict(v=F(net.values), index=[str(v) for v in net.index], columns=[str(v) for v in net.columns])
        finally:
            shutil.rmtree(tmp)
    if f == "diag":
        v = np.array(c["d"])
        if k == "get2":
            return dict(v=F(M.get_diagonal(A[0])))
        if k == "get3":
            return dict(v=F(M.get_diagonal(A)))
        if k.startswith("create"):
            return dict(v=F(M.create_from_diagonal(v[0] if k == "create1" else v)))
        X = A[0] if k == "fill2" else A
        M.fill_diagonal(X, v if k == "fillvec" else 7.5)
        return dict(v=F(X))
    if f == "ending":
        return dict(v=U._ensure_filename_ending(c["arg"], c["ext"][0] if len(c["ext"]) == 1 else c["ext"]))
    if f == "entropy":
        import pandas as pd
        return dict(v=F(U.logentropy_normalize(pd.DataFrame(A)).values))
    if f == "logdet":
        v = np.atleast_1d(M.batch_logdet(A if len(A) > 1 else A[0]))
        return dict(v=F(np.where(np.isneginf(v), 0, v)), neg=[bool(x) for x in np.isneginf(v)], shape=[int(n) for n in np.shape(v)])
    if f == "gamma":
        from regain.update_rules import update_gamma
        return dict(v=float(update_gamma(c["g"], c["it"], **({} if k != "floor" else dict(eps=c["eps"])))))
    if f == "topidx":
        return dict(v=[[int(i) + 1, int(j) + 1] for i, j in U.top_n_indexes(A, c["m"])], clean=clean())
    if f == "topics":
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            t = U.display_topics(np.array(c["H"]), np.array(c["W"]), c["words"], c["docs"], c["nw"], c["nd"], print_docs=k == "docs")
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = old
        lines = text.splitlines()
        return dict(words=[[int(w.split(" ")[0][1:]) + 1 for w in re.findall(r"w\d+ \([0-9.]+\)", x)] for x in t],
                    values=[[float(w) for w in re.findall(r"\(([0-9.]+)\)", x)] for x in t],
                    heads=sum(x.startswith("Topic ") for x in lines),
                    docs=[int(x.split("D")[1]) + 1 for x in lines if x.startswith("doc ")])
    if f == "logger":
        import logging
        tmp = tempfile.mkdtemp(prefix="vp-util-")
        old, sys.stderr = sys.stderr, io.StringIO()
        root = logging.getLogger()
        try:
            if k == "twice":
                U.init_logger(os.path.join(tmp, "first"))
                logging.info("earlier")
            name = U.init_logger(os.path.join(tmp, c["name"]), verbose=k != "quiet")
            logging.debug("detail")
            logging.info("hello")
            logging.error("trouble")
            for h in list(root.handlers):
                h.flush()
            shown = sys.stderr.getvalue()
            text = open(name).read()
            return dict(file=os.path.basename(name), logged=[w for w in ("earlier", "detail", "hello", "trouble") if w in text],
                        shown=[w for w in ("detail", "hello", "trouble") if w in shown])
        finally:
            sys.stderr = old
            for h in list(root.handlers):
                root.removeHandler(h)
                h.close()
            shutil.rmtree(tmp)
    if f == "loader":
        return loader(k)
    if f == "heuristic":
        return dict(v=float(U.alpha_heuristic(A[0] if k == "two" else A, c["ns"], c["g"])))
    if f == "stdout":
        old = sys.stdout
        buf = sys.stdout = io.StringIO()
        raised = False
        try:
            with U.suppress_stdout():
                print("hidden")
                if k == "nested":
                    with U.suppress_stdout():
                        print("hidden")
                    print("hidden")
                if k == "raise":
                    raise KeyError("x")
        except KeyError:
            raised = True
        finally:
            ok = sys.stdout is buf
            sys.stdout = old
        return dict(text=buf.getvalue(), restored=ok, raised=raised)
