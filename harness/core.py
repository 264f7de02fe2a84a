"""Driver shared by all checks: TLC runs, recording of observations, verdicts, evidence.

A check of property X consists of
  designs     TLC exhaustively checks specification modules (no code involved);
  scenarios   TLC enumerates a scenario module and writes every scenario as JSON;
  observe     the scenarios are replayed through /repo's public API in worker processes;
  conform     TLC reads the recorded observations and decides, per case and per clause of the
              specification, whether the observation is one the specification allows.
Python only transports data; every verdict is computed by TLC from a module in /verif/spec.
"""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.environ.get("VP_EVID", os.path.join(ROOT, "evidence"))


class CheckError(Exception):
    """The machinery (not the code under test) failed: exit status 2."""


# ------------------------------------------------------------------ java / TLC
def classes_dir():
    """Compile java/*.java once per content hash (several checks may run at a time)."""
    src = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")))
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    dst = os.path.join(ROOT, "build", "classes-" + h.hexdigest()[:12])
    if not os.path.isdir(dst):
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
        r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp)
    return dst


def tlc(module, work, env=None, cfg=None, workers=8, timeout=840, args=()):
    """Run TLC on spec/<module>.tla; returns dict(rc, generated, distinct, out)."""
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m", "-cp", classes_dir() + ":" + JARS,
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VpOverrides",
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-nowarning",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=meta, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines()
                    if not l.startswith(("Loading ", "Parsing ", "Semantic ", "Linting ")))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return dict(module=module, rc=r.returncode, generated=int(m.group(1)) if m else 0,
                distinct=int(m.group(2)) if m else 0, out=out + r.stderr, wall=round(time.time() - t0, 2))


# ------------------------------------------------------------------ JSON
def enc(v):
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2 ** 31 - 1 else float(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v):
            return {"$r": "nan"}
        if math.isinf(v):
            return {"$r": "inf" if v > 0 else "-inf"}
        return v
    if isinstance(v, np.ndarray):
        return enc(v.tolist())
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    return "<%s>" % type(v).__name__


def F(a):
    """Float array (so that integers are recorded as reals)."""
    import numpy as np
    if isinstance(a, (list, tuple)) and len(a) and not np.isscalar(a[0]):
        return [F(x) for x in a]
    a = np.asarray(a, dtype=float)
    return a.tolist() if a.ndim else float(a)


# ------------------------------------------------------------------ observing the code
class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("no answer within the time limit")


def _worker(args):
    modname, case, limit, deadline = args
    left = int(deadline - time.time()) if deadline else limit
    if left < 2:
        return None
    mod = importlib.import_module(modname)
    out, err = None, ""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(min(limit, left))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = mod.observe(case)
    except CaseTimeout as e:
        err = "timeout: %s" % e
    except BaseException as e:  # every outcome of the code under test is recorded
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
        err = ("%s: %s @%s" % (type(e).__name__, str(e)[:300], where))
        if os.environ.get("VP_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    rec = {"id": case["id"], "err": err, "inp": {k: v for k, v in case.items() if k not in ("id", "_py")},
           "out": {} if out is None else out}
    return json.dumps(enc(rec))


def _init():
    sys.path.insert(0, REPO)
    if not os.environ.get("VP_DEBUG"):
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
    import matplotlib
    matplotlib.use("Agg")


def observe_all(modname, cases, limit=60, procs=8, budget=None):
    """Observations in the order of the cases. Cases not started when the budget ran out are left out; the ones
    running then are recorded as having given no answer (the budget is many times what the unchanged tree takes)."""
    ctx = mp.get_context("fork")
    deadline = time.time() + budget if budget else None
    with ctx.Pool(procs, initializer=_init) as pool:
        got = pool.map(_worker, [(modname, c, limit, deadline) for c in cases], chunksize=1)
    return [g for g in got if g is not None]


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    res = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            res.append((re.compile(m.group(2) + r"\Z"), re.compile(m.group(3) + r"\Z"), m.group(4)))
    return res


# ------------------------------------------------------------------ a check
class Ctx:
    def __init__(self, prop, tier, seed, work):
        import numpy as np
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.thorough = tier == "thorough"
        self.rng = np.random.RandomState((seed * 7919 + int(prop[1:])) % (2 ** 31))
        self.runs = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def scenarios(self, module, cfg=None, env=None, workers=1):
        """Enumerate a scenario module with TLC; every emitted JSON line is one scenario."""
        out = os.path.join(self.work, module + ".scen.jsonl")
        if os.path.exists(out):
            os.remove(out)
        e = {"VP_OUT": out, "VP_TIER": self.tier, "VP_SEED": str(self.seed)}
        e.update(env or {})
        r = tlc(module, self.work, env=e, cfg=cfg, workers=workers)
        if r["rc"] != 0:
            raise CheckError("scenario module %s:\n%s" % (module, r["out"]))
        self.runs.append(dict(module=module, role="scenarios", generated=r["generated"], distinct=r["distinct"], wall_s=r["wall"]))
        seen, res = set(), []
        for l in open(out):
            if l not in seen:
                seen.add(l)
                res.append(json.loads(l))
        res.sort(key=lambda s: json.dumps(s, sort_keys=True))
        return res

    def design(self, module, cfg=None, workers=8, args=()):
        r = tlc(module, self.work, cfg=cfg, workers=workers, args=args, env={"VP_TIER": self.tier})
        if r["rc"] != 0:
            raise CheckError("design model %s:\n%s" % (module, r["out"][-4000:]))
        self.runs.append(dict(module=cfg or module, role="design model checking", generated=r["generated"],
                              distinct=r["distinct"], wall_s=r["wall"]))

    def sample(self, items, n):
        """A seeded subset that keeps order; n >= len keeps all."""
        items = list(items)
        if n >= len(items):
            return items
        idx = sorted(self.rng.permutation(len(items))[:n])
        return [items[i] for i in idx]

    def cover(self, items, n, pairs=()):
        """A seeded subset of n scenarios covering every value of every field, then as many of the
        value pairs of the given fields as fit (greedy over random candidates)."""
        items = list(items)
        if n >= len(items):
            return items
        def goals(s):
            g = [((k,), (str(v),)) for k, v in s.items()]
            g += [(p, tuple(str(s[f]) for f in p)) for p in pairs if all(f in s for f in p)]
            return g
        todo = set(g for s in items for g in goals(s))
        left = list(self.rng.permutation(len(items)))
        chosen = []
        while len(chosen) < n:
            cand = left[:60]
            best = max(cand, key=lambda i: sum(1 for g in goals(items[i]) if g in todo))
            todo -= set(goals(items[best]))
            left.remove(best)
            self.rng.shuffle(left)
            chosen.append(best)
        return [items[i] for i in sorted(chosen)]


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        modname = prop.lower()
        mod = importlib.import_module(modname)
        ctx = Ctx(prop, tier, seed, work)
        for d in getattr(mod, "DESIGNS", []):
            ctx.design(*d) if isinstance(d, tuple) else ctx.design(d)
        cases = mod.build(ctx)
        only = os.environ.get("VP_ONLY")
        if only:
            cases = [c for c in cases if re.search(only, c["id"])]
        ids = [c["id"] for c in cases]
        if len(set(ids)) != len(ids):
            raise CheckError("duplicate case ids")
        t_obs = time.time()
        limit = getattr(mod, "LIMIT", 60)
        lines = observe_all(modname, cases, limit, budget=420 if tier == "quick" else None)
        t_obs = time.time() - t_obs
        groups = {}
        for line in lines:
            rec = json.loads(line)
            groups.setdefault(mod.module_of(rec) if hasattr(mod, "module_of") else mod.SPEC, []).append(line)
        bad, verdicts = [], 0
        for module, ls in sorted(groups.items()):
            trace = os.path.join(work, module + ".trace.json")
            outp = os.path.join(work, module + ".verdict.jsonl")
            with open(trace, "w") as f:
                f.write("[" + ",\n".join(ls) + "]")
            r = tlc(module, work, env={"VP_TRACE": trace, "VP_OUT": outp, "VP_TIER": tier, "VP_SEED": str(seed)})
            ctx.runs.append(dict(module=module, role="conformance", generated=r["generated"], distinct=r["distinct"],
                                 wall_s=r["wall"], cases=len(ls)))
            vs = [json.loads(l) for l in open(outp)] if os.path.exists(outp) else []
            got = {}
            for v in vs:
                got.setdefault(v["id"], []).extend(v["bad"])
            want = [json.loads(l)["id"] for l in ls]
            if r["rc"] != 0 or set(want) - set(got):
                raise CheckError("conformance %s: rc=%d, %d of %d verdicts\n%s" % (
                    module, r["rc"], len(got), len(want), r["out"][-6000:]))
            verdicts += len(got)
            recs = {json.loads(l)["id"]: l for l in ls}
            for cid in want:
                for b in got[cid]:
                    bad.append((cid, b[0], b[2] if len(b) > 2 else "", recs[cid]))
        known = known_findings(prop)
        seen_known, fresh = {}, []
        for cid, clause, detail, rec in bad:
            for rc, rk, text in known:
                if rc.match(cid) and rk.match(clause):
                    seen_known.setdefault(text, []).append(cid)
                    break
            else:
                fresh.append((cid, clause, detail, rec))
        for text in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        shown = set()
        for cid, clause, detail, rec in fresh:
            if (cid, clause) in shown or len(shown) > 12:
                continue
            shown.add((cid, clause))
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-%s-%s" % (prop, cid, clause))[:120]
            path = os.path.join(EVID, "replay", name + ".json")
            with open(path, "w") as f:
                f.write('{"property": "%s", "clause": %s, "detail": %s,\n "observation": %s}\n' % (
                    prop, json.dumps(clause), json.dumps(detail), rec))
            err = json.loads(rec)["err"]
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print(("  case=%s clause=%s detail=%s%s" % (cid, clause, str(detail)[:240], (" err=" + err[:240]) if err and clause != "no-exception" else "")).replace("\n", " "))
        samples = []
        for i in sorted(set([0, len(lines) // 2, len(lines) - 1])) if lines else []:
            s = lines[i]
            samples.append(json.loads(s) if len(s) < 3000 else dict(id=json.loads(s)["id"], observation=s[:1500] + "..."))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=sum(r["distinct"] for r in ctx.runs),
                                transitions=sum(r["generated"] for r in ctx.runs),
                                traces_validated_against_impl=verdicts, samples=samples,
                                tlc_runs=ctx.runs, observe_wall_s=round(t_obs, 2),
                                exceptions_recorded=sum(1 for l in lines if json.loads(l)["err"]),
                                known_findings_seen=len(seen_known)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  wall_s=round(time.time() - t0, 2), violations=len(fresh))
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases judged by TLC, %d violations, %d known, %.1f s" % (
            prop, tier, verdicts, len(fresh), len(bad) - len(fresh), time.time() - t0))
        return 1 if fresh else 0
    except CheckError as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2
    finally:
        if os.environ.get("VP_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(ROOT, "harness"))
    sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
