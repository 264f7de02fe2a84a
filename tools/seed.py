"""Plant bugs: python3 tools/seed.py make DEFS.py | verify [ID...] | check [ID...]

DEFS.py holds calls seed(id, prop, edits=[(file, old, new), ...], needs, breaks, demo).
make    writes seeded/<id>/ from the definitions (patch against /repo HEAD) and verifies it
verify  tests pass with the patch, demo fails with it and passes without
check   runs the property's quick check against a patched copy
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout + r.stderr


def copy():
    d = tempfile.mkdtemp(prefix="vpseed-", dir="/tmp")
    sh("git -C /repo archive HEAD | tar x -C " + d)
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", cwd=d)
    return d


def tests(d):
    rc, out = sh("/opt/venv/bin/python -m pytest regain -q -p no:cacheprovider --timeout=300 2>&1 | tail -3", cwd=d)
    return out


def verify(i):
    d = copy()
    try:
        f = os.path.join(SEED, i)
        a, oa = sh("bash %s/demo.sh" % f, cwd=d, timeout=300)
        rc, o = sh("git apply %s/patch.diff" % f, cwd=d)
        if rc:
            return "PATCH FAILS " + o
        b, ob = sh("bash %s/demo.sh" % f, cwd=d, timeout=300)
        t = tests(d)
        ok = a == 0 and b != 0 and "42 passed" in t and "failed" not in t
        return ("ok" if ok else "BAD") + " demo clean=%d patched=%d tests=%s%s" % (
            a, b, t.strip().splitlines()[-1] if t.strip() else "?", "" if ok else "\n" + oa[-800:] + ob[-800:])
    finally:
        shutil.rmtree(d)


def check(i, props=None, seed="1"):
    d = copy()
    try:
        meta = json.load(open(os.path.join(SEED, i, "meta.json")))
        rc, o = sh("git apply %s/patch.diff" % os.path.join(SEED, i), cwd=d)
        if rc:
            return "PATCH FAILS"
        res = []
        for p in props or [meta["property"]]:
            rc, o = sh("./check.sh %s quick" % p, cwd=ROOT, env=dict(VP_REPO=d, VERIF_SEED=seed, VP_EVID=d + "-ev"))
            n = len(re.findall("^VIOLATION property=" + p, o, re.M))
            first = re.findall(r"case=(\S+) clause=(\S+)", o)
            res.append("%s rc=%d n=%d %s%s" % (p, rc, n, first[:2], "" if rc < 2 else o[-500:]))
        shutil.rmtree(d + "-ev", ignore_errors=True)
        return ("CAUGHT " if all("rc=1" in r for r in res) else "MISSED ") + "; ".join(res)
    finally:
        shutil.rmtree(d)


def seed(id, prop, edits, needs, breaks, demo):
    if ONLY and id not in ONLY:
        return
    d = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "old text occurs", s.count(old), "times in", f)
                return
            open(p, "w").write(s.replace(old, new))
        out = os.path.join(SEED, id)
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run("git diff", shell=True, cwd=d, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(demo.strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n. /opt/vp/env.sh >/dev/null 2>&1\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(id, verify(id), flush=True)
    finally:
        shutil.rmtree(d)


ONLY = sys.argv[3:] if sys.argv[1] == "make" else []
if sys.argv[1] == "make":
    exec(open(sys.argv[2]).read())
else:
    ids = sys.argv[2:] or sorted(os.listdir(SEED))
    for i in ids:
        print(i, verify(i) if sys.argv[1] == "verify" else check(i), flush=True)
