#!/usr/bin/env python3
"""plant.py [ID ...]: (re)creates /verif/seeded/<ID> from tools/plants/*.py and confirms it.

A plant file holds calls plant(id, property, needs, breaks, edits, demo) where edits is a list of
(path, old text, new text).  A plant is kept only if the patched copy builds, the stable tests pass,
and the demo exits 0 without and nonzero with the patch.  Nothing here is read by any check.
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PLANTS = {}

DEMO_HEAD = '''import os, sys, tempfile, warnings, gc
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import hickle, h5py, numpy as np
assert os.path.dirname(os.path.dirname(os.path.abspath(hickle.__file__))) == os.getcwd(), hickle.__file__
TMP = tempfile.mkdtemp(prefix="hkldemo")
import atexit, shutil
atexit.register(shutil.rmtree, TMP, True)
F = os.path.join(TMP, "f.hkl")
def rt(o, **kw):
    hickle.dump(o, F, mode="w", **kw)
    return hickle.load(F)
def fail(*a):
    print("BROKEN", *a)
    sys.exit(1)
'''


def plant(id, prop, needs, breaks, edits, demo):
    PLANTS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def env(d):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", OMP_NUM_THREADS="2")
    e["TMPDIR"] = d
    return e


def confirm(id):
    p = PLANTS[id]
    w = "/tmp/plant_%s" % id
    shutil.rmtree(w, True)
    os.makedirs(w + "/tmp")
    c = w + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", c])
        clean = w + "/clean"
        shutil.copytree(c, clean)
        for path, old, new in p["edits"]:
            f = os.path.join(c, path)
            s = open(f).read()
            if s.count(old) != 1:
                return id, "edit does not apply: %d x %r" % (s.count(old), old[:60])
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", c, "diff"], text=True)
        out = os.path.join(ROOT, "seeded", id)
        shutil.rmtree(out, True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(DEMO_HEAD + p["demo"])
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexec timeout 250 %s -B "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        e = env(w + "/tmp")
        a = subprocess.run([out + "/demo.sh"], cwd=clean, env=e, capture_output=True, text=True)
        if a.returncode:
            return id, "demo fails on clean tree: %s" % (a.stdout + a.stderr)[-1500:]
        b = subprocess.run([out + "/demo.sh"], cwd=c, env=e, capture_output=True, text=True)
        if not b.returncode:
            return id, "demo passes with the patch"
        for extra in ([], ["--enable-compression"]):
            for k in range(2):
                r = subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "-x"] + extra,
                                   cwd=c, env=e, capture_output=True, text=True)
                if not r.returncode:
                    break
            if r.returncode:
                return id, "tests fail: " + "\n".join(l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR", "E ")))[:600]
        return id, "ok   " + (b.stdout + b.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(w, True)


if __name__ == "__main__":
    for f in sorted(glob.glob(ROOT + "/tools/plants/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"plant": plant})
    ids = sys.argv[1:] or list(PLANTS)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for id, res in ex.map(confirm, ids):
            print(id, res, flush=True)
            if not res.startswith("ok"):
                bad = 1
                shutil.rmtree(os.path.join(ROOT, "seeded", id), True)
    sys.exit(bad)
