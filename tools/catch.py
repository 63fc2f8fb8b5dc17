#!/usr/bin/env python3
"""catch.py [ID ...]: applies each seeded change to /repo in turn, runs the check of its property and undoes it."""
import glob, json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(ROOT + "/seeded/*/patch.diff"))
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain", "-uno"], text=True).strip()
for i in ids:
    d = ROOT + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        r = subprocess.run([ROOT + "/bin/check", prop], capture_output=True, text=True, cwd=ROOT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    print("%-22s %s %-7s rc=%d %4.0fs %s" % (i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, v[0][:150] if v else r.stdout[-300:] + r.stderr[-300:]), flush=True)
