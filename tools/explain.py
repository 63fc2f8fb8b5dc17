"""explain.py REPLAY...: shows what a replayed round trip case does (development aid)"""
import json, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv, files = ["x", "a", "b", "c"], sys.argv[1:]
warnings.simplefilter("ignore")
from hv import rt_worker as w
from hv.capture import capture
import tempfile, traceback
for f in files:
    d = json.load(open(f))
    job = {k: v for k, v in d["job"].items() if k != "_msg"}
    print("==", os.path.basename(f), d["clauses"], {k: v for k, v in job.items() if k != "h"}, d["job"].get("_msg"))
    try:
        o, exp, warn = w.build(job)
        print("  obj ", repr(o)[:600])
        with tempfile.TemporaryDirectory() as t:
            rec = w.outcome(job, t)
        a, b = rec["orig"], rec["back"]
        if rec["out"] == "ok":
            sa, sb = json.dumps(a), json.dumps(b)
            for x, y in zip(a, b):
                if x != y:
                    print("  -", x, "\n  +", y)
                    break
        if rec["after"]: print("  AFTER differs")
    except Exception:
        traceback.print_exc()
