"""Checks P01 - P09: round trips."""
import json, os, random
from hv import common
from hv.common import *

# sizes of the pools (kept in step with hv.cases / hv.gen; the driver does not import them because
# they need the packages of the project's environment)
_sizes = None


def sizes():
    global _sizes
    if _sizes is None:
        import subprocess
        code = "import sys,json,os;sys.path.insert(0,os.environ['HV_REPO']);from hv import cases,gen,rt_worker as w;print(json.dumps(dict(scalars=len(cases.SCALARS),ctx=len(cases.CONTEXTS),small=len(gen.SMALL),np=cases.numpy_cases(),shared=cases.NSHARED,sparse=cases.NSPARSE,opaque=cases.NOPAQUE,unst=cases.NUNSTORABLE,seq=w.NSEQ,dict=w.NDICT,keys=len(w.KEYPOOL),opts=len(w.OPTIONS))))"
        p = subprocess.run([PY, "-c", code], env=worker_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch())
        if p.returncode:
            sys.stderr.write(p.stderr.decode()[-3000:])
            raise CheckFailure("can not import the code under test")
        _sizes = json.loads(p.stdout.decode().splitlines()[-1])
    return _sizes


def graphs(cfg, rep, limit, seed):
    """object graphs enumerated by the specification while it is being model checked"""
    mc = model_check("MCDump.tla", cfg, workers=4, heap="4g")
    rep.model(mc, cfg)
    gs = emitted(mc["out"])
    if not gs:
        raise CheckFailure("no graphs from " + cfg)
    rep.extra.setdefault("graphs", {})[cfg] = len(gs)
    r = random.Random(seed)
    gs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    if len(gs) > limit:
        gs = r.sample(gs, limit)
    return gs


def big_graphs(cfg, rep, num, depth, seed):
    sim = simulate("MCDump.tla", cfg, num, depth, seed, workers=1)
    gs = emitted(sim["out"])
    rep.extra.setdefault("simulated graphs", {})[cfg] = len(gs)
    return gs


def jobs_for(pid, rep):
    S = sizes()
    T = THOROUGH
    seed = SEED
    r = random.Random("%s/%d" % (pid, seed))
    J = []
    add = J.append

    def many(g, num, **kw):
        for i in range(num):
            add(dict(g=g, i=i, seed=seed, **kw))

    if pid == "P01":
        for v in range(S["scalars"]):
            for c in range(S["ctx"]) if T else [0, 1] + r.sample(range(2, S["ctx"]), 6):
                add(dict(g="ctx", v=v, c=c, seed=seed))
        for a in range(S["small"]):
            for b in range(S["small"]):
                for c in (range(4) if T else (r.randrange(4),)):
                    add(dict(g="pair", a=a, b=b, c=c))
        many("scalar", 12000 if T else 1200)
        many("numlist", 8000 if T else 1000)
        many("struct", 6000 if T else 500, d=3)
    elif pid == "P02":
        for i in range(S["seq"]):
            add(dict(g="seqspecial", i=i, seed=seed))
        many("seq", 12000 if T else 1800, d=3)
        many("set", 4000 if T else 500)
        many("struct", 6000 if T else 700, d=4)
        for n in (5, 30, 120):
            for m in range(4):
                add(dict(g="deep", n=n, m=m, leaf="x"))
        for m in range(11):
            for n in (10, 11, 101) + ((1001,) if T else ()):
                add(dict(g="wide", n=n, m=m))
        for cfg in ("MCDump_mix.cfg", "MCDump_set.cfg"):
            for h in graphs(cfg if not T else cfg.replace(".cfg", "_big.cfg"), rep, 20000 if T else 900, seed):
                add(dict(g="graph", h=h, seed=seed))
        for h in big_graphs("MCDump_sim.cfg", rep, 4000 if T else 300, 120, seed):
            add(dict(g="graph", h=h, seed=seed))
    elif pid == "P03":
        for i in range(S["dict"]):
            add(dict(g="dictspecial", i=i, seed=seed))
        prs = [(a, b) for a in range(S["keys"]) for b in range(S["keys"]) if a != b]
        for a, b in (prs if T else r.sample(prs, 2200)):
            add(dict(g="keypair", a=a, b=b))
        many("dict", 12000 if T else 1800, d=2)
        for h in graphs("MCDump_keys_big.cfg" if T else "MCDump_keys.cfg", rep, 20000 if T else 900, seed):
            add(dict(g="graph", h=h, seed=seed))
        for m in (3, 4, 6, 9):
            for n in (10, 11, 101):
                add(dict(g="wide", n=n, m=m))
    elif pid == "P04":
        for i in range(S["shared"]):
            for s in range(3):
                add(dict(g="shared", i=i, seed=seed + s))
        for n in (3, 5, 8, 12, 20):
            many("dag", 3000 if T else 500, n=n)
        for h in graphs("MCDump_share_big.cfg" if T else "MCDump_share.cfg", rep, 20000 if T else 1200, seed):
            add(dict(g="graph", h=h, seed=seed))
        for h in big_graphs("MCDump_sim.cfg", rep, 4000 if T else 400, 120, seed + 1):
            add(dict(g="graph", h=h, seed=seed))
    elif pid == "P05":
        for n, c in enumerate(S["np"]):
            for s in range(6 if T else 1):
                add(dict(c, g="np", seed=seed + s))
                add(dict({k: v for k, v in c.items()}, g="np", seed=seed + s, **{"in": (n + s) % 4}))
        many("nprand", 8000 if T else 900)
    elif pid == "P06":
        many("sparse", 8000 if T else 1500)
        for i in range(S["sparse"]):
            add(dict(g="sparsespecial", i=i, seed=seed))
    elif pid == "P07":
        many("astropy", 4800 if T else 720)
    elif pid == "P08":
        many("opaque", 8000 if T else 1200)
        for i in range(S["opaque"]):
            add(dict(g="opaquespecial", i=i, seed=seed))
        many("unstorable", 800 if T else 150)
        many("mixed", 4000 if T else 500)
    elif pid == "P09":
        opts = range(S["opts"])
        base = [dict(g="ctx", v=v, c=0, seed=seed) for v in range(S["scalars"])] + [dict(g="seqspecial", i=i, seed=seed) for i in range(S["seq"])] + [dict(g="dictspecial", i=i, seed=seed) for i in range(S["dict"])] \
            + [dict(g="shared", i=i, seed=seed) for i in range(S["shared"])] + [dict(c, g="np", seed=seed) for c in S["np"]] + [dict(g="sparsespecial", i=i, seed=seed) for i in range(S["sparse"])] + [dict(g="opaquespecial", i=i, seed=seed) for i in range(S["opaque"])] \
            + [dict(g="sparse", i=i, seed=seed) for i in range(60)] + [dict(g="astropy", i=i, seed=seed) for i in range(96)] + [dict(g="wide", n=101, m=m) for m in range(11)]
        base += [dict(g="mixed", i=i, seed=seed) for i in range(4000 if T else 250)] + [dict(g="nprand", i=i, seed=seed) for i in range(2000 if T else 150)]
        for n, b in enumerate(base):
            for o in (opts if T else [(n + k * 5) % S["opts"] for k in range(2)]):
                add(dict(b, opt=o))
    elif pid == "P14":
        base = [dict(g="ctx", v=v, c=c, seed=seed) for v in range(S["scalars"]) for c in (0, 5)] + [dict(g="seqspecial", i=i, seed=seed) for i in range(S["seq"])] + [dict(g="dictspecial", i=i, seed=seed) for i in range(S["dict"])] \
            + [dict(g="shared", i=i, seed=seed) for i in range(S["shared"])] + [dict(c, g="np", seed=seed) for c in S["np"]] + [dict(g="sparsespecial", i=i, seed=seed) for i in range(S["sparse"])] + [dict(g="opaquespecial", i=i, seed=seed) for i in range(S["opaque"])]
        m = 10 if T else 1
        base += [dict(g=g, i=i, seed=seed) for g, n in (("sparse", 150), ("astropy", 144), ("opaque", 150), ("mixed", 200), ("nprand", 200)) for i in range(n * m)]
        base += [dict(g="dag", i=i, seed=seed, n=7) for i in range(100 * m)]
        J += [dict(b, twice=True) for b in base]
    else:
        raise ValueError(pid)
    if pid in ("P05", "P06", "P07", "P08", "P09"):
        # members of the family at every position of the object graphs of the specification
        fam = dict(P05="np", P06="sparse", P07="astropy", P08="opaque", P09=None)[pid]
        gs = graphs("MCDump_mix_big.cfg" if T else "MCDump_mix.cfg", rep, 6000 if T else 500, seed + 5) + big_graphs("MCDump_sim.cfg", rep, 2000 if T else 120, 120, seed + 6)
        for n, h in enumerate(gs):
            j = dict(g="graph", h=h, seed=seed)
            if fam:
                j["fam"] = fam
                if not any(x["k"] in ("arr", "obj") for x in h):
                    continue
            else:
                j["opt"] = n % S["opts"]
            add(j)
    if pid == "P01":
        for h in graphs("MCDump_mix.cfg", rep, 4000 if T else 400, seed + 9):
            add(dict(g="graph", h=h, seed=seed))
    if pid not in ("P09", "P14"):
        for n, j in enumerate(J):
            if n % 7 == 3:
                j["target"] = "mem"
    return J


def name_of(job):
    return "/".join("%s=%s" % (k, json.dumps(v, sort_keys=True).replace(" ", "") if not isinstance(v, (str, int)) else v) for k, v in sorted(job.items()) if k not in ("h",))[:200] + ("/h=" + hashlib.sha1(json.dumps(job["h"]).encode()).hexdigest()[:8] if "h" in job else "")


DEFAULTS = dict(id="", exp=["ok"], orig=[], after=[], back=[], strict=False, ident=True, warn=[], warned=[], facts=[])


def normal(rec):
    d = dict(DEFAULTS)
    d.update({k: v for k, v in rec.items() if k in d or k == "out"})
    return d


def run(pid, jobs=None, rep=None):
    rep = rep or Report(pid, "model_checking")
    if jobs is None:
        jobs = jobs_for(pid, rep)
    recs = run_jobs("hv.rt_worker", jobs, timeout=150)
    pick = [(j, r) for j, r in zip(jobs, recs) if r["out"] != "skip"]
    rep.extra["executed"] = len(pick)
    bad, stats = judge("JudgeRoundTrip.tla", "JudgeRoundTrip.cfg", [normal(r) for _, r in pick])
    rep.judged(len(pick), stats)
    rep.extra["skipped (reference dump refused)"] = len(jobs) - len(pick)
    nontrivial = len({json.dumps(r.get("orig")) for _, r in pick})
    rep.extra["distinct objects"] = nontrivial
    rep.sample(*[dict(job=j, out=r["out"], orig=r.get("orig", [])[:4]) for j, r in pick[5:2000:500]])
    for ix, clauses in bad:
        j, r = pick[ix]
        rep.violation(name_of(j), clauses, dict(j, _msg=r.get("msg", "")))
    return rep
