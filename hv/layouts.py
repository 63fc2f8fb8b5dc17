"""P20 and P21: the layout of hickle 5 in both directions, damaged and foreign files."""
import json, random
from hv.common import *
from hv import roundtrip


def plans(cfg, rep, limit, seed):
    mc = model_check("MCForeign.tla", cfg, workers=6, heap="6g")
    rep.model(mc, cfg)
    docs = [d for d in emitted(mc["out"]) if isinstance(d, dict)]
    rep.extra.setdefault("plans", {})[cfg] = len(docs)
    if not docs:
        raise CheckFailure("no plans from " + cfg)
    r = random.Random("%s/%d" % (cfg, seed))
    docs.sort(key=lambda d: json.dumps(d, sort_keys=True))
    return r.sample(docs, limit) if len(docs) > limit else docs


def sim_plans(cfg, rep, num, seed):
    sim = simulate("MCForeign.tla", cfg, num, 150, seed, workers=1)
    docs = [d for d in emitted(sim["out"]) if isinstance(d, dict)]
    rep.extra.setdefault("simulated plans", {})[cfg] = len(docs)
    return docs if len(docs) <= 4 * num else random.Random(seed).sample(docs, 4 * num)


HOWS = ["name", "handle", "group", "r+", "name", "name"]
WHERES = ["/", "/", "/", "/x", "/a/b"]


def jobs_p21(rep):
    T, seed = THOROUGH, SEED
    S = roundtrip.sizes()
    J = []
    m = 8 if T else 1
    r = random.Random("P21/%d" % seed)
    base = [dict(g="ctx", v=v, c=c, seed=seed) for v in range(S["scalars"]) for c in ([0] if not T else range(S["ctx"]))] \
        + [dict(g="seqspecial", i=i, seed=seed) for i in range(S["seq"])] + [dict(g="dictspecial", i=i, seed=seed) for i in range(S["dict"])] \
        + [dict(g="shared", i=i, seed=seed) for i in range(S["shared"])] + [dict(c, g="np", seed=seed) for c in S["np"] if not str(c.get("d")).startswith(">U")] \
        + [dict(g="sparsespecial", i=i, seed=seed) for i in range(S["sparse"])] + [dict(g="opaquespecial", i=i, seed=seed) for i in range(S["opaque"])]
    base += [dict(g=g, i=i, seed=seed) for g, n in (("sparse", 120), ("astropy", 144), ("opaque", 60), ("mixed", 250), ("nprand", 200), ("numlist", 150)) for i in range(n * m)]
    base += [dict(g=g, i=i, seed=seed, d=3) for g, n in (("struct", 250), ("seq", 250), ("dict", 250)) for i in range(n * m)]
    base += [dict(g="dag", i=i, seed=seed, n=n) for n in (5, 9) for i in range(120 * m)]
    for n, b in enumerate(base):
        j = dict(k="dumped", job=b)
        if n % 3 == 1:
            j["opt"] = n % S["opts"]
        J.append(j)
    for h in roundtrip.graphs("MCDump_mix_big.cfg" if T else "MCDump_mix.cfg", rep, 4000 if T else 250, seed + 3):
        J.append(dict(k="dumped", job=dict(g="graph", h=h, seed=seed)))
    docs = plans("MCForeign.cfg", rep, 30000 if T else 2200, seed) + sim_plans("MCForeign_sim.cfg", rep, 6000 if T else 500, seed)
    for n, d in enumerate(docs):
        J.append(dict(k="plan", doc=d, seed=seed, how=r.choice(HOWS), where=r.choice(WHERES)))
    return J


def jobs_p20(rep):
    T, seed = THOROUGH, SEED
    S = roundtrip.sizes()
    m = 8 if T else 1
    r = random.Random("P20/%d" % seed)
    J = []
    docs = plans("MCForeign_dmg.cfg", rep, 30000 if T else 1800, seed) + sim_plans("MCForeign_simdmg.cfg", rep, 4000 if T else 300, seed)
    for d in docs:
        J.append(dict(k="plan", doc=d, seed=seed, how=r.choice(HOWS), where=r.choice(WHERES)))
    base = [dict(g="seqspecial", i=i, seed=seed) for i in range(S["seq"])] + [dict(g="dictspecial", i=i, seed=seed) for i in range(S["dict"])] \
        + [dict(g="shared", i=i, seed=seed) for i in range(S["shared"])] + [dict(g="sparsespecial", i=i, seed=seed) for i in range(S["sparse"])]
    base += [dict(g=g, i=i, seed=seed) for g, n in (("sparse", 40), ("astropy", 72), ("opaque", 20), ("mixed", 200), ("nprand", 60), ("numlist", 40)) for i in range(n * m)]
    base += [dict(g=g, i=i, seed=seed, d=3) for g, n in (("struct", 120), ("seq", 60), ("dict", 120)) for i in range(n * m)]
    base += [dict(g="dag", i=i, seed=seed, n=n) for n in (5, 9) for i in range(80 * m)]
    for b in base:
        for n in range(12 if T else 3):
            J.append(dict(k="cut", job=b, n=r.randrange(10 ** 6), how=r.choice(("name", "name", "handle", "r+", "mem"))))
    for i in range(12000 if T else 1300):
        J.append(dict(k="alien", i=i, seed=seed, how=r.choice(("name", "name", "handle", "r+", "mem", "file"))))
    return J


def name_of(j):
    if j["k"] == "dumped":
        return "dumped/" + roundtrip.name_of(j["job"])
    if j["k"] == "plan":
        return "plan/%s/%s/%s/%s" % (j["doc"]["what"] or "intact", j.get("how", ""), j.get("where", ""), hashlib.sha1(json.dumps(j["doc"], sort_keys=True).encode()).hexdigest()[:10])
    return "/".join("%s=%s" % (k, v) for k, v in sorted(j.items()) if k != "job")[:200] + (("/" + roundtrip.name_of(j["job"])) if "job" in j else "")


DEFAULTS = dict(intact=False, ident=True, must="", orig=[], mark=False, tree=[], back=[], open=True, exc="", warn="")


def run(pid, jobs=None, rep=None):
    rep = rep or Report(pid, "model_checking")
    if jobs is None:
        jobs = dict(P20=jobs_p20, P21=jobs_p21)[pid](rep)
    recs = run_jobs("hv.layout_worker", jobs, timeout=150)
    pick = [(j, r) for j, r in zip(jobs, recs) if r["out"] != "skip"]
    norm = []
    for _, r in pick:
        d = dict(DEFAULTS)
        d.update({k: v for k, v in r.items() if k in d or k == "out"})
        norm.append(d)
    bad, stats = judge("JudgeLayout.tla", "JudgeLayout.cfg", norm)
    rep.judged(len(pick), stats)
    rep.extra["skipped"] = len(jobs) - len(pick)
    kinds = {}
    for j, r in pick:
        k = "%s %s" % (j["k"], r["out"])
        kinds[k] = kinds.get(k, 0) + 1
    rep.extra["outcomes"] = kinds
    rep.sample(*[dict(job=name_of(j), out=r["out"], nodes=len(r.get("tree", []))) for j, r in pick[5::max(1, len(pick) // 5)]])
    for ix, clauses in bad:
        j, r = pick[ix]
        rep.violation(name_of(j), clauses, dict(j, _msg=r.get("msg", "")))
    return rep
