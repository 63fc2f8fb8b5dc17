"""P18: classes, modules and loaders which are not available any more."""
import json, random
from hv.common import *
from hv import layouts, roundtrip

FLAVOURS = ("gone", "half", "broken", "nested", "pkg")
HOWS = ("name", "name", "name", "handle", "r+", "mem", "group")


def graphs(cfg, rep, limit, seed):
    mc = model_check("MCRecover.tla", cfg, workers=4, heap="6g")
    rep.model(mc, cfg)
    gs = emitted(mc["out"])
    if not gs:
        raise CheckFailure("no graphs from " + cfg)
    rep.extra.setdefault("graphs", {})[cfg] = len(gs)
    gs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    r = random.Random("%s/%d" % (cfg, seed))
    return r.sample(gs, limit) if len(gs) > limit else gs


def jobs(rep):
    T, seed = THOROUGH, SEED
    r = random.Random("P18/%d" % seed)
    J = []

    def add(**j):
        j.update(seed=seed, how=r.choice(HOWS))
        if r.random() < .6:
            j["flavour"] = r.choice(FLAVOURS)
        for k, v, p in (("option", "custom", .3), ("where", "/a/b", .15), ("z", 1, .15), ("more", 1, .15)):
            if r.random() < p:
                j[k] = v
        J.append(j)

    for cfg, n in (("MCRecover.cfg", 700), ("MCRecover_set.cfg", 350)) + ((("MCRecover_big.cfg", 14000),) if T else ()):
        for h in graphs(cfg, rep, n if not T else 10 ** 6 if n < 1000 else n, seed):
            if any(x["t"].split(".")[0] in ("gone", "cust") for x in h):
                add(k="graph", h=h)
    sim = simulate("MCRecover.tla", "MCRecover_sim.cfg", 4000 if T else 300, 150, seed, workers=1)
    gs = emitted(sim["out"])
    rep.extra["simulated graphs"] = len(gs)
    for h in gs[:8000 if T else 600]:
        add(k="graph", h=h)
    for i in range(46):
        for f in FLAVOURS:
            for _ in range(4 if T else 1):
                add(k="special", i=i, n=len(J))
                J[-1]["flavour"] = f
    for i in range(16000 if T else 1200):
        add(k="rand", i=i, d=r.choice((1, 2, 3, 4)))
    # where nothing is missing nothing is recovered and nobody is warned
    for g, n in (("mixed", 60), ("opaque", 40), ("nprand", 30), ("astropy", 24)):
        for i in range(n * (6 if T else 1)):
            J.append(dict(k="there", base=dict(g=g, i=i, seed=seed), how=r.choice(HOWS)))
    return J


def name_of(j):
    return "/".join("%s=%s" % (k, v if k != "base" else roundtrip.name_of(v)) for k, v in sorted(j.items()) if k != "h")[:180] + ("/h=" + hashlib.sha1(json.dumps(j["h"]).encode()).hexdigest()[:8] if "h" in j else "")


def run(pid, todo=None, rep=None):
    rep = rep or Report(pid, "model_checking")
    if todo is None:
        todo = jobs(rep)
    recs = run_jobs("hv.recover_worker", todo, timeout=150)
    pick = [(j, r) for j, r in zip(todo, recs) if r["out"] != "skip"]
    norm = []
    for _, r in pick:
        d = dict(layouts.DEFAULTS)
        d.update({k: v for k, v in r.items() if k in d or k == "out"})
        norm.append(d)
    bad, stats = judge("JudgeLayout.tla", "JudgeLayout.cfg", norm)
    rep.judged(len(pick), stats)
    rep.extra["skipped (dump refused)"] = len(todo) - len(pick)
    rep.extra["parts recovered"] = sum(r.get("lost", 0) for _, r in pick)
    kinds = {}
    for j, r in pick:
        k = "%s %s" % (j["k"], r["out"])
        kinds[k] = kinds.get(k, 0) + 1
    rep.extra["outcomes"] = kinds
    rep.sample(*[dict(job=name_of(j), out=r["out"], nodes=len(r.get("tree", [])), lost=r.get("lost", 0)) for j, r in pick[5::max(1, len(pick) // 5)]])
    for ix, clauses in bad:
        j, r = pick[ix]
        rep.violation(name_of(j), clauses, dict(j, _msg=r.get("msg", "")))
    return rep
