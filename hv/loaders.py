"""P17: which loader is used."""
import json, random
from hv.common import *


def sample(rep, cfg, limit, seed):
    mc = model_check("MCLoaders.tla", cfg, workers=4, heap="6g")
    rep.model(mc, cfg)
    hs = emitted(mc["out"])
    if not hs:
        raise CheckFailure("no histories from " + cfg)
    rep.extra.setdefault("histories", {})[cfg] = len(hs)
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    r = random.Random("%s/%d" % (cfg, seed))
    return r.sample(hs, limit) if len(hs) > limit else hs


def jobs(rep):
    T, seed = THOROUGH, SEED
    hs = []
    cfgs = (("MCLoaders.cfg", 900), ("MCLoaders_misc.cfg", 700), ("MCLoaders_core.cfg", 900)) + ((("MCLoaders_big.cfg", 15000),) if T else ())
    with cf.ThreadPoolExecutor(3) as ex:
        for s in ex.map(lambda c: sample(rep, c[0], c[1] if not T else 15000, seed), cfgs):
            hs += s
    sims = {}
    for h in emitted(simulate("MCLoaders.tla", "MCLoaders_sim.cfg", 6000 if T else 500, 14, seed, workers=1)["out"]):
        sims[json.dumps(h[:-2])] = h
    sims = list(sims.values())
    rep.extra["simulated histories"] = len(sims)
    return [dict(h=h, seed=seed * 10 ** 6 + k) for k, h in enumerate(hs + sims)]


def describe(h):
    def one(o):
        if o["op"] == "reg":
            return "register %s as %s under %s (%s%s)" % (o["c"], o["base"], o["opt"], o["kind"], "" if o["memo"] else ", no memo")
        if o["op"] == "excl":
            return "exclude %s under %s" % (o["base"], o["opt"])
        if o["op"] == "dump":
            return "dump %s with %s" % (",".join(m["c"] for m in o["mem"]), "+".join(o["opts"]) or "no option")
        return o["op"] + (" %d" % o["f"] if o["op"] == "load" else " process")
    return " ; ".join(map(one, h))


def run(pid, todo=None):
    rep = Report(pid, "model_checking")
    if todo is None:
        todo = jobs(rep)
    recs = run_jobs("hv.loaders_worker", todo, timeout=150)
    bad, stats = judge("JudgeLoaders.tla", "JudgeLoaders.cfg", [dict(out=r["out"], ev=[{k: e[k] for k in ("op", "out", "nodes", "items", "sames")} for e in r.get("ev", [])]) for r in recs], shard=400)
    rep.judged(len(todo), stats)
    outs = {}
    for r in recs:
        for e in r.get("ev", []):
            k = "%s %s" % (e["op"]["op"], e["out"])
            outs[k] = outs.get(k, 0) + 1
    rep.extra["outcomes"] = outs
    rep.sample(*[describe(j["h"]) for j in todo[5::max(1, len(todo) // 5)]])
    for ix, clauses in bad:
        j, r = todo[ix], recs[ix]
        rep.violation(describe(j["h"])[-300:], clauses, dict(j, _msg=[e.get("msg", "") for e in r.get("ev", [])] or r.get("msg", "")))
    return rep
