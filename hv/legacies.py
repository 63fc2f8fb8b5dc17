"""P19: files of hickle 3.x and 4.0.x."""
import json, random
from hv.common import *

HOWS = ["name", "name", "handle", "r+", "group", "mem", "file"]
WHERES = ["/", "/", "/test", "/a/b"]


def graphs(rep, cfg, limit, seed):
    mc = model_check("MCLegacy.tla", cfg, workers=4, heap="6g")
    rep.model(mc, cfg)
    docs = [d for d in emitted(mc["out"]) if isinstance(d, dict)]
    rep.extra.setdefault("graphs", {})[cfg] = len(docs)
    if not docs:
        raise CheckFailure("no graphs from " + cfg)
    docs.sort(key=lambda d: json.dumps(d, sort_keys=True))
    return random.Random("%s/%d" % (cfg, seed)).sample(docs, limit) if len(docs) > limit else docs


def jobs(rep):
    T, seed = THOROUGH, SEED
    docs = []
    for cfg, n in (("MCLegacy.cfg", 1500), ("MCLegacy2.cfg", 2000)) + ((("MCLegacy_big.cfg", 25000),) if T else ()):
        docs += graphs(rep, cfg, n if not T else 25000, seed)
    sims = [d for d in emitted(simulate("MCLegacy.tla", "MCLegacy_sim.cfg", 8000 if T else 600, 150, seed, workers=1)["out"]) if isinstance(d, dict)]
    rep.extra["simulated graphs"] = len(sims)
    r = random.Random("P19/%d" % seed)
    J = [dict(h=d["obj"], d=d["d"]) for d in docs + sims]
    J += [dict(d=d, depth=k, i=i) for d in "34" for k, n in ((0, 100), (1, 350), (2, 450), (3, 250)) for i in range(n * (10 if T else 1))]
    for j in J:
        j.update(how=r.choice(HOWS), where=r.choice(WHERES), warm=r.choice(["", "", "3", "4", "5"]), seed=seed)
    return J


def name_of(j):
    return "layout %s/%s/%s/%s" % (j["d"], j["how"], j["where"], hashlib.sha1(json.dumps(j["h"], sort_keys=True).encode()).hexdigest()[:10] if "h" in j else "random depth %d no %d" % (j["depth"], j["i"]))


def run(pid, todo=None):
    rep = Report(pid, "model_checking")
    if todo is None:
        todo = jobs(rep)
    recs = run_jobs("hv.legacy_worker", todo, timeout=150)
    pick = [(j, r) for j, r in zip(todo, recs) if r["out"] != "skip"]
    rep.extra["skipped"] = len(todo) - len(pick)
    norm = [{k: r.get(k, x) for k, x in dict(d=j["d"], orig=[], tree=[], back=[], out="crash", same=True, alive=True).items()} for j, r in pick]
    bad, stats = judge("JudgeLegacy.tla", "JudgeLegacy.cfg", norm)
    rep.judged(len(pick), stats)
    kinds = {}
    for j, r in pick:
        k = "%s %s %s" % (j["d"], j["how"], r["out"])
        kinds[k] = kinds.get(k, 0) + 1
    rep.extra["outcomes"] = kinds
    rep.sample(*[dict(job=name_of(j), out=r["out"], nodes=len(r.get("tree", []))) for j, r in pick[5::max(1, len(pick) // 5)]])
    for ix, clauses in bad:
        j, r = pick[ix]
        rep.violation(name_of(j), clauses, dict(j, _msg=r.get("msg", "")))
    return rep
