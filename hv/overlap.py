"""P22: overlapping and nested operations; HickleOverlap.tla."""
import random
from hv.common import *

VARIANTS = ("nolock", "onelook", "flagfirst", "naivegc", "stem")


def record(run):
    return dict(ops=[dict(id=e["id"], f=e["f"], top=e["id"] < 10, start=e["start"], end=e["end"], out=e["out"]) for e in run["ops"]],
                gc=run["gc"], after=run["after"], usable=run["usable"], left=run["left"], stuck=run["stuck"])


def jobs_for(rep):
    T = THOROUGH
    rep.model(model_check("MCOverlap.tla", "MCOverlap_big.cfg" if T else "MCOverlap.cfg", workers=CORES, heap="6g"), "MCOverlap")
    if T:
        rep.model(model_check("MCOverlap.tla", "MCOverlap_three.cfg", workers=CORES, heap="12g"), "MCOverlap three threads")
    with cf.ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda v: refuted("MCOverlap.tla", "MCOverlap_%s.cfg" % v), VARIANTS))
    rep.extra["wrong designs refuted"] = list(VARIANTS)
    mc = model_check("MCOverlap.tla", "MCOverlap_emit.cfg")
    combos = sorted(emitted(mc["out"]), key=json.dumps)
    rep.extra["combinations of the specification"] = len(combos)
    r = random.Random(SEED)
    r.shuffle(combos)

    def files(ops):
        for o in ops:
            yield o["f"]
            yield from files([i["op"] for i in o["items"] if i["k"] == "call"])
    apart = [c for c in combos if len(set(files(c))) == len(list(files(c)))]
    mixed = [c for c in combos if len(set(files(c))) < len(list(files(c)))]
    jobs = []
    for k, ops in enumerate(combos if T else apart[:80] + mixed[:50]):
        for q in range(4 if T else 1):
            jobs.append(dict(ops=ops, seed=r.randrange(10 ** 6), num=40 if T else 14 if k < 80 else 5, opcodes=q == 3))
    for k in range(200 if T else 24):       # three threads
        a, b = r.sample(combos, 2)
        third = json.loads(json.dumps(a[0]).replace('"id": 11', '"id": 13'))
        third.update(id=3, f="f3")
        jobs.append(dict(ops=b + [third], seed=r.randrange(10 ** 6), num=30 if T else 8, opcodes=False))
    for k in range(400 if T else 60):       # nested only
        jobs.append(dict(ops=[r.choice([c for c in r.choice(combos) if any(i["k"] == "call" for i in c["items"])] or [combos[0][0]])], seed=r.randrange(10 ** 6), num=0))
    return jobs


def describe(job, rec, run):
    k = rec["kinds"]
    return " | ".join("%s %s %s%s: %s" % (k[str(e["id"])][0], rec["how"][e["f"]], k[str(e["id"])][1], " in callback " + k[str(e["id"])][2] if k[str(e["id"])][2] else "", e["out"]) for e in run["ops"]) + " schedule " + json.dumps(run["sched"][:4])


def run(pid, jobs=None):
    rep = Report(pid, "model_checking")
    if jobs is None:
        jobs = jobs_for(rep)
    recs = run_jobs("hv.overlap_worker", jobs, timeout=200)
    runs, where = [], []
    for ix, rec in enumerate(recs):
        if "runs" not in rec:
            rep.violation("job", [rec["out"]], jobs[ix])
            continue
        for x in rec["runs"]:
            runs.append(x)
            where.append(ix)
    bad, stats = judge("JudgeOverlap.tla", "JudgeOverlap.cfg", [record(x) for x in runs])
    rep.judged(len(runs), stats, "schedules")
    rep.extra["waited for each other"] = sum(x["blocked"] > 0 for x in runs)
    outs = {}
    for x in runs:
        for e in x["ops"]:
            outs[e["out"]] = outs.get(e["out"], 0) + 1
    rep.extra["outcomes of operations"] = outs
    rep.sample(*[describe(jobs[w], recs[w], x) for w, x in list(zip(where, runs))[5:2000:300]])
    for n, clauses in bad:
        ix, x = where[n], runs[n]
        doc = dict(ops=jobs[ix]["ops"], seed=jobs[ix]["seed"], opcodes=jobs[ix].get("opcodes", False), scheds=[[x["sched"], x["gc0"]]], _run=x["ops"])
        rep.violation(describe(jobs[ix], recs[ix], x)[:400], clauses, doc)
    return rep
