"""Checks decided by sessions: P10 - P14, P16."""
import random
from hv.common import *

FIELDS = ("out", "val", "probe", "there", "same", "open", "usable", "vis", "stray", "gc", "obj", "args", "indep", "twin")
NONE = dict(val=-1, probe={f: [-1] * 7 for f in ("f1", "f2", "m1")}, there=[], same=["f1", "f2", "m1"], open=[], usable=True, vis=True, stray=0, gc=True, obj=True, args=True, indep=True, twin="")


def record(job, rec):
    """what TLC judges"""
    obs = rec.get("obs") or [dict(out=rec["out"])]
    return dict(ops=job["ops"], obs=[{k: b.get(k, NONE.get(k)) for k in FIELDS} for b in obs] + [dict(NONE, out="skip")] * (len(job["ops"]) - len(obs)))


def sessions(rep, num, depth, seed, cfg="MCSession_sim.cfg"):
    """random behaviours of the specification (one per prefix)"""
    n = CORES if num > 400 else 2
    def one(k):
        return emitted(simulate("MCSession.tla", cfg, num // n + 1, depth + 2, seed * 100 + k, workers=1)["out"])
    seen, res = set(), []
    with cf.ThreadPoolExecutor(n) as ex:
        for ops in sum(ex.map(one, range(n)), []):
            key = json.dumps(ops[:-2])
            if key not in seen:
                seen.add(key)
                res.append(ops)
    if not res:
        raise CheckFailure("no sessions")
    rep.extra["sessions generated"] = rep.extra.get("sessions generated", 0) + len(res)
    return res


def pairs(rep, cfg="MCSession_pairs.cfg"):
    mc = model_check("MCSession.tla", cfg)
    rep.model(mc, cfg)
    return emitted(mc["out"])


# what is interesting for a property: sessions holding it are preferred
def weight(pid, ops):
    dumps = [o for o in ops if o["op"] == "dump"]
    loads = [o for o in ops if o["op"] == "load"]
    paths = {(o["f"], tuple(o["base"] + o["path"])) for o in dumps if not o["fault"]}
    if pid == "P10":
        return len(paths) * 2 + len(loads)
    if pid == "P11":
        return sum(o["k"] != "name" for o in dumps + loads)
    if pid == "P12":
        return sum(bool(o["fault"]) or o["k"] in ("handle", "fobj") for o in dumps + loads)
    if pid == "P13":
        return sum(o["k"] in ("name", "path") for o in dumps) * 2 + sum(o["op"] in ("put", "remove") for o in ops)
    if pid == "P14":
        return len(loads) * 2 + len(paths)
    return sum(bool(o["fault"]) for o in ops) + len(dumps)


def jobs_for(pid, rep):
    T = THOROUGH
    mc = model_check("MCSession.tla", "MCSession_big.cfg" if T else "MCSession.cfg", workers=4, heap="6g")
    rep.model(mc, "MCSession")
    n = (6000 if T else 340) if pid != "P16" else (3000 if T else 170)
    seed = SEED * 10 + int(pid[1:])
    ss = sessions(rep, n * 3, 10, seed)
    ss.sort(key=lambda ops: -weight(pid, ops))
    pick = ss[:n * 2 // 3] + random.Random(seed).sample(ss[n * 2 // 3:], min(n - n * 2 // 3, max(0, len(ss) - n * 2 // 3)))
    jobs = [dict(ops=ops, seed=seed * 100000 + k, twin=pid == "P16") for k, ops in enumerate(pick)]
    if pid in ("P11", "P14"):
        ps = pairs(rep)
        if not T:
            ps = random.Random(seed).sample(ps, 700 if pid == "P11" else 150)
        jobs += [dict(ops=ops, seed=k, twin=False) for k, ops in enumerate(ps)]
    if pid in ("P10", "P13"):
        ps = pairs(rep, "MCSession_two.cfg")
        if not T:
            same = [ops for ops in ps if len({tuple(o["base"] + o["path"]) for o in ops if o["op"] == "dump"}) == 1]
            ps = random.Random(seed).sample(ps, 350) + random.Random(seed).sample(same, min(len(same), 150))
        jobs += [dict(ops=ops, seed=k, twin=False) for k, ops in enumerate(ps)]
    if pid == "P16":
        jobs += histories(seed, 1500 if T else 100)
        for m in range(4 if T else 1):
            jobs += [dict(ops=ops, seed=seed * 1000 + m * 300 + k, twin=3 if ops[0]["op"] == "open" else 2) for k, ops in enumerate(pairs(rep, "MCSession_fault.cfg"))]
    return jobs


def histories(seed, num):
    """many kinds of objects dumped and loaded by one process; the last dump is compared with a fresh process"""
    op0 = dict(op="", k="name", f="f1", to="", base=[], om="", wrap="plain", mode="w", path=[], sp=0, fault="", keep=False, gc=True, lab=0)
    r = random.Random(seed)
    jobs = []
    for n in range(num):
        ops, lab = [], 0
        for _ in range(r.randrange(2, 9)):
            lab += 1
            f = r.choice(("f1", "f2"))
            ops.append(dict(op0, op="dump", f=f, lab=lab, fault=r.choice(("", "", "", "", "member", "kbd", "option", "io"))))
            if r.random() < .5:
                ops.append(dict(op0, op="load", f=f, mode=""))
        ops += [dict(op0, op="dump", f="f1", lab=lab + 1), dict(op0, op="load", f="f1", mode="")]
        jobs.append(dict(ops=ops, seed=seed * 10 ** 6 + n, twin=len(ops) - 2))
    return jobs


def describe(ops):
    return " ; ".join("%s %s %s%s%s" % (o["op"], o["k"], o["f"], "/" + "/".join(o["base"] + o["path"]) if o["op"] in ("dump", "load") else "", " " + ",".join(x for x in (o["mode"], o["om"], o["fault"], o["wrap"] if o["wrap"] != "plain" else "") if x)) for o in ops)


def run(pid, jobs=None):
    rep = Report(pid, "model_checking")
    if jobs is None:
        jobs = jobs_for(pid, rep)
    recs = run_jobs("hv.session_worker", jobs, timeout=250)
    return verdict(pid, rep, jobs, recs)


def verdict(pid, rep, jobs, recs):
    bad, stats = judge("JudgeSession.tla", "JudgeSession.cfg", [record(j, r) for j, r in zip(jobs, recs)], shard=60)
    rep.judged(len(jobs), stats)
    rep.extra["operations"] = sum(len(j["ops"]) for j in jobs)
    rep.extra["outcomes"] = {}
    for j, r in zip(jobs, recs):
        for o, b in zip(j["ops"], r.get("obs", [])):
            k = "%s %s" % (o["op"], b["out"])
            rep.extra["outcomes"][k] = rep.extra["outcomes"].get(k, 0) + 1
    rep.extra["broken clauses of other properties"] = sorted({c.split("@")[0] for _, cs in bad for c in cs if not c.startswith(pid)})
    rep.sample(*[describe(j["ops"]) for j in jobs[3:400:100]])
    for ix, clauses in bad:
        mine = [c for c in clauses if c.startswith(pid + ":")]
        if mine:
            at = int(mine[0].split("@")[1])
            rep.violation(describe(jobs[ix]["ops"][:at])[-300:], mine, dict(jobs[ix], _obs=recs[ix].get("obs", [])[:at][-1:]))
    return rep
