"""P15: dump fails, is interrupted or dies at every point; sessions judged by JudgeSession."""
import random
from hv.common import *
from hv import session, shapes

OP0 = dict(op="", k="", f="f1", to="", base=[], om="", wrap="plain", mode="", path=[], sp=0, fault="", keep=False, gc=True, lab=0)


def op(o, **kw):
    return dict(OP0, op=o, **kw)


def scenarios():
    """name -> (operations before, faulty dump, operations after)"""
    n = dict(k="name")
    h = dict(k="handle")
    return {
        "new": ([], op("dump", mode="w", lab=2, **n), [op("load", **n), op("dump", mode="w", lab=3, **n), op("load", **n)]),
        "newx": ([], op("dump", k="path", mode="x", path=["a"], lab=2), [op("load", path=["a"], **n), op("dump", mode="a", path=["a"], lab=3, **n), op("load", path=["a"], **n)]),
        "over": ([op("dump", mode="w", lab=1, **n)], op("dump", mode="w", lab=2, **n), [op("load", **n)]),
        "append": ([op("dump", mode="w", path=["a"], lab=1, **n)], op("dump", mode="a", path=["b"], lab=2, **n),
                   [op("load", path=["b"], **n), op("load", path=["a"], **n), op("dump", mode="a", path=["b"], lab=3, **n), op("load", path=["b"], **n), op("load", path=["a"], **n)]),
        "below": ([op("dump", mode="w", path=["a"], lab=1, **n)], op("dump", mode="r+", path=["a", "b"], lab=2, **n),
                  [op("load", path=["a", "b"], **n), op("load", path=["a"], **n)]),
        "beside": ([op("dump", mode="w", path=["a", "b"], lab=1, **n)], op("dump", mode="a", path=["a", "c"], lab=2, **n),
                   [op("load", path=["a", "c"], **n), op("dump", mode="a", path=["b"], lab=3, **n), op("load", path=["a", "b"], **n)]),
        "handle": ([op("open", mode="w"), op("dump", mode="w", path=["a"], lab=1, **h)], op("dump", mode="w", path=["b"], lab=2, **h),
                   [op("load", path=["b"], **h), op("load", path=["a"], **h), op("dump", path=["b"], mode="w", lab=3, **h), op("dump", path=["a", "b"], mode="w", lab=4, **h), op("load", path=["a", "b"], **h), op("close"), op("load", path=["a"], **n)]),
        "group": ([op("dump", mode="w", path=["a", "c"], lab=1, **n), op("open", mode="r+")], op("dump", mode="w", base=["a"], path=["b"], lab=2, **h),
                  [op("load", base=["a"], path=["b"], **h), op("load", path=["a", "c"], **h), op("close"), op("load", path=["a", "c"], **n)]),
        "fobj": ([op("put", mode="empty"), op("dump", k="fobj", om="r+b", mode="a", path=["a"], lab=1)], op("dump", k="fobj", om="r+b", mode="a", path=["b"], lab=2),
                 [op("load", path=["b"], **n), op("load", path=["a"], **n)]),
        "mem": ([op("dump", k="mem", f="m1", mode="a", path=["a"], lab=1)], op("dump", k="mem", f="m1", mode="a", path=["b"], lab=2, wrap="tuple"),
                [op("load", k="mem", f="m1", path=["b"]), op("load", k="mem", f="m1", path=["a"])]),
    }


def job(name, how, k, exc, after, seed):
    pre, dump, post = scenarios()[name]
    fault = "kill" if exc == "kill" else "disk" if how in ("fsize", "fwrite") else "int" if exc in ("kbd", "exit") else "io"
    dump = dict(dump, fault=fault, fx=dict(how=how, k=k, exc=exc, after=after))
    return dict(ops=pre + [dump] + (post if fault in ("io", "int") else []), seed=seed, twin=False, at=len(pre), scenario=name)


def kinds(name):
    ks = [("call", "os", False), ("call", "kbd", True), ("call", "mem", False), ("line", "kbd", False), ("line", "exit", False)]
    if name not in ("mem",):
        ks += [("call", "kill", True), ("line", "kill", False)]
        if name != "fobj":
            ks += [("fsize", "os", False)]
    if name in ("mem", "fobj"):
        ks += [("fwrite", "os", False), ("fwrite", "kbd", False)]
    return ks


def jobs_for(rep):
    T = THOROUGH
    r = random.Random(SEED)
    base = []
    for name in scenarios():
        for q in range(12 if T else 2):
            seed = r.randrange(10 ** 6)
            for how, exc, after in kinds(name):
                base.append((name, how, exc, after, seed))
    # how many points are there?
    counts = {}
    todo = [(n, h, e, s) for n, h, e, a, s in base]
    todo = sorted(set((n, h, e == "kill", s) for n, h, e, s in todo))
    jobs = [job(n, h, 0, "kill" if kill else "os", False, s) for n, h, kill, s in todo]
    for key, rec in zip(todo, run_jobs("hv.session_worker", jobs, timeout=120)):
        obs = rec.get("obs", [])
        at = len(scenarios()[key[0]][0])
        counts[key] = obs[at].get("count", 0) if len(obs) > at else 0
    jobs, points = [], 0
    for name, how, exc, after, seed in base:
        n = counts[(name, how, exc == "kill", seed)]
        points += n
        want = {"call": 400, "line": 250, "fsize": 60, "fwrite": 80}[how] if T else {"call": 12, "line": 9, "fsize": 7, "fwrite": 8}[how]
        if how == "call" and n:
            # all of the last ones: that is where an object is marked as complete
            ks = set(range(max(1, n - (12 if T else 4)), n + 1)) | ({1, 2, 3} if T else set())
        else:
            ks = {max(1, n - j) for j in range(1, 30, 10 if not T else 1)} if how == "line" else set()
        ks |= set(range(1, n + 1)) if n <= want else {r.randrange(1, n + 1) for _ in range(want)}
        jobs += [job(name, how, k, exc, after, seed) for k in sorted(ks)]
    # objects of all kinds: any error at the writes of a dump
    objs = [("handle" if (q + SEED) % 3 == 0 else "new", shapes.seed_for(q, 2)) for q in range(shapes.NUMBER)]
    probe = run_jobs("hv.session_worker", [job(n, "write", 0, "OSError", False, s) for n, s in objs], timeout=120)
    for q, ((name, seed), rec) in enumerate(zip(objs, probe)):
        obs, at = rec.get("obs", []), len(scenarios()[name][0])
        n = obs[at].get("count", 0) if len(obs) > at else 0
        points += n
        ks = range(1, n + 1)
        if n > (150 if T else 16):
            ks = sorted(r.sample(ks, 150 if T else 16))
        for j, k in enumerate(ks):
            for e in (shapes.ERROR_NAMES if T else (shapes.ERROR_NAMES[(q + j) % len(shapes.ERROR_NAMES)],)):
                jobs.append(job(name, "write", k, e, False, seed))
    rep.extra["fault points of the scenarios"] = points
    return jobs


def run(pid, jobs=None):
    rep = Report(pid, "model_checking")
    if jobs is None:
        mc = model_check("HickleCommit.tla", "HickleCommit_big.cfg" if THOROUGH else "HickleCommit.cfg", workers=6, heap="8g")
        rep.model(mc, "HickleCommit")
        refuted("HickleCommit.tla", "HickleCommit_bad1.cfg")
        refuted("HickleCommit.tla", "HickleCommit_bad2.cfg")
        jobs = jobs_for(rep)
        rep.extra["faults injected"] = len(jobs)
        # sessions of the specification with several failures in a row
        ss = session.sessions(rep, 3000 if THOROUGH else 300, 10, SEED * 10 + 15)
        ss.sort(key=lambda ops: -sum(bool(o["fault"]) for o in ops if o["op"] == "dump"))
        jobs += [dict(ops=ops, seed=SEED * 100000 + k, twin=False) for k, ops in enumerate(ss[:2000 if THOROUGH else 150])]
    recs = run_jobs("hv.session_worker", jobs, timeout=120)
    rep = session.verdict(pid, rep, jobs, recs)
    return rep
