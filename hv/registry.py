from hv import crash, layouts, legacies, loaders, overlap, recover, roundtrip, session


def run(pid, replay=None):
    jobs = None
    if replay:
        jobs = [{k: v for k, v in replay["job"].items() if not k.startswith("_")}]
    if pid in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09"):
        return roundtrip.run(pid, jobs).finish()
    if pid == "P14":
        rep = session.run(pid, jobs) if jobs is None or "ops" in jobs[0] else None
        if jobs is None or "g" in jobs[0]:
            rep = roundtrip.run(pid, jobs, rep)
        return rep.finish()
    if pid in ("P10", "P11", "P12", "P13", "P14", "P16"):
        return session.run(pid, jobs).finish()
    if pid == "P15":
        return crash.run(pid, jobs).finish()
    if pid == "P17":
        return loaders.run(pid, jobs).finish()
    if pid == "P18":
        return recover.run(pid, jobs).finish()
    if pid == "P19":
        return legacies.run(pid, jobs).finish()
    if pid in ("P20", "P21"):
        return layouts.run(pid, jobs).finish()
    if pid == "P22":
        return overlap.run(pid, jobs).finish()
    raise SystemExit("unknown property " + pid)
