"""P19: files of the layouts of hickle 3.x and 4.0.x read by the code under test."""
import hashlib, io, json, os, random, signal, sys, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
sys.setrecursionlimit(3000)
try:
    import numpy as np, h5py
    import dill, scipy.sparse, pandas, astropy.units, astropy.table, astropy.time, astropy.coordinates, astropy.constants
    import hickle
    from hv import foreign, legacy, rt_worker
    from hv.capture import capture
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(97)


def content(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def load(how, path, where):
    kw = dict(path=where) if where != "/" or how == "handle" else {}
    alive = True
    if how in ("handle", "r+"):
        with h5py.File(path, "r" if how == "handle" else "r+") as f:
            o = hickle.load(f, **kw)
            alive = bool(f) and where in f
    elif how == "group":
        with h5py.File(path, "r") as f:
            o = hickle.load(f[where])
            alive = bool(f) and where in f
    elif how == "mem":
        b = io.BytesIO(open(path, "rb").read())
        o = hickle.load(b, **kw)
        alive = not b.closed
    elif how == "file":
        with open(path, "rb") as f:
            o = hickle.load(f, **kw)
            alive = not f.closed
    else:
        o = hickle.load(path, **kw)
    return o, alive


def warm_up(job, work):
    """another object loaded before by the same process"""
    r = random.Random("warm/%s" % json.dumps(job, sort_keys=True))
    path = os.path.join(work, "w.hkl")
    d = job["warm"]
    try:
        o = legacy.value(r, "4" if d == "5" else d, r.randrange(3))
        if d == "5":
            hickle.dump(o, path, mode="w")
        else:
            legacy.write(path, d, "/", o, r)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hickle.load(path)
    except Exception:
        pass
    finally:
        if os.path.exists(path):
            os.unlink(path)


def outcome(job, work):
    if job.get("warm"):
        warm_up(job, work)
    path = os.path.join(work, "f.hkl")
    d, where, how = job["d"], job["where"], job["how"]
    for n in range(20):
        r = random.Random("%s/%s/%d" % (job["seed"], json.dumps(job, sort_keys=True), n))
        try:
            o = legacy.values(job["h"], r, d) if "h" in job else legacy.value(r, d, job["depth"])
            # layout 3 has one object at the root of the file or any number of them below
            places = [p for p in ("/", "/test", "/other", "/a/b") if p != where and (d == "4" or "/" not in (p, where))]
            others = [(p, legacy.value(r, d, r.randrange(2))) for p in r.sample(places, r.randrange(min(3, len(places) + 1)))]
            legacy.write(path, d, where, o, r, others)
            break
        except foreign.Unfit:
            pass
    else:
        return dict(out="skip")
    try:
        rec = dict(d=d, orig=capture(o), tree=legacy.read(path, d, where), back=[], same=True, alive=True)
        before = content(path)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                back, rec["alive"] = load(how, path, where)
            rec["back"], rec["out"] = capture(back), "ok"
        except Exception as e:
            rec["out"], rec["msg"] = "refused", repr(e)[:300]
        rec["same"] = how == "r+" or content(path) == before
        return rec
    finally:
        os.unlink(path)


def main():
    fin, fout, work = sys.argv[1:4]
    with open(fout, "a") as out:
        for line in open(fin):
            job = json.loads(line)
            # every file is met by a process which has not loaded or dumped anything but its warm up
            pid = os.fork()
            if pid == 0:
                code = 96
                try:
                    signal.signal(signal.SIGALRM, rt_worker.on_alarm)
                    signal.alarm(100)
                    try:
                        rec = outcome(job, work)
                    except rt_worker.Hung:
                        rec = dict(out="timeout")
                    finally:
                        signal.alarm(0)
                    out.write(json.dumps(rec) + "\n")
                    out.flush()
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            st = os.waitpid(pid, 0)[1]
            if st:
                os._exit(96)


if __name__ == "__main__":
    main()
