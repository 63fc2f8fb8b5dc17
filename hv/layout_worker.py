"""P20, P21: files of the layout of hickle 5, intact and damaged, read by the code under test."""
import io, json, os, random, signal, sys, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
sys.setrecursionlimit(3000)
try:
    import numpy as np, h5py
    import hickle
    from hv import foreign, layout, pieces, rt_worker
    from hv.capture import capture
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(97)


def load(target, rec, **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = hickle.load(target, **kw)
    except Exception as e:
        rec["out"], rec["exc"], rec["msg"] = "refused", "ValueError" if isinstance(e, ValueError) else type(e).__name__, repr(e)[:200]
    else:
        rec["out"], rec["exc"] = "ok", ""
        rec["back"] = capture(o)
    return rec


def how(name, job, rec, **kw):
    h = job.get("how", "name")
    if h in ("handle", "r+"):
        with h5py.File(name, "r" if h == "handle" else "r+") as f:
            return load(f, rec, **kw)
    if h == "mem":
        return load(io.BytesIO(open(name, "rb").read()), rec, **kw)
    if h == "file":
        with open(name, "rb") as f:
            return load(f, rec, **kw)
    return load(name, rec, **kw)


def outcome(job, work):
    path = os.path.join(work, "f.hkl")
    r = random.Random("%s/%s" % (job.get("seed", 0), json.dumps(job, sort_keys=True)))
    rec = dict(intact=False, ident=True, must="", orig=[], mark=False, tree=[], back=[], open=True)
    try:
        if job["k"] == "dumped":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o, exp, _ = rt_worker.build(job["job"])
                if exp != ["ok"]:
                    return dict(out="skip")
                kw = dict(rt_worker.OPTIONS[job["opt"]]) if "opt" in job else {}
                rec["orig"] = capture(o)
                rec["ident"] = job["job"]["g"] not in ("dict", "dictspecial", "keypair", "opaque", "opaquespecial", "mixed")
                try:
                    hickle.dump(o, path, mode="w", **kw)
                except Exception:
                    return dict(out="skip")
            rec["intact"] = True
            rec.update(layout.read(path))
            return load(path, rec)
        if job["k"] == "plan":
            doc = job["doc"]
            where = job.get("where", "/")
            for _ in range(8):
                try:
                    o = foreign.write(path, doc, r, where)
                    break
                except foreign.Unfit:
                    pass
            else:
                return dict(out="skip")
            rec["intact"] = doc["what"] == ""
            if rec["intact"]:
                rec["orig"] = capture(o)
            rec.update(layout.read(path, where))
            if job.get("how") == "handle":
                with h5py.File(path, "r") as f:
                    return load(f, rec, path=where)
            if job.get("how") == "group":
                with h5py.File(path, "r") as f:
                    return load(f[where], rec)
            if job.get("how") == "r+":
                with h5py.File(path, "r+") as f:
                    return load(f, rec, path=where)
            return load(path, rec, path=where)
        if job["k"] == "cut":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o, exp, _ = rt_worker.build(job["job"])
                try:
                    hickle.dump(o, path, mode="w")
                except Exception:
                    return dict(out="skip")
            with h5py.File(path, "r+") as f:
                rec["cut"] = pieces.remove(f, job["n"])
                if not rec["cut"]:
                    return dict(out="skip")
            rec.update(layout.read(path))
            return how(path, job, rec)
        if job["k"] == "alien":
            rec["must"] = "refused"
            kw = pieces.alien(path, job["i"], r, hickle.dump)
            if kw is None:
                return dict(out="skip")
            try:
                h5py.File(path, "r").close()
            except Exception:
                rec["open"] = False
                job = dict(job, how="mem" if job.get("how") == "mem" and os.path.isfile(path) else "name")
            return how(path, job, rec, **kw)
        raise ValueError(job["k"])
    finally:
        if os.path.isdir(path):
            os.rmdir(path)
        if os.path.exists(path):
            os.unlink(path)


def main():
    fin, fout, work = sys.argv[1:4]
    signal.signal(signal.SIGALRM, rt_worker.on_alarm)
    with open(fout, "a") as out:
        for line in open(fin):
            job = json.loads(line)
            signal.alarm(100)
            try:
                rec = outcome(job, work)
            except rt_worker.Hung:
                rec = dict(out="timeout")
            finally:
                signal.alarm(0)
            out.write(json.dumps(rec) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
