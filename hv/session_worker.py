"""Executes sessions (sequences of operations of HickleSession.tla) with the code in HV_REPO.

This process never calls hickle itself.  Every session runs in a forked child; files are copied after
every operation, and fresh children load the copies (probe) or repeat single operations (twin)."""
import contextlib, gc, hashlib, io, json, os, pathlib, random, select, shutil, signal, sys, time, traceback, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
try:
    import numpy as np, h5py
    import hickle
    from hv import labels
    from hv.faults import Interposer, LineFault, SizeLimit, WriteFault, Injected, WRITES, READS, FLUSH, EVERYTHING
    import scipy.sparse, astropy.units, astropy.time
    labels.build(0, 1)
except Exception:
    traceback.print_exc()
    sys.exit(97)

DISK, MEM = ("f1", "f2"), ("m1",)
PATHS = [[], ["a"], ["b"], ["a", "b"], ["a", "c"], ["a", "b", "c"], ["a", "b", "b"]]
# the names the components of paths stand for
NAMES = [dict(a="a", b="b", c="c"), dict(a="a", b="ab", c="abc"), dict(a="grp.1", b="x y", c="\u00fcml\u00e4ut"), dict(a="data1", b="hickle", c="Data"),
         dict(a="0", b="-1", c="None"), dict(a="b", b="a", c="aa"), dict(a="a.b", b="a", c="data_x"), dict(a="root", b="'q'", c="\u4e2d\u6587")]


def names(seed):
    return NAMES[random.Random(seed).randrange(len(NAMES))]


def in_child(fn, *args, timeout=60):
    """runs fn in a forked child, returns its JSON result or {"out": "crash"|"timeout"}"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            data = json.dumps(fn(*args)).encode()
            while data:
                data = data[os.write(wr, data):]
        except BaseException:
            code = 3
            try:
                os.write(2, traceback.format_exc().encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    buf, end = [], time.time() + timeout
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        if select.select([rd], [], [], left)[0]:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(rd)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return dict(out="timeout")
    if st:
        return dict(out="crash", status=st)
    return json.loads(b"".join(buf))


def spell(path, sp):
    s = "/".join(path)
    return ["/" + s, s or "/", "/" + s + "/" if s else "/", s + "/" if s else "/"][sp]


class World:
    """the caller's side: files, handles and what it does with them"""

    def __init__(self, root, seed):
        self.root, self.seed = root, seed
        self.names = names(seed)
        os.makedirs(root, exist_ok=True)
        self.mem = {m: io.BytesIO() for m in MEM}
        self.handle, self.group, self.hmode = {}, {}, {f: "none" for f in DISK}
        self.kept = []
        self.loaded = []

    def name(self, f):
        return os.path.join(self.root, f + ".hkl")

    def content(self, f):
        if f in MEM:
            return self.mem[f].getvalue() if not self.mem[f].closed else None
        try:
            with open(self.name(f), "rb") as g:
                return g.read()
        except FileNotFoundError:
            return None

    def open(self, f, mode):
        self.handle[f] = h5py.File(self.name(f), mode)
        if mode == "w":
            self.handle[f].flush()
        self.group[f] = self.handle[f]["/"]
        self.hmode[f] = "r" if mode == "r" else "r+"

    def close(self, f):
        self.handle[f].close()
        self.hmode[f] = "closed"

    def restore(self, snap, hmode):
        """files from the copies in snap, handles reopened"""
        for f in DISK:
            src = os.path.join(snap, f)
            if os.path.exists(src):
                shutil.copyfile(src, self.name(f))
        for m in MEM:
            self.mem[m] = io.BytesIO(open(os.path.join(snap, m), "rb").read())
        for f, m in hmode.items():
            if m in ("r", "r+"):
                self.open(f, m)
            elif m == "closed":
                tmp = os.path.join(self.root, "closed.h5")
                self.handle[f] = h5py.File(tmp, "w")
                self.group[f] = self.handle[f]["/"]
                self.close(f)
                os.unlink(tmp)

    def snapshot(self, snap):
        os.makedirs(snap)
        for f in DISK + MEM:
            b = self.content(f)
            if b is not None:
                with open(os.path.join(snap, f), "wb") as g:
                    g.write(b)

    def open_files(self):
        """files which are open in this process"""
        res = set()
        names = {self.name(f): f for f in DISK}
        for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
            n = h5py.h5f.get_name(i)
            res.add(names.get(n.decode("utf8", "replace"), "other"))
        for fd in os.listdir("/proc/self/fd"):
            try:
                n = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if n in names:
                res.add(names[n])
            elif n.startswith(self.root):
                res.add("other")
        return sorted(res)

    def step(self, o):
        """one operation; returns what was observed"""
        b = dict(out="ok", val=-1, err="", usable=True, vis=True, gc=True, obj=True, args=True, indep=True)
        op, f = o["op"], o["f"]
        try:
            if op == "open":
                self.open(f, o["mode"])
            elif op == "close":
                self.close(f)
            elif op == "remove":
                os.unlink(self.name(f))
            elif op == "copy":
                data = self.content(f)
                if o["to"] in MEM:
                    self.mem[o["to"]] = io.BytesIO(data)
                else:
                    with open(self.name(o["to"]), "wb") as g:
                        g.write(data)
            elif op == "put":
                if o["mode"] == "alien":
                    with h5py.File(self.name(f), "w") as g:
                        g.create_dataset(self.names["b"], data=np.arange(3))
                else:
                    with open(self.name(f), "wb") as g:
                        g.write(b"" if o["mode"] == "empty" else bytes(random.Random(self.seed).randrange(256) for _ in range(3000)))
        except Exception as e:
            return dict(b, out="err", err=repr(e)[:200])
        if op not in ("dump", "load"):
            return b
        # ---- target
        fobj = None
        mode0 = None
        try:
            if o["k"] == "name":
                tgt = self.name(f)
            elif o["k"] == "path":
                tgt = pathlib.Path(self.name(f))
            elif o["k"] == "handle":
                base = "/" + "/".join(self.names[x] for x in o["base"])
                if self.hmode[f] == "closed":
                    tgt = self.handle[f] if o["sp"] % 2 else self.group[f]
                else:
                    tgt = self.handle[f][base] if o["base"] else (self.group[f] if o["sp"] % 3 == 2 else self.handle[f])
                    mode0 = self.handle[f].mode
            elif o["k"] == "fobj":
                fobj = open(self.name(f), "rb" if o["om"] == "closed" else o["om"])
                if o["om"] == "closed":
                    fobj.close()
            else:
                fobj = self.mem[f]
                if o["om"] == "closed":
                    fobj = io.BytesIO(fobj.getvalue())
                    fobj.close()
        except Exception as e:
            return dict(b, out="skip", err=repr(e)[:200])
        kw = {}
        if fobj is not None:
            name = "some name"
            tgt = {"plain": fobj, "tuple": (fobj, name), "list": [fobj, name], "dict": {"file": fobj, "name": name}, "kw": fobj}[o["wrap"]]
            if o["wrap"] == "kw":
                kw["filename"] = name
            given_tgt = (dict(tgt) if isinstance(tgt, dict) else list(tgt)) if o["wrap"] in ("tuple", "list", "dict") else None
        path = spell([self.names[x] for x in o["path"]], o["sp"])
        gc0 = o["gc"]
        (gc.enable if gc0 else gc.disable)()
        r = random.Random("%s/%s/%s" % (self.seed, o["lab"], json.dumps(o, sort_keys=True)))
        hurt = self.harm(o, r) if o["fault"] in ("io", "int", "kill", "disk") else contextlib.nullcontext()
        if o.get("fx", {}).get("how") == "fwrite" and fobj is not None:
            hurt.attach(fobj)
        if op == "dump":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                obj = labels.build(self.seed, o["lab"], o["fault"])
                before = labels.digest(obj) if o["fault"] not in ("member", "kbd") else None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error" if o["fault"] == "warn" else "ignore")
                if op == "dump":
                    options = {"bogus": True} if o["fault"] == "option" else {} if r.random() < .5 else {"custom": False}
                    data_kw = r.choice(({}, {}, {}, dict(compression="gzip"), dict(compression="lzf", shuffle=True)))
                    given = (dict(options), dict(data_kw))
                    try:
                        with hurt:
                            hickle.dump(obj, tgt, mode=o["mode"], path=path, options=options, **kw, **data_kw)
                    finally:
                        b["args"] = (options, data_kw) == given
                        if before is not None:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                b["obj"] = labels.digest(obj) == before
                else:
                    with hurt:
                        res = hickle.load(tgt, path=path, **kw)
                    b["val"] = labels.digest(res)
                    m = labels.mutables(res)
                    for prev in self.loaded:
                        if prev.keys() & m.keys():
                            b["indep"] = False
                    self.loaded.append(m)
                    labels.vandalise(res)
        except BaseException as e:
            b["out"], b["err"] = "err", type(e).__name__
            b["msg"] = repr(e)[:200]
            if o["keep"]:
                self.kept.append(e)
        if "fx" in o:
            b["count"] = hurt.count
        b["gc"] = gc.isenabled() == gc0
        gc.enable()
        if fobj is not None and given_tgt is not None:
            b["args"] = b["args"] and (dict(tgt) if isinstance(tgt, dict) else list(tgt)) == given_tgt
        # ---- is what the caller supplied still usable?
        try:
            if o["k"] == "handle" and mode0 is not None:
                h = self.handle[f]
                if not h or not tgt or h.mode != mode0:
                    b["usable"] = False
                else:
                    list(h.keys()), list(tgt.keys())
                    if op == "dump" and b["out"] == "ok":
                        b["vis"] = "data" in h["/" + "/".join(self.names[x] for x in o["base"] + o["path"])]
            elif fobj is not None and o["om"] != "closed":
                if fobj.closed:
                    b["usable"] = False
                else:
                    fobj.seek(0)
                    if o["om"] != "wb":
                        head = fobj.read(8)
                        if op == "dump" and b["out"] == "ok":
                            b["vis"] = head == b"\x89HDF\r\n\x1a\n"
            for g in DISK:
                if self.hmode[g] in ("r", "r+"):
                    b["usable"] = b["usable"] and bool(self.handle[g])
        except Exception:
            b["usable"] = False
        if o["k"] == "fobj":
            try:
                fobj.close()
            except Exception:
                b["usable"] = False
        return b

    def harm(self, o, r):
        """the fault to be injected: as specified by the job (fx) or a random one"""
        fx = o.get("fx") or dict(how="call", k=1 + min(int(r.expovariate(1 / 8)), 60), after=r.random() < .3 and o["op"] == "dump",
                                 exc="kbd" if o["fault"] == "int" else r.choice(("os", "mem")))
        exc = dict(kbd=KeyboardInterrupt("injected"), os=Injected(5, "injected"), mem=MemoryError("injected"), exit=SystemExit("injected"), kill=None,
                   **{e.__name__: e("injected") for e in labels.ERRORS})[fx["exc"]]
        if fx["how"] == "write":
            return Interposer(fx["k"], exc, WRITES, after=fx["after"])
        points = READS if o["op"] == "load" else WRITES if "fx" not in o else EVERYTHING if fx["exc"] == "kill" else WRITES + FLUSH
        if fx["how"] == "call":
            return Interposer(fx["k"], exc, points, after=fx["after"])
        if fx["how"] == "line":
            return LineFault(fx["k"], exc, os.path.dirname(hickle.__file__))
        if fx["how"] == "fsize":
            return SizeLimit(fx["k"], [self.name(f) for f in DISK])
        return WriteFault(fx["k"], exc)

    def finish(self, b):
        b["open"] = self.open_files()
        b["stray"] = len(set(os.listdir(self.root)) - {f + ".hkl" for f in DISK})
        b["hmode"] = dict(self.hmode)
        return b


def run_session(job, root):
    os.makedirs(os.path.join(root, "w"))
    os.chdir(os.path.join(root, "w"))
    w = World(os.path.join(root, "w"), job["seed"])
    w.snapshot(os.path.join(root, "s0"))
    res = []
    with open(os.path.join(root, "log"), "w") as log:
        for n, o in enumerate(job["ops"]):
            b = w.finish(w.step(o))
            if o["fault"] == "disk" and b["out"] != "ok":      # nothing is promised about what goes on in this process
                w.snapshot(os.path.join(root, "s%d" % (n + 1)))
                res.append(b)
                break
            w.snapshot(os.path.join(root, "s%d" % (n + 1)))
            res.append(b)
            log.write(json.dumps(b) + "\n")
            log.flush()
    return res


def load_all(path, nm):
    """what is stored in a (copied) file, and its HDF5 content"""
    warnings.simplefilter("ignore")
    res = []
    for p in PATHS:
        try:
            res.append(labels.digest(hickle.load(path, path="/" + "/".join(nm[x] for x in p))))
        except BaseException:
            res.append(-1)
    return dict(vals=res)


def tree(path):
    """digest of the HDF5 content"""
    try:
        f = h5py.File(path, "r")
    except Exception:
        return "not-hdf5:" + hashlib.sha1(open(path, "rb").read()).hexdigest()
    h = hashlib.sha1()

    def val(v):
        if isinstance(v, h5py.Reference):
            try:
                return "ref:" + f[v].name
            except Exception:
                return "ref:?"
        if isinstance(v, np.ndarray) and v.dtype.kind == "O":
            return "O:" + ",".join(val(x) for x in v.ravel())
        if isinstance(v, h5py.Empty):
            return "empty:" + v.dtype.str
        if isinstance(v, (np.ndarray, np.generic)):
            return "%s%s:%s" % (v.dtype.str, v.shape, v.tobytes().hex())
        return repr(v)

    def walk(g, name):
        for a in sorted(g.attrs.keys()):
            h.update(("%s@%s=%s;" % (name, a, val(g.attrs[a]))).encode())
        if isinstance(g, h5py.Group):
            for k in sorted(g.keys()):
                h.update(("%s/%s;" % (name, k)).encode())
                walk(g[k], name + "/" + k)
        else:
            h.update(("%s:%s%s%s=%s;" % (name, g.dtype.str, g.shape, g.compression, val(g[()]))).encode())
    with f:
        walk(f, "")
    return h.hexdigest()


def trees(paths):
    return dict(trees=[tree(p) if os.path.exists(p) else "absent" for p in paths])


def same_tree(a, b):
    if not (os.path.exists(a) and os.path.exists(b)):
        return False
    r = in_child(trees, [a, b])
    return "trees" in r and r["trees"][0] == r["trees"][1]


def run_twin(job, n, hmode, root):
    d = os.path.join(root, "t%d" % n)
    os.makedirs(os.path.join(d, "w"))
    os.chdir(os.path.join(d, "w"))
    w = World(os.path.join(d, "w"), job["seed"])
    w.restore(os.path.join(root, "s%d" % n), hmode)
    b = w.step(job["ops"][n])
    w.snapshot(os.path.join(d, "after"))
    return dict(out=b["out"], err=b["err"], val=b["val"], msg=b.get("msg", ""))


def session(job, work):
    root = os.path.join(work, "session")
    shutil.rmtree(root, True)
    os.makedirs(root)
    try:
        obs = in_child(run_session, job, root, timeout=100)
        if isinstance(obs, dict):       # the session died: what is left counts
            with open(os.path.join(root, "log")) as f:
                done = [json.loads(l) for l in f]
            n = len(done)
            if n < len(job["ops"]) and job["ops"][n]["fault"] in ("kill", "disk") and obs["out"] == "crash":
                w = World(os.path.join(root, "w"), job["seed"])
                for m in MEM:
                    w.mem[m] = io.BytesIO()         # gone with the process
                w.snapshot(os.path.join(root, "s%d" % (n + 1)))
                obs["out"] = "killed"
            done.append(dict(out=obs["out"], val=-1, err=str(obs.get("status")), usable=True, vis=True, gc=True, obj=True, args=True, indep=True, open=[], stray=0, hmode={}))
            obs = done
        labs = {labels.digest(labels.build(job["seed"], o["lab"], o["fault"])): o["lab"] for o in job["ops"] if o["op"] == "dump" and o["fault"] not in ("member", "kbd")}
        cache = {}

        def key(p):
            return hashlib.sha1(open(p, "rb").read()).hexdigest() if os.path.exists(p) else ""

        def probe(p):
            k = key(p)
            if k not in cache:
                if not k:
                    cache[k] = [-1] * len(PATHS)
                else:
                    r = in_child(load_all, p, names(job["seed"]))
                    cache[k] = [labs.get(v, 0) if v != -1 else -1 for v in r["vals"]] if "vals" in r else [-2] * len(PATHS)
            return cache[k]
        hmode = {f: "none" for f in DISK}
        for n, b in enumerate(obs):
            if b["out"] in ("crash", "timeout"):
                break
            pre, post = os.path.join(root, "s%d" % n), os.path.join(root, "s%d" % (n + 1))
            b["val"] = labs.get(b["val"], 0) if b["val"] != -1 else -1
            b["probe"] = {f: probe(os.path.join(post, f)) for f in DISK + MEM}
            b["there"] = [f for f in DISK + MEM if os.path.exists(os.path.join(post, f))]
            # the library may write back its bookkeeping of files open for writing at any time: there
            # the HDF5 content counts, not the bytes
            b["same"] = [f for f in DISK + MEM if key(os.path.join(pre, f)) == key(os.path.join(post, f))
                         or (b["hmode"].get(f) == "r+" and same_tree(os.path.join(pre, f), os.path.join(post, f)))]
            b["twin"] = ""
            o = job["ops"][n]
            if job.get("twin") and (job["twin"] is True or n >= job["twin"]) and o["op"] in ("dump", "load") and b["out"] != "skip":
                t = in_child(run_twin, job, n, hmode, root)
                if t["out"] in ("crash", "timeout"):
                    b["twin"] = "fresh-process-" + t["out"]
                else:
                    tv = labs.get(t["val"], 0) if t["val"] != -1 else -1
                    td = os.path.join(root, "t%d" % n, "after")
                    ks = [(os.path.join(post, f), os.path.join(td, f)) for f in DISK + MEM]
                    diff = ["outcome"] if t["out"] != b["out"] else ["exception"] if t["err"] != b["err"] else []
                    if not diff and tv != b["val"]:
                        diff = ["loaded-object"]
                    if not diff and any(key(a) != key(c) for a, c in ks):
                        a = in_child(trees, [p for p, _ in ks])
                        c = in_child(trees, [p for _, p in ks])
                        if a != c:
                            diff = ["stored-data"]
                    if diff:
                        b["twin"] = "differs-from-fresh-process-" + diff[0]
                        b["twinmsg"] = t["msg"]
            hmode = b["hmode"]
        return dict(out="ok", obs=obs)
    finally:
        os.chdir(work)
        shutil.rmtree(root, True)


def main():
    fin, fout, work = sys.argv[1:4]
    with open(fout, "a") as out:
        for line in open(fin):
            out.write(json.dumps(session(json.loads(line), work)) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
