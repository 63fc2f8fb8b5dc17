"""Executes overlapping operations (HickleOverlap.tla) with the code in HV_REPO.

The interleaving is controlled: threads run one at a time and are preempted when they are about to execute
the k-th line of the package.  Every schedule runs in a forked child (nothing is registered yet)."""
import gc, importlib.machinery, io, itertools, json, os, pathlib, random, shutil, sys, threading, time, traceback, types, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
try:
    import numpy as np, h5py
    import hickle
    import scipy.sparse as sp
    import astropy.units, astropy.time, astropy.coordinates, astropy.constants, astropy.table
    from hickle.lookup import RecoveredGroup, RecoveredDataset
    from hv import callbacks, gen
    from hv.capture import canonical
    from hv.session_worker import in_child
except Exception:
    traceback.print_exc()
    sys.exit(97)

PACKAGE = os.path.dirname(os.path.abspath(hickle.__file__)) + os.sep
FAMILIES = {
    "scipy": (lambda r, l: sp.csr_matrix(np.eye(3) * r.randrange(2, 9)), lambda r, l: sp.csc_matrix((2, r.randrange(3, 9))), lambda r, l: sp.bsr_matrix(np.eye(2))),
    "astropy": (lambda r, l: astropy.units.Quantity(float(r.randrange(99)), "m"), lambda r, l: astropy.time.Time(50000.5 + r.randrange(9), format="mjd"), lambda r, l: astropy.coordinates.Angle(float(r.randrange(99)), "deg")),
    "numpy": (lambda r, l: np.arange(r.randrange(1, 9)), lambda r, l: np.ma.array([1, 2, r.randrange(9)], mask=[0, 1, 0]), lambda r, l: np.array([[l], {"x": 1}], dtype=object)),
    "builtins": (lambda r, l: {"a": [l, 1], ("t", 1): b"x"}, lambda r, l: [10 ** 30, l, {1, "q"}, None, 2.5, (l, {})], lambda r, l: {l: {"z": [True, l]}}),
    "user": (lambda r, l: gen.Point(l, r.randrange(9)), lambda r, l: gen.MyDict(a=[l]), lambda r, l: gen.MyList([l, 1])),
}
INF = 10 ** 9


def lost_classes():
    """classes which are there when files are prepared only"""
    m = types.ModuleType("hv_lost")
    exec("class D(dict): pass\nclass L(list): pass\nclass S(str): pass\nclass I(tuple): pass", m.__dict__)
    m.__spec__ = importlib.machinery.ModuleSpec("hv_lost", None)
    sys.modules["hv_lost"] = m


def lose(kind, o):
    m = sys.modules["hv_lost"]
    return {"D": lambda: m.D(a=o, b=1), "L": lambda: m.L([o, 1, "x"]), "S": lambda: m.S("text"), "I": lambda: m.I((1, 2, 3))}[kind]()


def view(o):
    """canonical projection, recovered objects with their attributes"""
    if isinstance(o, (RecoveredGroup, RecoveredDataset)):
        attrs = sorted((k, str(v)) for k, v in o.attrs.items())
        body = [(k, canonical(list(v))) for k, v in sorted(o.items())] if isinstance(o, dict) else canonical(np.asarray(o))
        return json.dumps([type(o).__name__, attrs, body])
    return canonical(o)


def alone(sc, d):
    """results of loads nothing overlaps with"""
    warnings.simplefilter("ignore")
    callbacks.register()
    return {str(o["id"]): view(hickle.load(os.path.join(d, sc.file[o["f"]]), path=o["path"])) for o in sc.ops if o["lost"]}


class Scenario:
    """operations of the specification made concrete"""

    def __init__(self, ops, seed):
        self.r = r = random.Random(seed)
        self.seed, self.ops = seed, []
        fam = r.sample(sorted(FAMILIES), 2)
        self.real = {"a1": (fam[0], 0), "a2": (fam[0], 1), "b1": (fam[1], r.randrange(3))}
        self.flat(ops, None)
        files = sorted({o["f"] for o in self.ops})
        style = r.randrange(3)
        self.file = {f: [n + ".hkl", n + "/x.hkl", "x" + {"f1": ".hkl", "f2": ".h5", "f3": ""}[n]][style] for n in ("f1", "f2", "f3") for f in (n,)}
        self.how = {}
        for f in files:
            many = sum(o["f"] == f for o in self.ops) > 1
            self.how[f] = r.choice(("handle", "handle", "name") if many else ("handle", "name", "name", "path", "mem", "fobj"))
        for o in self.ops:
            many = sum(p["f"] == o["f"] for p in self.ops) > 1
            o["path"] = "/" if o["kind"] == "dump" and not many and r.random() < .3 else "/%s%d" % (o["kind"], o["id"])
            o["mode"] = "a" if many or self.how[o["f"]] in ("handle", "mem", "fobj") else "w"
        for o in self.ops:
            q = random.Random("%s/lost/%s" % (seed, o["id"]))
            calls = any(it["k"] == "call" for it in o["items"])
            o["lost"] = q.choice("DLDLSI" if not calls else "DL") if o["kind"] == "load" and q.random() < .3 else ""
        self.want = {}
        self.plan = {o["id"]: (o, o["where"]) for o in self.ops if o["parent"]}

    def flat(self, ops, parent):
        for o in ops:
            d = dict(id=o["id"], f=o["f"], items=o["items"], parent=parent["id"] if parent else 0, th=parent["th"] if parent else len({p["th"] for p in self.ops}), kind=self.r.choice(("dump", "load")))
            self.ops.append(d)
            for it in o["items"]:
                if it["k"] == "call":
                    self.flat([it["op"]], d)
                    n = next(p for p in self.ops if p["id"] == it["op"]["id"])
                    cls = self.r.choice((callbacks.Data, callbacks.Group, callbacks.Pickled))
                    n["cls"] = cls
                    n["where"] = self.r.choice(callbacks.WHERE[(d["kind"], cls)])

    def build(self, o):
        r = random.Random("%s/%s" % (self.seed, o["id"]))
        lab = "L%d.%d" % (o["id"], self.seed)
        shared = r.choice((lambda: [lab, 1], lambda: {"k": [lab]}, lambda: np.arange(4) + o["id"]))()
        res = [lab, shared]
        for it in o["items"]:
            if it["k"] == "s":
                res.append(shared)
            elif it["k"] == "call":
                n = next(p for p in self.ops if p["id"] == it["op"]["id"])
                res.append(n["cls"](n["id"], lab))
            else:
                fam, ix = self.real[it["k"]]
                res.append(FAMILIES[fam][ix](r, lab))
        return r.choice((lambda: res, lambda: {"a": res, "b": shared}, lambda: (res, shared, {"x": res})))()


def prepare(sc, d):
    warnings.simplefilter("ignore")
    lost_classes()
    callbacks.register()
    for f in sorted({o["f"] for o in sc.ops}):
        p = os.path.join(d, sc.file[f])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        loads = [o for o in sc.ops if o["f"] == f and o["kind"] == "load"]
        for o in loads:
            x = sc.build(o)
            hickle.dump(lose(o["lost"], x) if o["lost"] else x, p, mode="a", path=o["path"])
        if not loads and (sc.how[f] == "handle" or sum(o["f"] == f for o in sc.ops) > 1):
            h5py.File(p, "w").close()
        elif not loads and sc.how[f] == "fobj":
            open(p, "w").close()
    return dict(ok=1)


class Controller:
    """threads run one at a time"""

    def __init__(self, n, opcodes):
        self.cv = threading.Condition()
        self.q = [0] * n
        self.count = [0] * n
        self.go = [False] * n
        self.clock = [None] * n
        self.parked = [False] * n
        self.over = [False] * n
        self.opcodes = opcodes
        self.free = False
        self.blocked = 0

    def tracer(self, t):
        what = "opcode" if self.opcodes else "line"

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PACKAGE):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            if event == what:
                self.count[t] += 1
                self.q[t] -= 1
                if self.q[t] < 0:
                    self.park(t)
            return trace
        return trace

    def park(self, t):
        with self.cv:
            if self.free:
                return
            self.go[t] = False
            self.parked[t] = True
            self.cv.notify_all()
            while not self.go[t]:
                self.cv.wait()
            self.parked[t] = False

    def thread(self, t, fn):
        self.clock[t] = time.pthread_getcpuclockid(threading.get_ident())
        self.park(t)
        sys.settrace(self.tracer(t))
        try:
            fn()
        finally:
            sys.settrace(None)
            with self.cv:
                self.over[t] = True
                self.cv.notify_all()

    def grant(self, t, n):
        self.q[t] = n
        self.go[t] = True
        self.cv.notify_all()

    def run(self, t, n):
        """thread t executes n lines; if it has to wait for one of the others, these go on a little"""
        with self.cv:
            if self.over[t] or self.go[t]:
                return
            self.grant(t, n)
            last, idle = None, 0
            while not self.over[t] and self.go[t]:
                self.cv.wait(.004)
                try:
                    now = (self.count[t], time.clock_gettime(self.clock[t]))
                except OSError:
                    break
                idle = idle + 1 if now == last else 0
                last = now
                if idle >= 2 and not self.over[t] and self.go[t]:      # neither a line nor any cpu time
                    self.blocked += 1
                    others = [u for u in range(len(self.q)) if u != t and not self.over[u] and not self.go[u]]
                    if others:
                        self.grant(others[0], 40)
                    idle = 0

    def wait_parked(self):
        with self.cv:
            while not all(self.parked):
                self.cv.wait(1)

    def release(self):
        """everything runs freely to its end"""
        with self.cv:
            self.free = True
            for t in range(len(self.q)):
                self.q[t] = INF
                self.go[t] = True
            self.cv.notify_all()
            end = time.time() + 30
            while not all(self.over) and time.time() < end:
                self.cv.wait(.2)
            return all(self.over)


def execute(sc, d, sched, gc0, opcodes):
    warnings.simplefilter("ignore")
    os.chdir(d)
    callbacks.register()
    clock = itertools.count(1)
    rec = {o["id"]: dict(id=o["id"], f=o["f"], th=o["th"], kind=o["kind"], start=0, end=0, out="not-run", err="") for o in sc.ops}
    handle, mem = {}, {}
    for f, how in sc.how.items():
        p = os.path.join(d, sc.file[f])
        if how == "handle":
            handle[f] = h5py.File(p, "r+")
        elif how == "mem":
            mem[f] = io.BytesIO(open(p, "rb").read() if os.path.exists(p) else b"")
    objs = {o["id"]: sc.build(o) for o in sc.ops if o["kind"] == "dump"}
    want = {o["id"]: sc.want.get(str(o["id"])) or canonical(sc.build(o)) for o in sc.ops}
    got = {}

    def run_op(o):
        e = rec[o["id"]]
        if e["start"]:
            return
        e["start"] = next(clock)
        how, fo = sc.how[o["f"]], None
        try:
            p = os.path.join(d, sc.file[o["f"]])
            tgt = handle[o["f"]] if how == "handle" else mem[o["f"]] if how == "mem" else pathlib.Path(p) if how == "path" else p
            if how == "fobj":
                tgt = fo = open(p, "r+b")
            if o["kind"] == "dump":
                hickle.dump(objs[o["id"]], tgt, mode=o["mode"], path=o["path"])
                e["out"] = "ok"
            else:
                got[o["id"]] = hickle.load(tgt, path=o["path"])
                e["out"] = "loaded"
        except Exception as x:
            e["out"], e["err"] = "refused", repr(x)[:200]
        finally:
            if fo is not None:
                fo.close()
        e["end"] = next(clock)

    def hook(key, where):
        n = sc.plan.get(key)
        if n is not None and n[1] == where:
            run_op(n[0])
    callbacks.CALL = hook
    tops = [o for o in sc.ops if not o["parent"]]
    ctl = Controller(len(tops), opcodes)
    ths = [threading.Thread(target=ctl.thread, args=(t, lambda o=o: run_op(o)), daemon=True) for t, o in enumerate(tops)]
    (gc.enable if gc0 else gc.disable)()
    for t in ths:
        t.start()
    ctl.wait_parked()
    stuck = False
    for t, n in sched:
        ctl.run(t, n)
    if not ctl.release():
        stuck = True
    gc_ok = gc.isenabled() == gc0
    gc.enable()
    callbacks.CALL = None
    after = True
    for i, e in rec.items():
        if e["out"] == "loaded":
            e["out"] = "same" if view(got[i]) == want[i] else "differs"
            if e["out"] == "differs":
                e["err"] = view(got[i])[:200] + " / " + want[i][:200]
    if not stuck:
        # everything can be used again at once
        for o in sc.ops:
            if o["kind"] != "load" and rec[o["id"]]["out"] != "ok":
                continue
            how = sc.how[o["f"]]
            tgt = handle[o["f"]] if how == "handle" else mem[o["f"]] if how == "mem" else os.path.join(d, sc.file[o["f"]])
            try:
                if view(hickle.load(tgt, path=o["path"])) != want[o["id"]]:
                    after = False
            except Exception as x:
                after = False
                rec[o["id"]]["err"] += "after: " + repr(x)[:200]
    usable = all(bool(h) for h in handle.values())
    for h in handle.values():
        try:
            h.close()
        except Exception:
            usable = False
    left = len(h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)) if not stuck else 0
    for f, m in mem.items():
        with open(os.path.join(d, sc.file[f]), "wb") as g:
            g.write(m.getvalue())
    return dict(ops=list(rec.values()), gc=gc_ok, after=after, usable=usable, left=left, stuck=stuck, counts=ctl.count, blocked=ctl.blocked)


def verify(sc, d, ids):
    """what a fresh process loads"""
    warnings.simplefilter("ignore")
    callbacks.register()
    res = {}
    for o in sc.ops:
        if o["id"] in ids:
            try:
                res[str(o["id"])] = canonical(hickle.load(os.path.join(d, sc.file[o["f"]]), path=o["path"])) == canonical(sc.build(o))
            except Exception as x:
                res[str(o["id"])] = False
    return res


def once(sc, base, work, sched, gc0, opcodes):
    shutil.copytree(base, work)
    try:
        r = in_child(execute, sc, work, sched, gc0, opcodes, timeout=60)
        if "ops" not in r:
            r.update(ops=[dict(id=o["id"], f=o["f"], th=o["th"], kind=o["kind"], start=1, end=2, out="crashed", err="") for o in sc.ops], gc=True, after=True, usable=True, left=0, stuck=True, counts=[], blocked=0)
        ids = [e["id"] for e in r["ops"] if e["out"] == "ok"]
        if ids:
            v = in_child(verify, sc, work, ids)
            for e in r["ops"]:
                if e["id"] in ids:
                    e["out"] = "same" if v.get(str(e["id"])) else "differs"
        return r
    finally:
        shutil.rmtree(work, True)


def run(job, d):
    shutil.rmtree(d, True)
    os.makedirs(d)
    sc = Scenario(job["ops"], job["seed"])
    base = os.path.join(d, "base")
    os.makedirs(base)
    in_child(prepare, sc, base)
    if any(o["lost"] for o in sc.ops):
        sc.want = in_child(alone, sc, base)
    r = random.Random(job["seed"] * 7 + 1)
    n = len([o for o in sc.ops if not o["parent"]])
    opc = job.get("opcodes", False)
    scheds = job.get("scheds")
    runs = []
    if scheds is None:
        first = once(sc, base, os.path.join(d, "w"), [[t, INF] for t in range(n)], True, opc)
        runs.append(dict(first, sched=[[t, INF] for t in range(n)], gc0=True))
        cnt = first["counts"] or [1] * n
        scheds = []
        if n > 1:
            for _ in range(job["num"]):
                a, b = r.sample(range(n), 2)
                k = [r.randrange(1, max(2, c)) for c in cnt]
                pick = r.random()
                if pick < .4:
                    s = [[a, k[a]], [b, INF]]
                elif pick < .7:
                    s = [[a, k[a]], [b, k[b]], [a, INF]]
                elif pick < .8:
                    s = [[a, k[a]], [b, k[b]], [a, r.randrange(1, 60)], [b, INF]]
                else:
                    s = [[r.randrange(n), r.choice((1, 2, 5, 20, 60))] for _ in range(60)]
                scheds.append([s, r.random() < .8])
    for s, g in scheds:
        x = once(sc, base, os.path.join(d, "w"), s, g, opc)
        if x["stuck"] and x["counts"]:          # not just slow: the same schedule gets stuck again
            x = once(sc, base, os.path.join(d, "w"), s, g, opc)
        runs.append(dict(x, sched=s, gc0=g))
    return dict(out="ok", runs=runs, how={f: "%s %s" % (sc.how[f], sc.file[f]) for f in sc.how}, real={k: v[0] for k, v in sc.real.items()},
                kinds={str(o["id"]): (o["kind"], o["path"], o.get("where", "")) for o in sc.ops})


def main():
    fin, fout, work = sys.argv[1:4]
    with open(fin) as f, open(fout, "w") as out:
        for line in f:
            out.write(json.dumps(run(json.loads(line), os.path.join(work, "o"))) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
