"""P18: files whose classes, modules or loaders are not available any more."""
import io, json, os, random, signal, sys, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
sys.setrecursionlimit(3000)
try:
    import numpy as np, h5py
    import hickle
    from hickle.lookup import DataRecoveredWarning
    from hv import cases, gen, layout, vanish, rt_worker
    from hv.capture import capture
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(97)

ATTRS = [dict(), dict(u="x"), dict(n=5), dict(a=np.arange(3.), s="é日"), dict(b=b"raw"), dict(f=2.5, t=True), dict(l=["a", "b"]), dict(unit="m", index=7), dict(e=h5py.Empty("f8")), dict(number=3), dict(kind=b"x", name="q"), dict(long="x" * 300)]
DATA = [lambda r: "text", lambda r: "é日\u0000x".replace("\x00", ""), lambda r: b"ab", lambda r: h5py.Empty("f4"), lambda r: np.arange(6).reshape(2, 3), lambda r: np.array([(1, 2.)], dtype="i4,f8"), lambda r: 5, lambda r: 2.5, lambda r: np.zeros((0, 3)),
        lambda r: np.array(["a", "bcd"], dtype=h5py.string_dtype()), lambda r: np.float32(1.5), lambda r: np.array([True, False]), lambda r: np.array([1 + 2j]), lambda r: np.array([b"a", b"bc"]), lambda r: gen.rplain(r, r.choice(("<i4", ">f8", "<u2", "<f4")), r.choice(((3,), (2, 2), (1,)))),
        lambda r: np.asfortranarray(np.arange(6.).reshape(2, 3)), lambda r: np.array(7, dtype=">i2"), lambda r: h5py.Empty("i1"), lambda r: np.void(b"opaque")]
NAMES = ("x", "y", "data0", "member", "é", "1", "type_name", "m 1")


class Builder:
    def __init__(self, r, flavour):
        self.r = r
        self.v = {f: vanish.classes(f) for f in ([flavour] if flavour else vanish.FLAVOURS)}

    def c(self):
        return self.v[self.r.choice(sorted(self.v))]

    def data(self, lost=None):
        r = self.r
        c = self.c().LostData if (r.random() < .4 if lost is None else lost) else vanish.Data
        return c(r.choice(DATA)(r), r.choice(ATTRS))

    def group(self, members):
        r = self.r
        c = self.c().LostGroup if r.random() < .4 else vanish.Group
        names = [NAMES[j] if j < len(NAMES) else "z%d" % j for j in range(len(members))]
        r.shuffle(names)
        return c([(n, m, r.choice(ATTRS)) for n, m in zip(names, members)], r.choice(ATTRS))

    def arr(self):
        r = self.r
        a = r.choice((lambda: gen.rplain(r, r.choice(("<f8", "<i4", "?", ">u2", "<c16")), r.choice(((3,), (2, 2), (0,), (), (1, 0, 2)))), lambda: np.array(["ab", "é"]), lambda: np.array([b"x", b"yz"]), lambda: cases.objarray([1, "c", None])))()
        return np.asarray(a).view(self.c().Arr)

    def obj(self):
        r = self.r
        x = self.c().Obj(r.choice((lambda: gen.rscalar(r), lambda: [1, 2], lambda: gen.Point(1, 2), lambda: np.arange(3)))())
        m = r.random()
        return x if m < .8 else gen.Point(1, [x]) if m < .9 else frozenset((x, 1))

    def any(self):
        r = self.r
        c = self.c()
        return r.choice((self.obj, self.obj, self.arr, self.data, lambda: c.Str(gen.rtext(r)), lambda: c.Bytes(gen.rbytes(r)), lambda: c.Int(r.randrange(-99, 99)), lambda: c.Float(2.5),
                         lambda: c.List([1, "a"]), lambda: c.List([1, 2]), lambda: c.List(), lambda: c.Tuple((1, "x")), lambda: c.Tuple(), lambda: c.Set([1, "x"]), lambda: c.Set(), lambda: c.Dict(), lambda: c.Dict({"k": 1, 2: c.Str("v")}),
                         lambda: self.group([gen.rscalar(r) for _ in range(r.randrange(4))]), lambda: c.Csr(np.eye(2)), lambda: c.Obj, lambda: [c.Obj, c.List]))()

    def hashable(self):
        r = self.r
        c = self.c()
        return r.choice((lambda: c.Obj(1), lambda: c.Tuple((1, "x")), lambda: c.Str(gen.rtext(r)), lambda: c.Int(r.randrange(99)), lambda: (1, c.Tuple((2, "q"))), lambda: c.Bytes(gen.rbytes(r))))()

    def leaf(self, r):
        return self.any() if r.random() < .35 else gen.mixed_leaf(r)

    def struct(self, depth):
        r = self.r
        m = r.random()
        c = self.c()
        if depth == 0 or m < .1:
            return self.any() if r.random() < .5 else gen.mixed_leaf(r)
        kids = lambda: [self.struct(depth - 1) for _ in range(r.randrange(1, 4))]
        if m < .4:
            return r.choice((list, tuple, c.List, c.Tuple))(kids())
        if m < .7:
            d = {}
            for x in kids():
                k = gen.rkey(r) if r.random() < .6 else self.hashable() if r.random() < .5 else gen.rtext(r)
                if gen.usable_key(d, k):
                    d[k] = x
            return r.choice((dict, c.Dict))(d)
        if m < .8:
            return r.choice((set, c.Set))([self.hashable() for _ in range(r.randrange(1, 3))] + ["m"])
        if m < .9:
            return self.group(kids())
        if m < .95:
            return cases.objarray(kids())
        k = kids()
        k.append(k[0])
        return r.choice((list, c.List))(k)

    def graph(self, heap):
        """object described by a graph of MCRecover"""
        r, memo = self.r, {}

        def make(j):
            if j in memo:
                return memo[j]
            d = heap[j - 1]
            t, k = d["t"], d["k"]
            c = self.c()
            if t == "gone.Str": x = c.Str(gen.rtext(r))
            elif k == "leaf": x = {"int": lambda: r.randrange(-50, 10 ** 6), "str": lambda: gen.rtext(r), "tuple": lambda: (), "NoneType": lambda: None}[t]()
            elif t == "gone.Arr": x = self.arr()
            elif k == "arr": x = gen.rarray(r, True)
            elif t == "gone.Obj": x = c.Obj(gen.rscalar(r))
            elif k == "obj": x = gen.Hashed(r.randrange(10 ** 9))
            elif t == "cust.Data": x = self.data(False)
            else:
                kids = [make(z) for z in d["c"]]
                if t == "cust.Group": x = self.group(kids)
                elif k == "seq": x = {"list": list, "tuple": tuple, "gone.List": c.List, "gone.Tuple": c.Tuple}[t](kids)
                elif k == "set": x = {"set": set, "gone.Set": c.Set}[t](kids)
                else: x = {"dict": dict, "gone.Dict": c.Dict}[t](list(zip(kids[::2], kids[1::2])))
            memo[j] = x
            return x
        return make(1)

    def special(self, i):
        r = self.r
        c = self.c()
        o, o2 = c.Obj(3), c.Obj(4)
        d = c.Dict(a=[1, "r"])
        A = lambda x: np.asarray(x).view(c.Arr)
        S = [lambda: o, lambda: [o, o, "y"], lambda: {o: 1, "b": 2}, lambda: {o, "b"}, lambda: cases.objarray([o, 1, None]), lambda: cases.objarray([o, o2]), lambda: cases.objarray([A([1, 2]), A([3, 4])]),
             lambda: cases.objarray([A([1, 2]), None, A([3, 4])]), lambda: np.array([[o, 1], [2, o2]], dtype=object), lambda: {c.Tuple((1, 2)): "v"}, lambda: {c.Tuple((1, 2)), c.Tuple(("a",))}, lambda: {c.Str("q"): 1, "b": 2}, lambda: {c.Int(4): 1},
             lambda: {"a": [c.Dict(x=c.Tuple((1, "z"))), "keep"], "b": {1: self.group([(1, 2)])}}, lambda: [d, c.List([d, 1, "x"]), d], lambda: [c.Dict, c.Obj], lambda: {"k": c.Dict}, lambda: c.List(["a"] * 12), lambda: c.Dict({3: d, 4: d, "k": [d]}),
             lambda: np.ma.array(A([1., 2, 3]), mask=[0, 1, 0]), lambda: [c.Csr(np.eye(3)), c.Csr((2, 2))], lambda: A(np.zeros((0, 3))), lambda: A(5), lambda: A(["ab", "c"]), lambda: A(np.array([1, "c"], dtype=object)), lambda: A(np.asfortranarray(np.arange(6.).reshape(2, 3))),
             lambda: [c.Str(""), c.Bytes(b""), c.List(), c.Tuple(), c.Set(), c.Dict()], lambda: [self.group([self.group([self.data(), d]), d]), d], lambda: [x(r) if False else vanish.Data(x(r), a) for x in DATA for a in ATTRS[:3]],
             lambda: vanish.Group([(n, vanish.Data(x(r)), a) for n, x, a in zip(NAMES, DATA, ATTRS)]), lambda: c.List([[c.Dict(), {"x": c.List([o])}], (o, 2)]), lambda: gen.Point(o, [o]), lambda: [1.5, c.Float(2.5), c.Int(3)], lambda: c.Int(7), lambda: c.List([1, 2, 3]),
             lambda: [gen.Pair(o, d), d], lambda: c.Dict({("t", 1): o, None: d, b"k": 1, 1.5: 2, True: 3}), lambda: (o,), lambda: {"only": self.data(True)}, lambda: {"é/日": c.Dict({"a/b": 1, "\\": 2})}, lambda: [c.Set([1, 2, 3]), c.Tuple((1.5, 2.5))], lambda: [self.group([]), self.group([None])],
             lambda: cases.objarray([self.group([1]), self.group([2])]), lambda: cases.objarray([c.List([1, "a"]), c.List([2, "b"])]), lambda: cases.objarray([c.Str("a"), c.Str("b")])]
        return S[i % len(S)]()


NSPECIAL = 45


def dump(job, path):
    """runs in a process of its own; returns 0 if the file is complete"""
    seed = json.dumps(job, sort_keys=True)
    r = random.Random(seed)
    warnings.simplefilter("ignore")
    if job.get("base"):     # nothing vanishes
        o = rt_worker.build(job["base"])[0]
        hickle.dump(o, path, mode="w")
        return 0
    b = Builder(r, job.get("flavour"))
    option = job.get("option")
    kw = {}
    for f, v in b.v.items():
        vanish.loaders(v, option, True)
    if option:
        kw["options"] = {option: True}
    if job.get("z"):
        kw.update(compression="gzip")
    o = b.graph(job["h"]) if "h" in job else b.special(job["i"]) if job["k"] == "special" else b.struct(job.get("d", 3))
    hickle.dump(o, path, mode="w", path=job.get("where", "/"), **kw)
    return 0


def load(job, path, rec):
    how, where = job.get("how", "name"), job.get("where", "/")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            if how == "mem":
                o = hickle.load(io.BytesIO(open(path, "rb").read()), path=where)
            elif how == "group":
                with h5py.File(path, "r") as f:
                    o = hickle.load(f[where])
            elif how in ("handle", "r+"):
                with h5py.File(path, "r" if how == "handle" else "r+") as f:
                    o = hickle.load(f, path=where)
            else:
                o = hickle.load(path, path=where)
        except Exception as e:
            rec["out"], rec["exc"], rec["msg"] = "refused", type(e).__name__, repr(e)[:200]
        else:
            rec["out"], rec["exc"], rec["back"] = "ok", "", capture(o)
            rec["warn"] = "yes" if any(issubclass(w.category, DataRecoveredWarning) for w in ws) else "no"
    return rec


def outcome(job, work):
    path = os.path.join(work, "f.hkl")
    rec = dict(intact=False, ident=True, must="ok", orig=[], mark=False, tree=[], back=[], open=True)
    try:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                code = dump(job, path)
            except BaseException as e:
                if os.environ.get("HV_DEBUG"):
                    import traceback
                    traceback.print_exc()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            return dict(out="skip")
        rec.update(layout.read(path, job.get("where", "/")))
        rec["lost"] = sum(x["typ"] == "lost" or x["gone"] or x["base"].startswith("cust.") for x in rec["tree"])
        if job.get("more"):     # the file goes on being used
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    hickle.dump({"more": [1, "x"]}, path, mode="a", path="/hv_more")
            except Exception as e:
                rec["out"], rec["exc"], rec["msg"] = "refused", type(e).__name__, repr(e)[:200]
                return rec
        return load(job, path, rec)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def main():
    fin, fout, work = sys.argv[1:4]
    signal.signal(signal.SIGALRM, rt_worker.on_alarm)
    vanish.remains(work)
    with open(fout, "a") as out:
        for line in open(fin):
            job = json.loads(line)
            signal.alarm(100)
            try:
                rec = outcome(job, work)
            except rt_worker.Hung:
                rec = dict(out="timeout")
            finally:
                signal.alarm(0)
            out.write(json.dumps(rec) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
