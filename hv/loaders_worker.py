"""P17: histories of registrations, dumps and loads, executed."""
import importlib, io, json, os, random, shutil, sys, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
try:
    import numpy as np, h5py
    import hickle
    from hickle.helpers import NotHicklable, PyContainer
    from hickle.lookup import AttemptRecoverCustom, LoaderManager
    from hv.session_worker import in_child
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(97)

PK = '''
class Base:
    def __init__(self, v=None):
        self.v = v
class P(Base): pass
class Q(P): pass
class N(P): pass
class R(Q): pass
'''
DIRECT = '''
import hv_pk
class A:
    def __init__(self, v=None):
        self.v = v
class B(A): pass
class C(B): pass
class Y:
    def __init__(self, v=None):
        self.v = v
class Z(Y, A): pass
class L(list): pass
class M(L): pass
class D(dict): pass
class X(hv_pk.Q): pass
class V(A, hv_pk.P): pass
class Meta(type): pass
def function(): pass
'''
LOADER = '''
from hv.loaders_worker import pair
import hv_pk
def reg(c, base, id, kind, option):
    d, l, k = pair(id, kind)
    return [c, base, d, l, k, True, option]
class_register = [reg(hv_pk.P, b"pkP", "mP", "data", None), reg(hv_pk.Q, b"pkQ", "mQ", "group", "custom"), reg(hv_pk.N, b"pkN", "mN", "data", "custom")]
exclude_register = []
'''
WHO, KEEP = {}, []        # id of a loaded object -> who restored it


def value(o):
    return list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else o.v


def restored(cls, text, who):
    o = cls(json.loads(text))
    KEEP.append(o)
    WHO[id(o)] = who
    return o


def pair(ident, kind):
    """dump function, load function, container class of a loader"""
    def dump_data(o, h_group, name, **kwargs):
        d = h_group.create_dataset(name, data=json.dumps(value(o)))
        d.attrs["by"] = ident
        return d, ()

    def load_data(h_node, base_type, py_obj_type):
        return restored(py_obj_type, h_node[()], ident)

    def dump_group(o, h_group, name, **kwargs):
        g = h_group.create_group(name)
        g.attrs["by"] = ident
        return g, [("content", json.dumps(value(o)), {}, kwargs)]

    class Container(PyContainer):
        def convert(self):
            return restored(self.object_type, self._content[0], ident)

    def unfit(o, h_group, name, **kwargs):
        raise NotHicklable("not this one")
    return dict(data=(dump_data, load_data, None), group=(dump_group, None, Container), unfit=(unfit, None, None))[kind]


def prepare(work):
    d = os.path.join(work, "lib")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "hickle_loaders"))
        for name, text in (("hv_pk.py", PK), ("hv_direct.py", DIRECT), ("hickle_loaders/load_hv_pk.py", LOADER)):
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
    if d not in sys.path:
        sys.path.insert(0, d)
    sys.modules.setdefault("hv.loaders_worker", sys.modules[__name__])      # this is __main__
    return importlib.import_module("hv_direct"), importlib.import_module("hv_pk")


class Proc:
    def __init__(self, job, root):
        self.job, self.root = job, root
        self.direct, self.pk = sys.modules["hv_direct"], sys.modules["hv_pk"]
        self.r = random.Random("%s/%s" % (job["seed"], json.dumps(job["h"])))

    def cls(self, c):
        if c in ("list", "dict", "object", "type"):
            return __import__("builtins").__dict__[c]
        if c in ("builtin", "method"):
            return len if c == "builtin" else pair
        return getattr(self.pk if c in "PQNR" else self.direct, c)

    def content(self, n, p, c):
        r = random.Random("%s/%s/%s" % (self.job["seed"], n, p))
        v = r.choice((5, "text", [1, "x"], {"k": 2.5}, None, "é", []))
        if c in ("L", "M", "list"):
            return [r.choice((1, "a", 2.5)), "x"][:r.choice((0, 1, 2, 2))]
        if c in ("D", "dict"):
            return {"k": r.choice((5, "text", 2.5))} if r.random() < .8 else {}
        return v

    def place(self, n):
        """file and path of the object dumped by operation n"""
        how = random.Random("%s/%s" % (self.job["seed"], n)).choice(("own", "own", "handle", "shared", "shared", "root"))
        if how == "own" or how == "handle":
            return how, os.path.join(self.root, "f%d.hkl" % n), "/"
        return how, os.path.join(self.root, "shared.hkl"), "/p%d/q" % n

    def reg(self, o, n):
        base = o["base"]
        d, l, k = pair(o["id"], o["kind"])
        LoaderManager.register_class(self.cls(o["c"]), base if n % 3 == 0 else base.encode(), d, l, k, o["memo"], None if o["opt"] == "none" else o["opt"])

    def excl(self, o, n):
        LoaderManager.register_class_exclude(o["base"] if n % 3 == 0 else o["base"].encode(), None if o["opt"] == "none" else o["opt"])

    def members(self, n):
        o = self.job["h"][n]
        mem = []
        for p, m in enumerate(o["mem"]):
            mem.append(mem[m["same"] - 1] if m["same"] else self.cls(m["c"])(self.content(n, p, m["c"])))
        return mem

    def dump(self, o, n):
        r = self.r
        opts = {x: r.choice((True, True, 1, "yes", np.True_)) for x in o["opts"]}
        if "custom" not in opts and r.random() < .5:
            opts["custom"] = r.choice((False, 0, None, ""))
        items = list(opts.items())
        r.shuffle(items)
        opts = dict(items) if items or r.random() < .5 else None
        how, path, where = self.place(n)
        mem = tuple(self.members(n))
        kw = {} if opts is None else dict(options=opts)
        if how == "handle":
            with h5py.File(path, "w") as h:
                hickle.dump(mem, h, **kw)
        elif how == "own":
            hickle.dump(mem, path, mode="w", **kw)
        else:
            hickle.dump(mem, path, mode="a", path=where, **kw)
        return dict(nodes=self.nodes(path, where))

    def nodes(self, path, where):
        res = []
        with h5py.File(path, "r") as f:
            top = f[where]["data"]
            if not isinstance(top, h5py.Group):
                return [] if not top.shape or top.shape[0] == 0 else [dict(base="?", by="?", ref=False)]
            kids = sorted(top.values(), key=lambda x: x.attrs["item_index"])
            for k in kids:
                base = "!node-reference!" if isinstance(k, h5py.Dataset) and h5py.check_ref_dtype(k.dtype) else "pickle"
                if "type" in k.attrs:
                    e = f[k.attrs["type"]]
                    if "base_type" in e.attrs:
                        base = f[e.attrs["base_type"]].name.rsplit("/", 1)[-1]
                res.append(dict(base=base, by=str(k.attrs.get("by", "")), ref=base == "!node-reference!"))
        return res

    def load(self, o, n, at):
        how, path, where = self.place(at)
        if how == "handle":
            with h5py.File(path, "r") as h:
                got = hickle.load(h)
        else:
            got = hickle.load(path, path=where)
        spec = self.job["h"][at]["mem"]
        res = []
        for p, x in enumerate(got):
            c = spec[p]["c"] if p < len(spec) else "?"
            t, ok = type(x).__name__, False
            if x is None or isinstance(x, tuple):
                t = "nothing"
            elif isinstance(x, AttemptRecoverCustom):
                t = "recovered"
            elif p < len(spec) and type(x) is self.cls(c):
                src = spec[p]["same"] - 1 if spec[p]["same"] else p
                v, w = value(x), self.content(at, src, c)
                ok = type(v) is type(w) and v == w
            same = p < len(spec) and spec[p]["same"] > 0 and x is got[spec[p]["same"] - 1]
            res.append(dict(t=t, by=WHO.get(id(x), ""), ok=bool(ok), same=bool(same)))
        return dict(items=res, sames=[m["same"] for m in spec])


def segment(job, root, start, end, replay, files):
    """executes operations start..end in this process after repeating the registrations in replay"""
    warnings.simplefilter("ignore")
    p = Proc(job, root)
    h = job["h"]
    for n in replay:
        try:
            (p.reg if h[n]["op"] == "reg" else p.excl)(h[n], n)
        except Exception:
            pass
    ev = []
    for n in range(start, end):
        o = h[n]
        e = dict(op=o, out="ok", nodes=[], items=[], sames=[])
        try:
            if o["op"] == "load":
                e.update(p.load(o, n, files[o["f"] - 1]))
            else:
                e.update(getattr(p, o["op"])(o, n) or {})
        except Exception as x:
            e.update(out="refused", msg=repr(x)[:300])
        if o["op"] == "dump" and set(o["opts"]) <= {"custom"}:
            files.append(n)
        ev.append(e)
    return dict(out="ok", ev=ev, files=files)


def history(job, work):
    root = os.path.join(work, "hist")
    shutil.rmtree(root, True)
    os.makedirs(root)
    h, ev, files, replay, start = job["h"], [], [], [], 0
    for end in range(len(h) + 1):
        if end < len(h) and h[end]["op"] not in ("fresh", "bare"):
            continue
        if end > start:
            r = in_child(segment, job, root, start, end, replay, files)
            if r["out"] != "ok":
                return dict(out=r["out"], ev=[], msg=str(r)[:300])
            ev += r["ev"]
            files = r["files"]
        replay += [n for n in range(start, end) if h[n]["op"] in ("reg", "excl")]
        if end < len(h):
            ev.append(dict(op=h[end], out="ok", nodes=[], items=[], sames=[]))
            if h[end]["op"] == "bare":
                replay = []
        start = end + 1
    return dict(out="ok", ev=ev)


def main():
    fin, fout, work = sys.argv[1:4]
    prepare(work)
    with open(fout, "a") as out:
        for line in open(fin):
            out.write(json.dumps(history(json.loads(line), work)) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
