"""Writes files of the hickle 5 layout with h5py alone, following a plan of spec/HickleForeign.tla."""
import pickle, random
import h5py, numpy as np
from hv.gen import INTS, FLOATS, TEXTS, BYTES, Point, rarray, rint, rfloat, rtext, rbytes, nice


class Unfit(Exception):
    """the values drawn do not fit the plan"""


def values(heap, r, rich=False):
    """Python objects for the nodes of an object graph; leaves are pairwise different"""
    memo, used = {}, []

    def fresh(draw):
        for _ in range(200):
            x = draw()
            if x == x and not any(equal(x, y) for y in used):
                used.append(x)
                return x
        raise Unfit()

    def leaf(d):
        t = d["t"]
        if t == "NoneType": return None
        if t == "tuple": return ()
        return fresh({
            "int": lambda: r.choice((rint(r), r.choice(INTS), r.randrange(-3, 100))),
            "float": lambda: nice(r.choice((rfloat(r), r.choice(FLOATS)))),
            "str": lambda: r.choice(("a/b", "/", "a\\b", "\\", "x\x00y", "/data0", "\x00", "b/c/d", "q\\")) if d["v"] == "'/" else
                   r.choice(("data0", "data1", "data", "hickle_types_table", '"data0"', "0", "data10", "1")) if d["v"] == "'data0" else
                   r.choice([x for x in (rtext(r), r.choice(TEXTS), "t%d" % r.randrange(99)) if not set("/\\\0") & set(x)] or ["u%d" % r.randrange(999)]),
            "bytes": lambda: r.choice([x for x in (rbytes(r), r.choice(BYTES), b"t%d" % r.randrange(99)) if not set(b"/\\\0") & set(x) and ok_utf8(x)] or [b"u%d" % r.randrange(999)]),
            "numpy.int64": lambda: r.choice((np.int64(rint(r) % 2 ** 63), np.float32(r.randrange(99) + .5), np.uint8(r.randrange(250)), np.int16(-5 - r.randrange(99)), np.float64(r.random()), np.complex64(1j + r.randrange(9)))),
        }[t])

    def make(j):
        if j in memo:
            return memo[j]
        d = heap[j - 1]
        k = d["k"]
        if k == "leaf": x = leaf(d)
        elif k == "arr": x = array(r)
        elif k == "obj": x = Point(rint(r), rtext(r))
        elif k == "seq": x = {"list": list, "tuple": tuple}[d["t"]](make(c) for c in d["c"])
        elif k == "set":
            x = set(make(c) for c in d["c"])
            if len(x) != len(d["c"]): raise Unfit()
        else:
            x = {}
            for p in range(0, len(d["c"]), 2):
                key = make(d["c"][p])
                if key in x: raise Unfit()
                x[key] = make(d["c"][p + 1])
        memo[j] = x
        return x

    make(1)
    for j in range(1, len(heap) + 1):
        make(j)
    return memo


def equal(x, y):
    try:
        return bool(x == y)
    except OverflowError:       # NumPy scalars and huge integers
        return False


def ok_utf8(b):
    try:
        b.decode("utf8")
        return True
    except UnicodeError:
        return False


def array(r):
    import scipy.sparse as sp
    m = r.randrange(6)
    if m == 0:
        return np.ma.array(np.arange(4.) * r.random(), mask=[r.random() < .5 for _ in range(4)])
    if m == 1:
        return r.choice((sp.csr_matrix, sp.csc_matrix))(np.array([[0, r.randrange(1, 9), 0], [0, 0, r.randrange(1, 9)]]))
    while True:
        a = rarray(r, True)
        if isinstance(a, np.ndarray) and type(a) is np.ndarray and a.dtype.kind in "biufc":
            return a


class Writer:
    def __init__(self, root, r):
        self.root, self.r = root, r
        self.table = None
        self.types = {}
        self.bases = {}
        self.late = []
        self.opts = [dict(), dict(), dict(compression="gzip"), dict(chunks=True, shuffle=True)][r.randrange(4)]

    def prepare(self, classes):
        """creates the type table, entries in any order"""
        r = self.r
        self.table = self.root.create_group("hickle_types_table", track_order=r.random() < .5)
        pairs = sorted(classes, key=lambda c: (c[0].__module__, c[0].__qualname__))
        for extra in ((complex, "complex"), (bool, "bool")):        # entries nothing refers to
            if r.random() < .3 and extra not in pairs:
                pairs.append(extra)
        r.shuffle(pairs)
        todo = [("b", b) for b in sorted({b for _, b in pairs})] + [("t", c) for c in pairs]
        r.shuffle(todo)
        attrs = []
        for kind, c in todo:
            if kind == "b":
                self.bases[c] = self.table.create_dataset(c, shape=None, dtype="S1")
            else:
                data = np.frombuffer(pickle.dumps(c[0], protocol=r.choice((2, 3, 4))), dtype="S1")
                data = np.array(bytearray(pickle.dumps(c[0], protocol=r.choice((2, 3, 4)))), dtype="u1").view("S1")
                e = self.table.create_dataset(str(len(self.table)), data=data, shape=(1, data.size))
                self.types[c[0]] = e
                attrs.append((e, c[1]))
        for e, b in attrs:
            e.attrs["base_type"] = self.bases[b].ref

    def typed(self, h, cls, base, attrs):
        a = list(attrs.items()) + [("type", self.types[cls].ref)]
        self.r.shuffle(a)
        for k, v in a:
            h.attrs[k] = v
        return h

    def dataset(self, g, name, **kw):
        shape = np.shape(kw["data"]) if kw.get("shape", 0) == 0 and "data" in kw else kw.get("shape")
        return g.create_dataset(name, **kw, **(self.opts if shape and all(shape) else {}))

    def group(self, g, name):
        return g.create_group(name, track_order=self.r.random() < .6)

    @staticmethod
    def kind(x):
        """(class, base type), None for pickled objects"""
        import scipy.sparse as sp
        c = x.__class__
        if c in (int, float, complex, bool, str, bytes, list, tuple, set, dict): return c, c.__name__
        if x is None: return c, "None"
        if isinstance(x, np.generic): return c, "np_scalar"
        if isinstance(x, np.dtype): return c, "np_dtype"
        if isinstance(x, np.ma.MaskedArray): return c, "ndarray_masked"
        if isinstance(x, np.ndarray): return c, "ndarray"
        if sp.issparse(x): return c, c.__name__
        return None

    @staticmethod
    def needs(x):
        """pairs of class and base type of parts of x"""
        import scipy.sparse as sp
        if isinstance(x, np.ma.MaskedArray): return {(np.ndarray, "ndarray")}
        if sp.issparse(x): return {(np.ndarray, "ndarray"), (tuple, "tuple")}
        return set()

    def value(self, g, name, x, attrs, form):
        """writes an object (not the members of lists, tuples, sets and dicts stored as groups)"""
        import scipy.sparse as sp
        k = self.kind(x)
        if k is None:
            d = self.dataset(g, name, data=np.frombuffer(pickle.dumps(x), dtype="u1"))
            for a, v in attrs.items():
                d.attrs[a] = v
            return d
        cls, base = k
        put = lambda h: self.typed(h, cls, base, attrs)
        if base in ("list", "tuple", "set"):
            if form == "group":
                h = self.group(g, name)
                h.attrs["num_items"] = len(x)
                return put(h)
            if not len(x):
                return put(g.create_dataset(name, shape=None, dtype=int))
            dt = np.result_type(*[np.dtype(type(y)) for y in x])
            if dt.kind not in "biufc":
                raise Unfit()
            a = np.zeros(len(x), dtype=dt)
            for j, y in enumerate(x):
                try:
                    a[j] = y
                except OverflowError:
                    raise Unfit()
                if not (a[j] == y and int_exact(a[j], y)):
                    raise Unfit()
            return put(self.dataset(g, name, data=a))
        if base == "dict":
            return put(self.group(g, name))
        if base in ("str", "bytes"):
            b = np.frombuffer(x.encode("utf8") if base == "str" else x, dtype="u1").view("S1")
            d = self.dataset(g, name, data=b, shape=(1, b.size)) if b.size else g.create_dataset(name, data=b, shape=(1, 0))
            d.attrs["str_type"] = base.encode()
            return put(d)
        if base == "None":
            return put(g.create_dataset(name, shape=None, dtype="V1"))
        if base == "int" and x.bit_length() > 63:
            return put(self.dataset(g, name, data=np.frombuffer(str(x).encode(), dtype="u1")))
        if base in ("int", "float", "complex", "bool"):
            return put(g.create_dataset(name, data=x))
        if base == "np_scalar":
            d = g.create_dataset(name, data=x)
            d.attrs["np_dtype"] = x.dtype.str.encode()
            return put(d)
        if base == "ndarray":
            d = self.dataset(g, name, data=x)
            d.attrs["np_dtype"] = x.dtype.str.encode()
            return put(d)
        h = self.group(g, name)
        if base == "ndarray_masked":
            h.attrs["np_dtype"] = x.dtype.str.encode()
            parts = [("data", x.data), ("mask", np.ma.getmaskarray(x))]
        else:
            parts = [("data", x.data), ("indices", x.indices), ("indptr", x.indptr), ("shape", x.shape)]
        self.r.shuffle(parts)
        for n, y in parts:
            self.value(h, n, y, {}, "data")
        return put(h)


def int_exact(a, b):
    import numbers
    try:
        return int(a.real) == int(b.real) if isinstance(b, (int, np.integer)) else True
    except Exception:
        return False


def key_name(key, kidx):
    """link name and key base type of a dict entry, None if the entry is stored as a pair"""
    c = key.__class__
    if c is str and not set("/\\\0") & set(key):
        return '"%s"' % key, "str"
    if c is bytes and not set(b"/\\\0") & set(key) and ok_utf8(key):
        return 'b"%s"' % key.decode("utf8"), "bytes"
    if c in (int, float, bool, complex, type(None)):
        return repr(key), c.__name__
    return "data%d" % kidx, "key_value"


def write(path, doc, r, where="/"):
    """executes the plan of doc; returns the root object"""
    heap, plan = doc["obj"], doc["plan"]
    vals = values(heap, r)
    mode = "w"
    with h5py.File(path, mode) as f:
        root = f if where == "/" else f.create_group(where)
        w = Writer(root, r)
        classes = set()
        for x in vals.values():
            k = w.kind(x)
            if k:
                classes.add(k)
            classes |= w.needs(x)
        classes.add((tuple, "tuple"))
        if r.random() < .5:
            w.prepare(classes)
            early = True
        else:
            w.prepare(classes)
        nodes, where_obj = [], {}
        style = r.choice([lambda i: "data%d" % i] * 3 + [lambda i: "item%d" % (9 - i), lambda i: "data_%d" % ((i + 1) % 10), lambda i: "abcdefghij"[i], lambda i: "data%d" % (i ^ 1)])
        for st in plan:
            up = nodes[st["up"] - 1] if st["up"] else None
            g = up[0] if up else root
            attrs = {}
            if st["idx"] >= 0:
                # the index attribute tells where an item belongs, its name is arbitrary
                name = style(st["idx"])
                attrs["item_index"] = st["idx"]
            elif st["kidx"] >= 0:
                key = st["pair"][0] if st["pair"] else None
                d = heap[up[1] - 1]
                kn = d["c"][2 * st["kidx"]]
                name, kbt = key_name(vals[kn], st["kidx"])
                if (kbt == "key_value") != bool(st["pair"]):
                    raise Unfit()
                attrs["key_idx"] = st["kidx"]
                attrs["key_base_type"] = kbt.encode()
            else:
                name = "data"
            if st["form"] == "ref":
                h = g.create_dataset(name, data=where_obj[st["o"]].ref, dtype=h5py.ref_dtype)
                for k, v in attrs.items():
                    h.attrs[k] = v
                nodes.append((h, st["o"]))
                continue
            x = tuple(vals[p] for p in st["pair"]) if st["pair"] else vals[st["o"]]
            h = w.value(g, name, x, attrs, st["form"])
            nodes.append((h, st["o"]))
            if not st["pair"]:
                where_obj.setdefault(st["o"], h)
        root.attrs["HICKLE_VERSION"] = r.choice(("5.0.0", "5.0.2", "5.0.3", "5.0.0.dev0", "5.1.0"))
        root.attrs["HICKLE_PYTHON_VERSION"] = r.choice(("3.7.2", "3.12.1"))
        cut(root, doc, nodes)
    return vals[1]


def cut(root, doc, nodes):
    """removes the piece of the file the plan names"""
    what = doc["what"]
    if not what:
        return
    if what == "mark":
        del root.attrs[random.Random(str(len(nodes))).choice(("HICKLE_VERSION", "HICKLE_PYTHON_VERSION"))]
        return
    if what == "data":
        del root["data"]
        return
    h = nodes[doc["node"] - 1][0]
    if what == "type":
        del h.attrs["type"]
    elif what in ("entry", "base", "baseattr"):
        e = root.file[h.attrs["type"]]
        if what == "entry":
            del root.file[e.name]
        elif what == "base":
            del root.file[root.file[e.attrs["base_type"]].name]
        else:
            del e.attrs["base_type"]
    elif what == "kbt":
        del h.attrs["key_base_type"]
    elif what == "kidx":
        del h.attrs["key_idx"]
    elif what == "target":
        del root.file[root.file[h[()]].name]
    elif what == "member":
        del root.file[h.name]
    else:
        raise ValueError(what)
