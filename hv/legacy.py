"""The file layouts of hickle 3.x and 4.0.x without hickle: writer and reader (h5py, numpy, pickle and
dill only), see spec/HickleLegacy.tla."""
import ast, collections, pickle, re
import dill, h5py, numpy as np
from hv.capture import bytes_token, capture, text_token, tname
from hv.foreign import Unfit, equal
from hv.gen import BYTES, FLOATS, INTS, TEXTS, Point, nice, rbytes, rfloat, rint, rtext, rarray

PLAIN = (bool, int, float, complex, str, bytes)
# type of arrays of objects in files of hickle 4.0.0 on Python 3.7
LAMBDA = (b"\x80\x03cdill._dill\n_create_function\nq\x00(cdill._dill\n_load_type\nq\x01X\x08\x00\x00\x00CodeTypeq\x02\x85q\x03Rq\x04(K\x01K\x00K\x01K\x03KSC"
          b"\x0et\x00j\x01|\x00d\x01\x19\x00\x83\x01S\x00q\x05NK\x00\x86q\x06X\x02\x00\x00\x00npq\x07X\x05\x00\x00\x00arrayq\x08\x86q\tX\x01\x00\x00\x00xq\n\x85q\x0b"
          b"X\x0d\x00\x00\x00load_numpy.pyq\x0cX\x08\x00\x00\x00<lambda>q\rKiC\x00q\x0e))tq\x0fRq\x10chickle.loaders.load_numpy\n__dict__\nh\rNN}q\x11Ntq\x12Rq\x13.")
NONETYPE = b"\x80\x03c__builtin__\nNoneType\n."


def sparse_kind(x):
    import scipy.sparse as sp
    for c in ("csr", "csc", "bsr"):
        if type(x) is getattr(sp, c + "_matrix"):
            return c
    return None


# ------------------------------------------------------------------------------------ values
def text_ok(s):
    try:
        s.encode("utf8")
    except UnicodeError:
        return False
    return "\0" not in s


def draw_text(r):
    while True:
        s = r.choice((rtext(r), r.choice(TEXTS), "t%d" % r.randrange(99), "", "e\u0301x", "\u4e2d\u6587", "a", "data_1", "b'x'"))
        if text_ok(s):
            return s


def draw_bytes(r):
    while True:
        b = r.choice((rbytes(r), r.choice(BYTES), b"t%d" % r.randrange(99), b"\xff\xfe", b"a", b"\xe4x"))
        if b"\0" not in b:
            return b


def draw_int(r):
    while True:
        i = r.choice((rint(r), r.choice(INTS), r.randrange(-3, 100)))
        if -2 ** 63 <= i < 2 ** 63:
            return i


QUOTED = ["it's", 'say "x"', "a'b\"c", "'", '"', "l1\nl2", "tab\there", "\x7f", "x\x01y", "\u00e9", "\u4e2d", "", " ", "data", "data_0", ".", "1", "None", "b'x'", "\U0001f600", "\xa0"]
SLASHED = ["a/b", "/", "//", "a/b/c", "/x", "x/", "it's a/b"]


def draw_key(r, d):
    """a key which is part of the layout"""
    m = r.randrange(11 if d == "4" else 8)
    if m == 0: return r.choice(QUOTED)
    if m == 1: return draw_int(r)
    if m == 2: return nice(r.choice((rfloat(r), r.choice(FLOATS))))
    if m == 3: return r.random() < .5
    if m == 4: return complex(r.randrange(-3, 3) + .5, r.randrange(-3, 3))
    if m == 5: return draw_tuple(r, d)
    if m == 6: return draw_tuple(r, d)
    if m == 7: return "k%d" % r.randrange(20)
    if m == 8: return r.choice(SLASHED)
    if m == 9: return r.choice((b"ab", b"x'y", b'q"', b"", b"\xff\x01", b"a/b", b"n\n"))
    return None


def draw_tuple(r, d):
    def item(n):
        c = r.randrange(6)
        return [lambda: draw_int(r), lambda: r.choice(("a", "it's", "b c", "\u4e2d") + (("x/y",) if d == "4" else ())), lambda: r.randrange(9) + .5, lambda: None,
                lambda: tuple(item(n - 1) for _ in range(r.randrange(3))) if n else True, lambda: b"z"][c]()
    return tuple(item(2) for _ in range(r.randrange(4)))


def named(key, d):
    """whether a key of a plain type can be part of the layout"""
    if not isinstance(key, (bool, int, float, complex, str, bytes, tuple, type(None))):
        return False
    s = repr(key)
    if key != key or d == "3" and ("/" in s or isinstance(key, (bytes, type(None)))):
        return False
    if "\\\\" in s or "\0" in s:
        return False
    return True


def values(heap, r, d):
    """Python objects for the nodes of an object graph of spec/MCLegacy.tla"""
    memo, used = {}, []

    def fresh(draw):
        for _ in range(200):
            x = draw()
            if x == x and not any(equal(x, y) for y in used):
                used.append(x)
                return x
        raise Unfit()

    def leaf(n):
        t = n["t"]
        if t == "NoneType": return None
        if t == "tuple": return ()
        return fresh({
            "int": lambda: draw_int(r),
            "float": lambda: nice(r.choice((rfloat(r), r.choice(FLOATS)))),
            "bool": lambda: r.random() < .5,
            "complex": lambda: complex(r.randrange(99) + .5, r.randrange(-9, 9)),
            "str": lambda: r.choice(SLASHED) if n["v"] == "'/" else r.choice(QUOTED) if n["v"] == "'q" else draw_text(r),
            "bytes": lambda: draw_bytes(r),
            "numpy.int64": lambda: r.choice((np.int64(draw_int(r)), np.float32(r.randrange(99) + .5), np.uint8(r.randrange(250)), np.float64(r.random()), np.complex64(1j + r.randrange(9)))),
            "tuplekey": lambda: draw_tuple(r, d),
        }[t])

    def make(j):
        if j in memo:
            return memo[j]
        n = heap[j - 1]
        k = n["k"]
        if k == "leaf": x = leaf(n)
        elif k == "arr": x = masked(r) if n["t"].endswith("MaskedArray") else array(r, d)
        elif k == "obj": x = r.choice((lambda: Point(draw_int(r), "s"), lambda: frozenset(range(r.randrange(5))), lambda: bytearray(b"x%d" % r.randrange(99)), lambda: range(r.randrange(9))))()
        elif k == "seq": x = {"list": list, "tuple": tuple}[n["t"]](make(c) for c in n["c"])
        elif k == "set":
            x = set(make(c) for c in n["c"])
            if len(x) != len(n["c"]): raise Unfit()
        else:
            x = {}
            for p in range(0, len(n["c"]), 2):
                key = make(n["c"][p])
                if key in x or not named(key, d): raise Unfit()
                x[key] = make(n["c"][p + 1])
        memo[j] = x
        return x

    return make(1)


def masked(r):
    shape = r.choice(((3,), (2, 3), (1,), (0,), (4, 1)))
    dt = r.choice(("f8", "f4", "i8", "u1", "c16", "?", ">i4"))
    a = (np.arange(int(np.prod(shape))) * 3 % 7).reshape(shape).astype(dt)
    m = r.randrange(4)
    if m == 0:
        return np.ma.array(a)
    mask = np.array([r.random() < .5 for _ in range(a.size)], dtype=bool).reshape(shape)
    return np.ma.array(a, mask=mask if m < 3 else True)


def array(r, d):
    a = any_array(r, d)
    if d == "3" and type(a) is np.ndarray and a.ndim == 0:
        # kept as a bare scalar by the loaders of 3.x: byte order and padding of S were never restored
        a = np.array(a[()])
    return a


def any_array(r, d):
    m = r.randrange(12)
    if m == 0:
        return masked(r)
    if m == 1:
        return sparse(r)
    if m == 2 and d == "4":
        words = ["".join(r.choice("abcxyz 09_-") for _ in range(r.randrange(r.choice((1, 2, 7))))) for _ in range(r.choice((1, 2, 4, 6)))]
        a = np.array(words)
        if a.dtype.itemsize == 0:
            a = a.astype("U1")
        if r.random() < .3 and len(words) % 2 == 0:
            a = a.reshape(2, -1)
        return a if r.random() < .8 else np.array(words[0] or "x")
    if m == 3:
        a = np.array([bytes(r.choice(b"abcxyz\xff") for _ in range(r.randrange(1, r.choice((2, 6))))) for _ in range(r.choice((1, 2, 4)))])
        return a if r.random() < .8 else a[0:1].reshape(())
    if m == 4 and d == "4":
        a = np.empty(r.choice((1, 2, 3)), dtype=object)
        for j in range(a.size):
            a[j] = r.choice((lambda: None, lambda: draw_int(r), lambda: draw_text(r), lambda: dict(a=1), lambda: 2.5))()
        return a if r.random() < .7 else np.array(dict(k=draw_int(r)))
    if m == 5:
        return r.choice((np.zeros((0,)), np.zeros((0, 3), dtype="i4"), np.array(5), np.array(2.5, dtype="f4"), np.arange(6).reshape(1, 2, 3)))
    while True:
        a = rarray(r, True)
        if type(a) is np.ndarray and a.dtype.kind in "biufc" and a.dtype.char not in "gG":
            return a


def sparse(r):
    import scipy.sparse as sp
    c = r.choice((sp.csr_matrix, sp.csc_matrix, sp.bsr_matrix))
    a = np.array([[r.choice((0, 0, r.randrange(1, 9))) for _ in range(4)] for _ in range(r.choice((2, 4)))], dtype=r.choice(("i8", "f8", "f4", "c16")))
    return c(a, blocksize=(2, 2)) if c is sp.bsr_matrix else c(a)


def scalar(r, d):
    return r.choice((lambda: None, lambda: draw_int(r), lambda: nice(rfloat(r)), lambda: r.random() < .5, lambda: complex(r.random(), 1), lambda: draw_text(r), lambda: draw_bytes(r), lambda: draw_text(r),
                     lambda: np.float64(r.random()), lambda: np.uint16(r.randrange(999)), lambda: np.complex64(2j), lambda: np.int8(-r.randrange(9)), lambda: np.dtype(r.choice(("f8", "i2", "?", "c8", "u1"))),
                     lambda: Point(1, "p"), lambda: frozenset("ab"), lambda: (2 ** r.randrange(64, 200) if d == "4" else 3)))()


def value(r, d, depth):
    """random object of a layout"""
    m = r.randrange(9)
    if depth == 0 or m < 2:
        return scalar(r, d) if r.random() < .6 else array(r, d)
    n = r.choice((0, 1, 2, 3, 5) if depth > 1 else (0, 1, 2, 3, 12))
    if m == 2:       # one dataset
        draw = r.choice((lambda: draw_int(r), lambda: nice(rfloat(r)), lambda: r.random() < .5, lambda: complex(r.random(), 2), lambda: draw_text(r), lambda: draw_bytes(r),
                         lambda: r.choice("abc "), lambda: r.choice(("", "a")), lambda: r.choice((b"", b"x", b"yy")), lambda: r.choice(("\xe9", "z", "\u4e2d"))))
        return r.choice((list, tuple, set))([draw() for _ in range(max(n, 1))])
    if m in (3, 4):
        return [value(r, d, depth - 1) for _ in range(n)]
    if m == 5:
        return tuple(value(r, d, depth - 1) for _ in range(n))
    if m == 6:
        out = set()
        for _ in range(n):
            x = r.choice((lambda: draw_int(r), lambda: draw_text(r), lambda: draw_bytes(r), lambda: None, lambda: (1, "a", draw_int(r)), lambda: r.random()))()
            out.add(x)
        return out
    c = r.choice((dict, dict, collections.OrderedDict)) if d == "4" else dict
    out = c()
    for _ in range(n):
        key = draw_key(r, d)
        if named(key, d) and key not in out:
            out[key] = value(r, d, depth - 1)
    return out


# ------------------------------------------------------------------------------------ writing
def only_type(x):
    ts = {type(y) for y in x}
    return ts.pop() if len(ts) == 1 and list(ts)[0] in PLAIN else None


def plain_data(x):
    """what the members of a collection of one plain type are stored as"""
    t = only_type(x)
    y = [s.encode("utf8") if t is str else s for s in x]
    if t in (str, bytes):
        if any(s.endswith(b"\0") for s in y):
            raise Unfit()
        a = np.array(y)
        return a.astype("S1") if a.dtype.itemsize == 0 else a
    a = np.array(y)
    if a.dtype.kind not in {bool: "b", int: "iu", float: "f", complex: "c"}[t]:
        raise Unfit()
    return a


class Writer:
    def __init__(self, r):
        self.r = r
        self.opts = [dict(), dict(), dict(compression="gzip"), dict(chunks=True, shuffle=True), dict(compression="lzf")][r.randrange(5)]

    def dataset(self, g, name, data):
        shape = np.shape(data)
        return g.create_dataset(name, data=data, **(self.opts if shape and all(shape) else {}))

    # ---------------------------------------------------------------- 4.0.x
    def cls(self, c):
        """stored class"""
        m = self.style
        if m.random() < .5:
            return np.array(dill.dumps(c, protocol=3))
        return np.array(pickle.dumps(c, protocol=m.choice((2, 3, 4)), fix_imports=True))

    def write4(self, f, where, x):
        r = self.style = self.r
        root = f if where == "/" else f.require_group(where)
        root.attrs["HICKLE_VERSION"] = r.choice(("4.0.0", "4.0.1", "4.0.4"))
        root.attrs["HICKLE_PYTHON_VERSION"] = r.choice(("3.6.9", "3.7.4", "3.8.2"))
        self.put4(root, "data", x)

    def typed4(self, h, c, base, raw=None):
        todo = [("base_type", base if self.r.random() < .5 else base.encode()), ("type", self.cls(c) if raw is None else np.array(raw))]
        self.r.shuffle(todo)
        for k, v in todo:
            h.attrs[k] = v
        return h

    def put4(self, g, name, x):
        r, c = self.r, type(x)
        base = None
        if x is None: base = "None"
        elif c in PLAIN or c in (list, tuple, set, dict): base = c.__name__
        elif c is collections.OrderedDict: base = "dict"
        elif isinstance(x, np.dtype): c, base = np.dtype, "np_dtype"
        elif isinstance(x, np.number): base = "np_scalar"
        elif c is np.ma.MaskedArray: base = "ndarray_masked_data"
        elif c is np.ndarray: base = "ndarray"
        elif sparse_kind(x): base = sparse_kind(x) + "_matrix"
        if base == "dict" and not all(named(k, "4") for k in x):
            raise Unfit()
        if base is None:
            d = g.create_dataset(name, data=np.array(pickle.dumps(x, protocol=3) if r.random() < .5 else dill.dumps(x, protocol=3)))
            d.attrs["base_type"] = "pickle"
            return
        if base in ("list", "tuple", "set"):
            if len(x) and only_type(x):
                h = self.dataset(g, name, plain_data(x))
                if only_type(x) in (str, bytes):
                    h.attrs["str_type"] = only_type(x).__name__ if r.random() < .5 else only_type(x).__name__.encode()
            else:
                h = g.create_group(name)
                for j, y in enumerate(x):
                    self.put4(h, "data_%i" % j, y)
            self.typed4(h, c, base)
        elif base == "dict":
            h = g.create_group(name)
            for j, (k, y) in enumerate(x.items()):
                e = h.create_group(("%r" % (k,)).replace("/", "\\\\"))
                for a, v in (("base_type", "dict_item"), ("key_base_type", type(k).__name__), ("key_idx", j), ("key_type", self.cls(type(k)))):
                    e.attrs[a] = v
                self.put4(e, "data", y)
            self.typed4(h, c, base)
        elif base == "None":
            self.typed4(self.dataset(g, name, np.frombuffer(b"None", dtype="u1")), c, base)
        elif base == "int" and x.bit_length() > 63:
            self.typed4(g.create_dataset(name, data=str(x).encode()), c, base)
        elif base in ("bool", "int", "float", "complex", "str", "bytes"):
            if base in ("str", "bytes") and (b"\0" if base == "bytes" else "\0") in x:
                raise Unfit()
            self.typed4(g.create_dataset(name, data=x), c, base)
        elif base == "np_dtype":
            self.typed4(g.create_dataset(name, data=str(x)), c, base)
        elif base == "np_scalar":
            h = g.create_dataset(name, data=x)
            h.attrs["np_dtype"] = r.choice((str(x.dtype), x.dtype.str))
            self.typed4(h, c, base)
        elif base == "ndarray_masked_data":
            h = self.dataset(g, name, x.data)
            h.attrs["np_dtype"] = x.dtype.str
            self.typed4(h, c, base)
            m = self.dataset(g, name + "_mask", x.mask)
            self.typed4(m, np.ndarray, "ndarray_masked_mask")
        elif base == "ndarray":
            if x.dtype.kind == "O":
                h = g.create_group(name)
                self.put4(h, "data", x.tolist())
                h.attrs["np_dtype"] = "object"
                self.typed4(h, c, base, LAMBDA)
            else:
                if x.dtype.kind == "U":
                    if not all(s.isascii() for s in x.ravel().tolist()):
                        raise Unfit()
                    b = x.astype("S")
                    h = self.dataset(g, name, b if b.dtype.itemsize else b.astype("S1"))
                else:
                    h = self.dataset(g, name, x)
                h.attrs["np_dtype"] = x.dtype.str if x.dtype.kind in "SU" or r.random() < .5 or x.dtype.byteorder == ">" else str(x.dtype)
                self.typed4(h, c, base)
        else:
            k = sparse_kind(x)
            h = g.create_group(name)
            h.attrs["base_type"] = base
            h.attrs["type"] = np.array(b"\x80\x03chickle.loaders.load_scipy\nreturn_first\nq\x00.")
            d = self.dataset(h, "data", x.data)
            d.attrs["base_type"] = base
            d.attrs["type"] = np.array(r.choice((b"\x80\x03cscipy.sparse.%s\n%s_matrix\nq\x00." % (k.encode(), k.encode()), pickle.dumps(c, protocol=3))))
            for n, y in (("indices", x.indices), ("indptr", x.indptr), ("shape", x.shape)):
                d = self.dataset(h, n, y)
                d.attrs["base_type"] = base + "_" + n
                d.attrs["type"] = np.array(NONETYPE)

    # ---------------------------------------------------------------- 3.x
    def write3(self, f, where, x):
        r = self.r
        f.attrs["CLASS"] = r.choice((b"hickle", "hickle"))
        f.attrs["VERSION"] = r.choice(("3.4.9", "3.2.1", "3.4.5"))
        f.attrs["PYTHON_VERSION"] = r.choice(("3.7.4", "3.5.2"))
        f.attrs["type"] = np.array([b"hickle"])
        root = f if where == "/" else f.require_group(where)
        root.attrs["type"] = np.array([b"hickle"])
        self.put3(root, 0, x)

    def put3(self, g, call, x):
        c, name = type(x), "data_%i" % call
        tag = lambda h, t: h.attrs.__setitem__("type", np.array([t]))
        if c is np.ma.MaskedArray:
            tag(self.dataset(g, name, x.data), b"ndarray_masked_data")
            tag(self.dataset(g, name + "_mask", x.mask), b"ndarray_masked_mask")
        elif c is np.ndarray:
            if x.dtype.kind in "UO":
                raise Unfit()
            tag(self.dataset(g, name, x), b"ndarray")
        elif sparse_kind(x):
            k = sparse_kind(x).encode()
            h = g.create_group(name)
            for n, y in (("data", x.data), ("indices", x.indices), ("indptr", x.indptr), ("shape", x.shape)):
                tag(self.dataset(h, n, y), k + b"_matrix_" + n.encode())
            tag(h, k + b"_matrix")
        elif c is dict:
            if not all(named(k, "3") for k in x):
                raise Unfit()
            h = g.create_group(name)
            tag(h, str(c).encode())
            for k, y in x.items():
                e = h.create_group("%r" % (k,) if isinstance(k, str) else str(k))
                tag(e, b"dict_item")
                e.attrs["key_type"] = np.array([str(type(k)).encode("ascii", "ignore")])
                self.put3(e, 0, y)
        elif c in (list, tuple, set):
            if len(x) and only_type(x):
                h = self.dataset(g, name, plain_data(x))
                if only_type(x) in (str, bytes):
                    h.attrs["py3_string_type"] = np.array([str(only_type(x)).encode()])
            else:
                h = g.create_group(name)
                for j, y in enumerate(x):
                    self.put3(h, j, y)
            tag(h, str(c).encode())
        elif c in (bool, int, float, complex):
            if c is int and not -2 ** 63 <= x < 2 ** 63:
                raise Unfit()
            h = g.create_dataset(name, data=x, dtype=c)
            tag(h, b"python_dtype")
            h.attrs["python_subdtype"] = str(c).encode() if self.r.random() < .7 else str(c)
        elif c is bytes:
            if x.endswith(b"\0"):
                raise Unfit()
            tag(self.dataset(g, name, np.array([x]) if x else np.array([b""], dtype="S1")), b"bytes")
        elif c is str:
            if "\0" in x:
                raise Unfit()
            h = g.create_dataset(name, shape=(1,), dtype=h5py.special_dtype(vlen=str), **self.opts)
            h[0] = x
            tag(h, b"string")
        elif x is None:
            tag(self.dataset(g, name, [0]), b"none")
        elif isinstance(x, np.number):
            h = g.create_dataset(name, data=x)
            tag(h, b"np_scalar")
            h.attrs["np_dtype"] = str(h.dtype).encode()
        elif isinstance(x, np.dtype):
            tag(g.create_dataset(name, data=[str(x)], dtype=h5py.special_dtype(vlen=str)), b"np_dtype")
        else:
            tag(self.dataset(g, name, np.array([dill.dumps(x, protocol=self.r.choice((2, 3, 4)))])), b"pickle")


def write(path, d, where, x, r, others=()):
    """others: objects at other places of the same file"""
    with h5py.File(path, "w") as f:
        w = Writer(r)
        for place, o in sorted([(where, x)] + list(others), key=lambda e: r.random()):
            (w.write4 if d == "4" else w.write3)(f, place, o)


# ------------------------------------------------------------------------------------ reading
def text(x):
    return x.decode("utf8") if isinstance(x, bytes) else str(x)


def key_of(kind, name):
    if kind in ("str", "bytes", "tuple"):
        return ast.literal_eval(name)
    return dict(int=int, float=float, complex=complex, bool=lambda s: {"True": True, "False": False}[s], NoneType=lambda s: {"None": None}[s])[kind](name)


BASE3 = {"<class 'list'>": ("list", "list"), "<class 'tuple'>": ("tuple", "tuple"), "<class 'set'>": ("set", "set"), "<class 'dict'>": ("dict", "dict"),
         "string": ("str", "str"), "bytes": ("bytes", "bytes"), "none": ("None", "NoneType"), "dict_item": ("dict_item", "")}


class Reader:
    """content of a file as the node records of spec/HickleLegacy.tla"""

    def __init__(self, d):
        self.d = d
        self.nodes = []

    def blank(self, name):
        n = dict(g="data", typ="ok", base="", ty="", nm=name, idx=-1, kbt="", kidx=-1, st="", s="", b="", e=[], obj=[], ok=True, kids=[], mask=0, keyh=[])
        self.nodes.append(n)
        return n, len(self.nodes)

    def kids(self, n, h):
        ix = {}
        for key, sub in h.items():
            ix[key] = self.node(key, sub)
            n["kids"].append(ix[key])
        for key, i in ix.items():
            self.nodes[i - 1]["mask"] = ix.get(key + "_mask", 0)

    def describe(self, h):
        """base type, class name, class"""
        A = h.attrs
        if self.d == "4":
            base = text(A["base_type"])
            c = None
            if base not in ("pickle", "dict_item", "ndarray_masked_mask") and not (base == "ndarray" and isinstance(h, h5py.Group)):
                c = A["type"]
                c = pickle.loads(bytes(c)) if b"return_first" not in bytes(c) else None
            return base, (tname(c) if isinstance(c, type) else "numpy.ndarray" if base == "ndarray" else "")
        t = text(A["type"][0])
        if t in BASE3:
            return BASE3[t]
        if t == "python_dtype":
            c = text(A["python_subdtype"])[len("<class '"):-2]
            return c, c
        if t.endswith("_matrix_data"):
            return t[:-5], ""
        return t, ("numpy.ndarray" if t == "ndarray" else "")

    def node(self, name, h):
        n, ix = self.blank(name)
        A = h.attrs
        n["base"], n["ty"] = base, ty = self.describe(h)
        group = isinstance(h, h5py.Group)
        n["g"] = "group" if group else "data"
        m = re.search(r"\d+$" if self.d == "4" else r"\d+", name)
        if m and base != "ndarray_masked_mask" and name.startswith("data_"):
            n["idx"] = int(m.group(0))
        try:
            if base == "dict_item":
                if self.d == "4":
                    n["kbt"], n["kidx"] = text(A["key_base_type"]), int(A["key_idx"])
                    key = key_of(n["kbt"], name.replace("\\\\", "/"))
                else:
                    n["kbt"] = text(A["key_type"][0])[len("<class '"):-2]
                    key = key_of(n["kbt"], name)
                n["keyh"] = capture(key)
                self.kids(n, h)
            elif base in ("list", "tuple", "set"):
                if group:
                    self.kids(n, h)
                else:
                    st = text(A["str_type"]) if "str_type" in A else text(A["py3_string_type"][0])[len("<class '"):-2] if "py3_string_type" in A else ""
                    n["st"] = st
                    n["e"] = [capture(x.decode("utf8") if st == "str" else bytes(x) if st == "bytes" else x)[0] for x in h[()]]
            elif base == "dict" or base == "ndarray" and group:
                self.kids(n, h)
            elif base == "ndarray_masked_mask":
                pass
            elif base in ("str", "bytes"):
                v = h[()] if self.d == "4" else h[0]
                v = v.encode("utf8") if isinstance(v, str) else bytes(v)
                n["b"] = bytes_token(v)
                if base == "str":
                    n["s"] = text_token(v.decode("utf8"))
            elif base != "None":
                n["obj"] = capture(self.value(h, base))
        except Exception as e:
            n["ok"], n["s"] = False, repr(e)[:120]
        return ix

    def value(self, h, base):
        A = h.attrs
        if base == "pickle":
            return dill.loads(bytes(h[()] if self.d == "4" else h[0]))
        if base in ("int", "float", "complex", "bool"):
            v = h[()]
            return int(v.decode()) if isinstance(v, bytes) else dict(int=int, float=float, complex=complex, bool=bool)[base](v)
        if base == "np_scalar":
            return np.dtype(text(A["np_dtype"])).type(h[()])
        if base == "np_dtype":
            return np.dtype(text(h[()] if self.d == "4" else h[0]))
        if base == "ndarray_masked_data":
            mask = h.parent[h.name.rsplit("/", 1)[-1] + "_mask"][()]
            return np.ma.array(h[()], mask=mask)
        if base == "ndarray":
            v = np.asarray(h[()])
            dt = np.dtype(text(A["np_dtype"])) if "np_dtype" in A else v.dtype
            if dt.kind == "U":
                return np.array([x.decode("ascii") for x in v.ravel().tolist()], dtype=dt).reshape(v.shape)
            return v.astype(dt)
        import scipy.sparse as sp
        return getattr(sp, base)((h["data"][()], h["indices"][()], h["indptr"][()]), shape=tuple(h["shape"][()]))


def read(path, d, where):
    with h5py.File(path, "r") as f:
        R = Reader(d)
        g = f[where]
        name = "data" if d == "4" else "data_0"
        R.node(name, g[name])
        if name + "_mask" in g:
            R.nodes[0]["mask"] = R.node(name + "_mask", g[name + "_mask"])
        return R.nodes
