"""Cases of the round trip checks (P01 - P09): job documents and the objects they stand for."""
import collections, random
import numpy as np
from hv import gen
from hv.gen import *

# ----------------------------------------------------------------------------- contexts of a member
def _pairs(x, r):
    y = r.choice(SMALL)
    return y


CONTEXTS = collections.OrderedDict(
    top=lambda x, r: x,
    list1=lambda x, r: [x],
    tuple1=lambda x, r: (x,),
    list2=lambda x, r: [x, x],
    list_first=lambda x, r: [x, r.choice(SMALL)],
    list_last=lambda x, r: [r.choice(SMALL), x],
    list_mid=lambda x, r: [r.choice(SMALL), x, r.choice(SMALL), r.choice(SMALL)],
    tuple_mix=lambda x, r: (r.choice(SMALL), x, r.choice(SMALL)),
    nested=lambda x, r: [[x], ([x], x)],
    set1=lambda x, r: {x} if x == x else [x],
    set2=lambda x, r: {x, "other", 17.25} if x == x else (x, 3),
    value=lambda x, r: {"k": x},
    values=lambda x, r: {1: x, "two": [x], (3,): (x, x)},
    key=lambda x, r: {x: "v"} if x == x else {"nan": x},
    keyval=lambda x, r: {x: x} if x == x else {"nan": [x]},
    key_tuple=lambda x, r: {(x, "t"): 1} if x == x else {"nan": x},
    objarr=lambda x, r: objarray([x, None, "s"]),
    instance=lambda x, r: Point(x, [x]),
    listoflists=lambda x, r: [[x, 1], [x, 2.5], [x, "s"], [x]],
    mylist=lambda x, r: MyList([x, x]),
    pair=lambda x, r: Pair(x, x),
)


def objarray(items):
    a = np.empty(len(items), dtype=object)
    for j, x in enumerate(items):
        a[j] = x
    return a


# ----------------------------------------------------------------------------- graphs of the specification
def concrete(heap, r, fam=None):
    """object described by a graph of the specification; labels of leaves choose value classes,
    fam the family of objects arrays and opaque objects are taken from"""
    memo = {}

    def member():
        if fam == "np":
            return build_numpy(r.choice(NPC), r) if r.random() < .5 else rarray(r, True)
        if fam == "sparse":
            return rsparse(r, r.randrange(9))
        if fam == "astropy":
            return astropy_objects(r, r.randrange(23))
        if fam == "opaque":
            return opaque(r)

    def leaf(d, used):
        t = d["t"]
        for _ in range(60):
            if t == "int": x = r.choice((rint(r), r.choice(INTS), r.randrange(-3, 100)))
            elif t == "float": x = nice(r.choice((rfloat(r), r.choice(FLOATS))))
            elif t == "bool": x = r.random() < .5
            elif t == "complex": x = r.choice(COMPLEX)
            elif t == "str":
                if d["v"] == "'/": x = r.choice(("a/b", "/", "a\\b", "\\", "x\x00y", "/data0", "\x00"))
                elif d["v"] == "'data0": x = r.choice(("data0", "data1", "data", "hickle_types_table", '"data0"', "0"))
                else: x = r.choice((rtext(r), r.choice(TEXTS)))
            elif t == "bytes": x = r.choice((rbytes(r), r.choice(BYTES)))
            elif t == "NoneType": x = None
            elif t == "tuple": x = ()
            elif t == "numpy.int64": x = r.choice((np.int64(rint(r) % 2 ** 63), np.float32(1.5), np.uint8(7), np.bool_(True), np.int16(-5), np.float64(0.1)))
            else: raise ValueError(t)
            if not used or (x == x and not any(_same_key(x, y) for y in used)):
                return x
        return None

    def _same_key(x, y):
        try:
            return x == y
        except Exception:
            return True

    def make(j, used=()):
        if j in memo:
            return memo[j]
        d = heap[j - 1]
        k = d["k"]
        if k == "leaf":
            x = leaf(d, used)
        elif k in ("arr", "obj") and fam:
            x = member()
        elif k == "arr":
            x = rarray(r, True)
        elif k == "obj":
            x = Point(rscalar(r), rtext(r))
        elif k == "seq":
            items = [make(c) for c in d["c"]]
            x = {"list": r.choice((list, list, MyList)), "tuple": r.choice((tuple, tuple, MyTuple))}[d["t"]](items)
        elif k == "set":
            s = []
            for c in d["c"]:
                y = make(c)
                if y == y:
                    s.append(y)
            x = r.choice((set, set, MySet))(s)
        else:
            items = {}
            for p in range(0, len(d["c"]), 2):
                key = make(d["c"][p], tuple(items))
                if not usable_key(items, key):
                    continue
                items[key] = make(d["c"][p + 1])
            x = r.choice((dict, dict, dict, collections.OrderedDict, MyDict))(items)
        memo[j] = x
        return x

    # keys first need values different from each other: leaves used as keys are created on demand
    return make(1)


# ----------------------------------------------------------------------------- sharing
def rdag(r, n, leaf):
    """object graph with many routes to the same objects"""
    pool = []
    for _ in range(n):
        m = r.random()
        kids = lambda: [pool[max(0, len(pool) - 1 - int(r.expovariate(.5)))] if pool and r.random() < .75 else leaf(r) for _ in range(r.randrange(1, 5))]
        if m < .35: pool.append(list(kids()))
        elif m < .55: pool.append(tuple(kids()))
        elif m < .8:
            d = {}
            for v in kids():
                k = rkey(r)
                if usable_key(d, k):
                    d[k] = v
            pool.append(r.choice((dict, collections.OrderedDict, MyDict))(d))
        elif m < .86: pool.append(rarray(r, True))
        elif m < .9: pool.append(objarray([None] + kids()))   # None: the shape is not ambiguous
        elif m < .93: pool.append(rset(r))
        elif m < .96: pool.append(Point(rscalar(r), rtext(r)))
        else: pool.append([])
    # the root reaches most of the pool, in mixed order
    top = [r.choice(pool) for _ in range(r.randrange(2, 9))]
    r.shuffle(top)
    return r.choice((list, tuple))(top) if r.random() < .6 else {("k%d" % j) if j % 2 else (j, "t"): v for j, v in enumerate(top)}


def shared_special(r, i):
    """sharing patterns by construction"""
    a, b = [1, "x"], {"k": (1, "y")}
    arr = rarray(r, True)
    s = "text" + rtext(r)
    opq = Point(1, "p")
    empty_l, empty_d, empty_s, empty_arr = [], {}, set(), np.zeros((0, 2))
    nest = [a, [a, (a,)], {"a": a}]
    import scipy.sparse as sp
    m = sp.csr_matrix(np.eye(3))
    oa = objarray([None, a, a, b])
    t = (a, b)
    C = [
        lambda: [a, a],
        lambda: [a, list(a)],
        lambda: [a, list(a), a, list(a)],
        lambda: [[a, b], [b, a]],
        lambda: {"x": a, "y": a, "z": list(a)},
        lambda: {("c", 1): a, "y": a},
        lambda: {"y": a, ("c", 1): a, ("d", 2): b, 5: b},
        lambda: (t, t, [t]),
        lambda: [arr, arr, arr.copy()],
        lambda: [arr, {"a": arr, "b": (arr,)}],
        lambda: [opq, opq, Point(1, "p")],
        lambda: {"p": opq, "q": [opq, (opq,)]},
        lambda: [empty_l, empty_l, []],
        lambda: [empty_d, {}, empty_d, empty_s, empty_s, set()],
        lambda: [empty_arr, empty_arr, np.zeros((0, 2))],
        lambda: [nest, nest, a, [nest]],
        lambda: [m, m, m.copy()],
        lambda: [oa, a, oa, b],
        lambda: [a, oa],
        lambda: [oa, [a, b]],
        lambda: [[b], b, [[b]]],
        lambda: [s, s, s + "", [s], {"k": s}],
        lambda: {"deep": [[[[a]]]], "flat": a, "deeper": {"x": {"y": {"z": a}}}},
        lambda: [np.ma.array([1, 2], mask=[True, False])] * 2,
        lambda: [np.matrix([[1, 2]])] * 3,
        lambda: [np.array(["a", "bc"])] * 2 + [np.array(["a", "bc"])],
        lambda: [np.array("zerod")] * 2,
        lambda: [np.dtype("f4"), np.dtype("f4"), np.float32(1), np.float32(1)],
        lambda: [{1, 2}, {1, 2}],
        lambda: (lambda q: [q, q, {1, 2, "x"}])({1, 2, "x"}),
        lambda: (lambda q: [q, {"k": q}, MyList(q)])(MyList([1, "l"])),
        lambda: (lambda q: [q, q])(collections.OrderedDict(a=1)),
        lambda: (lambda q: [q, q])(Pair(1, "two")),
        lambda: (lambda q: [q, q, collections.Counter("aab")])(collections.Counter("aab")),
        lambda: [a] * 40,
        lambda: [[a, i] for i in range(30)],
        lambda: {str(k): (a if k % 2 else b) for k in range(25)},
        lambda: (a, (a, (a, (a, (b, (b,)))))),
        lambda: [10 ** 30, 10 ** 30, [10 ** 30]],
        lambda: [b"bytes", b"bytes", {"b": b"bytes"}],
    ]
    return C[i % len(C)]()


NSHARED = 40


# ----------------------------------------------------------------------------- numpy
def numpy_cases():
    out = []
    for d in PLAIN_DTYPES:
        for s in range(len(SHAPES)):
            out.append(dict(k="arr", d=d, s=s))
    for d in STR_DTYPES:
        for s in range(len(SHAPES)):
            out.append(dict(k="strarr", d=d, s=s))
    for w in range(len(STRUCTS)):
        for s in range(0, len(SHAPES), 2):
            out.append(dict(k="struct", d=w, s=s))
    for lay in ("F", "rev", "step", "T", "broadcast", "readonly"):
        for d in ("<i4", ">f8", "?", "<c16", "S3", "<U3", "O"):
            for s in (2, 5, 8, 11):
                out.append(dict(k="lay", d=d, s=s, l=lay))
    for mask in ("rand", "none", "all", "nomask"):
        for d in ("?", "<i4", ">i4", "<f8", "<c8", "u1", "<f2"):
            for s in (0, 1, 2, 4, 8, 5):
                out.append(dict(k="masked", d=d, s=s, l=mask))
    for lay in ("F", "rev", "step", "T"):
        for d in ("<i4", ">f8", "?", "S3", "<U3"):
            for s in (5, 8, 11):
                out.append(dict(k="masked", d=d, s=s, l="rand", y=lay))
    for d in ("<i4", "<f8", "?", ">c8", "<U3", "S3", "O"):
        for s in ((1, 1), (2, 3), (1, 4), (0, 2), (3, 1)):
            out.append(dict(k="matrix", d=d, s=list(s)))
    for d in PLAIN_DTYPES:
        for rep in range(3):
            out.append(dict(k="npscalar", d=d.replace(">", "<"), i=rep))
    for j in range(len(DTYPES)):
        out.append(dict(k="dtype", i=j))
    for j in range(NOBJ):
        out.append(dict(k="objarr", i=j))
    for j in range(NSPECIAL):
        out.append(dict(k="npspecial", i=j))
    return out


DTYPES = ["?", "i1", "<i2", ">i2", "<u8", ">u8", "<f2", ">f4", "<f8", "<c8", ">c16", "g", "S5", "S0", "<U7", ">U7", "<U0", "O", "V8", "<M8[ns]", "<M8[D]", "<m8[s]", ">m8[us]",
          [("a", "<i4"), ("b", ">f8", (2, 3))], [("n", [("x", "?"), ("y", "S3")])], ("<f4", (2, 2)), {"names": ["p", "q"], "formats": ["u1", "<i8"], "offsets": [0, 8], "itemsize": 32}]


def objcase(r, i):
    big = [rscalar(r) for _ in range(r.randrange(0, 7))]
    C = [
        lambda: objarray([]),
        lambda: objarray([None]),
        lambda: objarray([1, "a", None]),
        lambda: objarray([1, 2, 3]),
        lambda: objarray([1, 2.5, True]),
        lambda: objarray([2 ** 70, 1]),
        lambda: objarray(["a", "bc"]),
        lambda: objarray([b"", b"x\x00"]),
        lambda: objarray([[1, 2], [3, 4]]),
        lambda: objarray([[1], [2, 3]]),
        lambda: objarray([(), ()]),
        lambda: objarray([[], []]),
        lambda: objarray([{"a": 1}, {2, 3}]),
        lambda: objarray([np.arange(3), np.arange(2)]),
        lambda: objarray([np.arange(3), np.arange(3)]),
        lambda: objarray([Point(1, 2), "x"]),
        lambda: objarray(big),
        lambda: np.array(5, dtype=object),
        lambda: np.array(None, dtype=object),
        lambda: np.array("text", dtype=object),
        lambda: np.array({"a": 1}, dtype=object),
        lambda: np.array([[1, "a"], [None, 2.5]], dtype=object),
        lambda: np.array([[1, 2], [3, 4]], dtype=object),
        lambda: np.array([["a", "b"], ["c", "d"]], dtype=object),
        lambda: np.empty((0, 3), dtype=object),
        lambda: np.empty((2, 0), dtype=object),
        lambda: np.array([[[1], ["x"]], [[None], [2.5]]], dtype=object),
        lambda: objarray([objarray([1, "x"]), objarray([2, "y"])]),
        lambda: objarray([objarray([1, "x"]), objarray([2])]),
        lambda: np.asfortranarray(np.array([[1, "a", 2], [None, 2.5, 4]], dtype=object)),
        lambda: np.array([[1, "a"], [None, 2.5]], dtype=object).T,
        lambda: objarray([rscalar(r) for _ in range(30)]),
        lambda: objarray([float("nan"), -0.0]),
        lambda: objarray(["", ""]),
        lambda: objarray([rstruct_any(r, 2) for _ in range(4)]),
        lambda: np.array([[rscalar(r) for _ in range(3)] for _ in range(2)] + [[None, "s", 1]], dtype=object),
    ]
    return C[i % len(C)]()


NOBJ = 36


def npspecial(r, i):
    base = np.arange(24, dtype="<i4").reshape(2, 3, 4)
    C = [
        lambda: base[:, 1],
        lambda: base[..., ::-2],
        lambda: base.transpose(2, 0, 1),
        lambda: base[0, 0, 0],
        lambda: base[0:0],
        lambda: np.lib.stride_tricks.as_strided(np.arange(10), (4, 3), (8, 8)),
        lambda: np.array("", dtype="<U5"),
        lambda: np.array("", dtype="<U1"),
        lambda: np.array("é日\U00010000"),
        lambda: np.array(b"ab\xff"),
        lambda: np.array(b"", dtype="S4"),
        lambda: np.array(["", ""]),
        lambda: np.array(["", "日本", "\U0010ffff"]),
        lambda: np.array([[b"a", b"bcd"], [b"", b"\xff\xfe"]]),
        lambda: np.array(["a\x00b", "c"]),
        lambda: np.str_("npstr"),
        lambda: np.str_(""),
        lambda: np.bytes_(b"npb\x00x"),
        lambda: np.bool_(False),
        lambda: np.float64("nan"),
        lambda: np.float16(65504),
        lambda: np.longdouble("1.1"),
        lambda: np.complex64(complex(0.1, -0.0)),
        lambda: np.uint64(2 ** 64 - 1),
        lambda: np.int64(-2 ** 63),
        lambda: np.ma.array([1.5, 2.5, 3.5], mask=[0, 1, 0]),
        lambda: np.ma.array([[1, 2], [3, 4]], mask=[[1, 0], [0, 1]], dtype=">i2"),
        lambda: np.ma.masked_invalid([1.0, float("nan"), float("inf")]),
        lambda: np.ma.array(np.zeros((0, 2)), mask=np.zeros((0, 2), dtype=bool)),
        lambda: np.matrix([[1.5, 2], [3, 4]]),
        lambda: np.matrix("1 2; 3 4", dtype="i1"),
        lambda: np.matrix([["a", "bc"]]),
        lambda: np.zeros(70000, dtype="u1"),
        lambda: np.arange(5000, dtype=">f4").reshape(50, 100).T,
        lambda: [np.float32(1), np.float32(2.5)],
        lambda: [np.int8(1), 300, 2.5],
        lambda: (np.uint64(2 ** 64 - 1), np.int64(-1)),
        lambda: (np.uint64(2 ** 63), 1),
        lambda: [np.float32(0.1), 0.1],
        lambda: [np.float16(1.5), np.int32(2 ** 24 + 1)],
        lambda: [np.int64(2 ** 53 + 1), 0.5],
        lambda: {np.int64(3), np.int64(4)},
        lambda: {np.float32(0.25), "x"},
        lambda: {"a": np.array(3), "b": np.int64(3), "c": np.array([3])},
        lambda: [np.array(3), np.array([3]), np.array([[3]])],
        lambda: [np.array(1), np.array(2)],
        lambda: [np.zeros(3), np.zeros(3)],
        lambda: (np.bool_(True), True, 1),
        lambda: [np.array(["x"]), np.array("x"), "x"],
        lambda: [np.float64(1.0), np.longdouble(1) / 3],
        lambda: np.array([1 + 2j, 3], dtype=">c16"),
        lambda: np.array(True),
        lambda: np.array(2.5, dtype=">f4"),
        lambda: np.array((1, 2.5), dtype=[("a", "<i4"), ("b", "<f8")]),
        lambda: np.zeros((1,) * 12),
        lambda: np.dtype("f4"),
        lambda: [np.dtype("f4"), np.dtype(">i2"), np.dtype("S3")],
        lambda: {np.dtype("f4"): 1} if False else {"d": np.dtype(">f4")},
    ]
    return C[i % len(C)]()


NSPECIAL = 58


def build_numpy(job, r):
    k = job["k"]
    if k == "arr": return rplain(r, job["d"], SHAPES[job["s"]])
    if k == "strarr": return rstrarr(r, job["d"], SHAPES[job["s"]])
    if k == "struct": return rstruct(r, SHAPES[job["s"]], job["d"])
    if k == "lay":
        shape = SHAPES[job["s"]]
        if job["d"] == "O":
            a = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                a[ix] = r.choice((1, "a", None, 2.5))
        else:
            a = rstrarr(r, job["d"], shape) if job["d"][-2:-1] in "SU" and job["d"][-1].isdigit() and ("S" in job["d"] or "U" in job["d"]) else rplain(r, job["d"], shape)
        return relayout(r, a, job["l"])
    if k == "masked": return rmasked(r, job["d"], SHAPES[job["s"]], job["l"], job.get("y"))
    if k == "matrix":
        shape = tuple(job["s"])
        if job["d"] == "O":
            a = np.array([r.choice((1, "a", None)) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape)
        else:
            a = rstrarr(r, job["d"], shape) if "U" in job["d"] or "S" in job["d"] else rplain(r, job["d"], shape)
        return np.matrix(a)
    if k == "npscalar": return rplain(r, job["d"], (3,))[job["i"]]
    if k == "dtype":
        d = DTYPES[job["i"]]
        return np.dtype(d if not isinstance(d, list) else [tuple(x) for x in d])
    if k == "objarr": return objcase(r, job["i"])
    if k == "npspecial": return npspecial(r, job["i"])
    raise ValueError(k)


NPC = [c for c in numpy_cases() if not (str(c.get("d", "")).startswith(">U") and c["k"] == "strarr") and c["k"] not in ("objarr", "npspecial", "matrix")]


# ----------------------------------------------------------------------------- scipy
def rsparse(r, i):
    import scipy.sparse as sp
    cls = (sp.csr_matrix, sp.csc_matrix, sp.bsr_matrix)[i % 3]
    dt = r.choice(("?", "i1", "<i4", "<i8", "u1", "<u8", "<f4", "<f8", "<c8", "<c16", "<i2", "g"))
    if cls is sp.bsr_matrix:
        br, bc = r.choice(((1, 1), (2, 2), (1, 3), (3, 2)))
        nr, nc = r.choice(((0, 0), (1, 1), (2, 3), (4, 2), (5, 5)))
        nr, nc = max(nr, 1), max(nc, 1)
        rows = [sorted(r.sample(range(nc), r.randrange(0, nc + 1))) if r.random() < .7 else [] for _ in range(nr)]
        if r.random() < .3:
            rows[-1] = []
        ind = [c for row in rows for c in row]
        ptr = np.cumsum([0] + [len(x) for x in rows])
        data = rplain(r, dt, (len(ind), br, bc))
        if len(ind) and r.random() < .4:
            data[r.randrange(len(ind))] = 0
        idt = r.choice(("i4", "i8"))
        return cls((data, np.array(ind, dtype=idt), np.array(ptr, dtype=idt)), shape=(nr * br, nc * bc), dtype=np.dtype(dt))
    nmaj, nmin = r.choice(((0, 5), (5, 0), (1, 1), (3, 4), (7, 2), (1, 9), (20, 20), (4, 1)))
    rows = []
    for _ in range(nmaj):
        k = r.randrange(0, nmin + 1) if nmin and r.random() < .7 else 0
        row = [r.randrange(nmin) for _ in range(k)] if r.random() < .3 else (r.sample(range(nmin), k))
        if r.random() < .6:
            row = sorted(row)
        rows.append(row)
    if rows and r.random() < .4:
        rows[-1] = []
    ind = [c for row in rows for c in row]
    ptr = np.cumsum([0] + [len(x) for x in rows])
    data = rplain(r, dt, (len(ind),))
    if len(ind) and r.random() < .4:
        data[r.randrange(len(ind))] = 0
    shape = (nmaj, nmin) if cls is sp.csr_matrix else (nmin, nmaj)
    return cls((data, np.array(ind, dtype="i4"), np.array(ptr, dtype="i4")), shape=shape, dtype=np.dtype(dt))


def sparse_special(r, i):
    import scipy.sparse as sp
    m = sp.csr_matrix(np.array([[0, 1.5, 0], [0, 0, 0], [2.5, 0, 0]]))
    C = [
        lambda: sp.csr_matrix((3, 4)),
        lambda: sp.csc_matrix((3, 4), dtype="i1"),
        lambda: sp.bsr_matrix((4, 6)),
        lambda: sp.csr_matrix((0, 0)) if False else sp.csr_matrix((1, 0)),
        lambda: sp.csr_matrix((1000, 100000)),
        lambda: sp.csc_matrix(([1.0], ([0], [0])), shape=(5, 7)),
        lambda: sp.csr_matrix(([0.0, 0.0], ([0, 1], [1, 1])), shape=(4, 4)),
        lambda: [m, m, m.copy()],
        lambda: {"a": m, ("t", 1): m.tocsc(), "b": sp.bsr_matrix(np.eye(4), blocksize=(2, 2))},
        lambda: sp.bsr_matrix(np.arange(36).reshape(6, 6), blocksize=(3, 2)),
        lambda: sp.csr_matrix(np.array([[1 + 2j, 0], [0, -1j]])),
        lambda: sp.csr_matrix(np.array([[True, False]])),
        lambda: sp.csr_matrix(np.array([[2 ** 63]], dtype="u8")),
        lambda: (m[:, 1], m[1], m.T),
        lambda: sp.bsr_matrix((np.ones((1, 2, 3)), np.array([1]), np.array([0, 1, 1])), shape=(4, 6)),
        lambda: sp.csr_matrix(np.eye(3)).astype("f4"),
        lambda: sp.bsr_matrix(np.ones((1, 1)), blocksize=(1, 1)),
        lambda: [sp.csr_matrix((2, 2)), sp.csc_matrix((2, 2)), sp.bsr_matrix((2, 2), blocksize=(1, 2))],
        lambda: sp.csr_matrix(np.full((1, 3), np.nan)),
        lambda: objarray([m, None]),
    ]
    return C[i % len(C)]()


NSPARSE = 20


# ----------------------------------------------------------------------------- astropy
UNITS = ["m", "km / s", "Jy", "deg", "", "erg / (cm2 s Hz)", "kg m2 / s2", "arcsec", "mag", "1 / h", "solMass", "pc", "m(3/2)", "10 m", "AA", "%", "eV", "Ohm"]
ANGLE_UNITS = ["deg", "rad", "arcsec", "hourangle", "arcmin"]


def astropy_objects(r, i):
    from astropy import units as u, constants as const
    from astropy.coordinates import Angle, Latitude, Longitude, SkyCoord
    from astropy.table import Table
    from astropy.time import Time
    shape = r.choice([(), (), (1,), (3,), (2, 2), (0,)])
    vals = lambda lo=-1e6, hi=1e6: np.array([r.uniform(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape)
    m = i % 24
    if m < 6:
        v = vals() if m % 2 else (vals() if r.random() < .5 else np.array([nice(rfloat(r)) for _ in range(int(np.prod(shape)))]).reshape(shape))
        return u.Quantity(v if shape else float(v), u.Unit(r.choice(UNITS)))
    if m < 8:
        return Angle(vals(-1000, 1000), u.Unit(r.choice(ANGLE_UNITS)))
    if m == 8:
        un = r.choice(("deg", "arcsec", "rad"))
        lim = {"deg": 90, "arcsec": 324000, "rad": 1.57}[un]
        return Latitude(vals(-lim, lim), u.Unit(un))
    if m == 9:
        un = r.choice(("deg", "hourangle", "rad"))
        return Longitude(vals(0, {"deg": 359.9, "hourangle": 23.9, "rad": 6.28}[un]), u.Unit(un))
    if m < 13:
        fmt = r.choice(("jd", "mjd", "unix", "cxcsec", "gps", "decimalyear", "byear", "jyear", "plot_date", "unix_tai"))
        lo, hi = dict(jd=(2440000, 2470000), mjd=(40000, 70000), unix=(0, 2e9), cxcsec=(0, 1e9), gps=(0, 1e9), decimalyear=(1980, 2030), byear=(1950, 2030), jyear=(1950, 2030), plot_date=(1, 20000), unix_tai=(0, 2e9))[fmt]
        scale = r.choice(("utc", "tai", "tt", "tdb", "ut1")[:4])
        if fmt in ("byear", "jyear"): scale = r.choice(("tt", "tdb", "tai"))
        if fmt == "plot_date": scale = "utc"
        if fmt == "unix_tai": scale = "tai"
        v = vals(lo, hi)
        t = Time(v if shape else float(v), format=fmt, scale=scale)
        for _ in range(6):      # not every format reproduces its own values exactly
            t2 = Time(np.array(t.value), format=fmt, scale=scale)
            if np.array_equal(t2.value, t.value):
                return t
            t = t2
        return Time(np.round(vals(40000, 70000)), format="mjd", scale=scale)
    if m < 16:
        fmt = r.choice(("iso", "isot", "yday", "fits"))
        scale = r.choice(("utc", "tai", "tt"))
        def one():
            y, mo, d, h, mi, s = r.randrange(1970, 2035), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)
            t = "%02d:%02d:%02d.%03d" % (h, mi, s, r.randrange(1000))
            if fmt == "iso": return "%04d-%02d-%02d %s" % (y, mo, d, t)
            if fmt == "yday": return "%04d:%03d:%s" % (y, r.randrange(1, 366), t)
            return "%04d-%02d-%02dT%s" % (y, mo, d, t)
        if shape == (0,): return Time(one(), format=fmt, scale=scale)
        arr = np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)
        return Time(arr if shape else one(), format=fmt, scale=scale)
    if m < 19:
        return SkyCoord(ra=vals(0, 360) * u.deg, dec=vals(-90, 90) * u.deg) if r.random() < .7 else SkyCoord(vals(0, 6.28) * u.rad, vals(-1.5, 1.5) * u.rad, frame="icrs")
    if m == 19:
        return getattr(const, r.choice(("c", "G", "h", "k_B", "M_sun", "R_earth", "e", "sigma_sb", "m_e", "L_sun", "alpha"))) if r.random() < .85 else const.G.cgs if False else const.M_sun
    if m < 23:
        n = r.choice((0, 1, 3, 5))
        cols, names = [], []
        for c in range(r.randrange(1, 5)):
            dt = r.choice(("<i4", "<f8", ">f4", "?", "S4", "u1", "<c16", "<i8"))
            sh = (n,) if r.random() < .8 else (n, 2)
            cols.append(rstrarr(r, dt, sh) if dt[0] == "S" else rplain(r, dt, sh))
            names.append(r.choice(("a", "flux", "x y", "col/1", "B", "ra")) + str(c))
        meta = {}
        for _ in range(r.randrange(0, 4)):
            meta[r.choice(("author", "n", "z", "flag", "note"))] = r.choice((rint(r) % 1000, r.uniform(-1, 1), "text", True, "é日"))
        return Table(cols, names=names, meta=meta)
    q = u.Quantity([1.5, 2.5], "m")
    return r.choice((lambda: [q, q, u.Quantity(1.0, "s")], lambda: {"q": q, ("t", 1): Time(50000.5, format="mjd", scale="tai")}, lambda: (SkyCoord([1.0, 2] * u.deg, [3.0, 4] * u.deg), [Angle(1.5, "deg")])))()


# ----------------------------------------------------------------------------- pickle fallback
class Unpicklable:
    def __reduce_ex__(self, p):
        raise TypeError("not picklable")


class PickleBoom:
    def __reduce__(self):
        raise RuntimeError("boom")


def opaque_extra(r, i):
    import pandas as pd
    C = [
        lambda: pd.DataFrame({"a": [1, 2, 3], "b": [0.5, float("nan"), 2]}, index=["x", "y", "z"]),
        lambda: pd.Series([1.5, 2.5], name="s"),
        lambda: pd.DataFrame(),
        lambda: [pd.Series([1, 2]), 3],
        lambda: pd.Timestamp("2020-01-01T12:00"),
        lambda: {"df": pd.DataFrame({"q": ["a", None]})},
        lambda: {Hashed(1): Point(1, 2)},
        lambda: [Bare(1), {"b": Bare([2])}, BareList([1, Bare("x")])],
        lambda: [Point(1, Point(2, 3)), {"x": Slots(1, 2)}],
        lambda: ({"a": [datetime.date(2020, 1, 1)]}, (decimal.Decimal("1.0"),)),
        lambda: [a_function, Point, int, None.__class__, len],
        lambda: collections.defaultdict(list, {"a": [1]}),
        lambda: [collections.defaultdict(int, {"a": 1})],
        lambda: collections.ChainMap({"a": 1}, {"b": 2}),
        lambda: {frozenset((1, 2)): frozenset((3,))},
        lambda: [np.random.RandomState(3).get_state()[0], np.datetime64("2020-01-01", "D")] if False else [range(3), slice(1, 2)],
        lambda: objarray([Point(1, 2), Color.RED, None]),
        lambda: (Color.BLUE, [Color.RED]),
        lambda: [memo for memo in (Reduced(1, "x"), WithState([1, 2]))],
        lambda: {"nested": {"deeper": [Slots("a", {"k": Point(0, 0)})]}},
        lambda: [bytearray(b""), bytearray(b"\x00x"), b""],
        lambda: ValueError("message", 3),
        lambda: [uuid.UUID(int=5), fractions.Fraction(1, 3)],
        lambda: type("x", (), {}) if False else collections.OrderedDict,
        lambda: MyInt(5),
        lambda: [MyInt(5), "a"],
        lambda: MyFloat(2.5),
        lambda: {"k": MyStr("s"), "b": MyBytes(b"q")},
        lambda: np.random.default_rng(5).bit_generator.state["bit_generator"],
        lambda: re_compiled(),
        lambda: array_array(),
        lambda: Point(np.arange(4), {"k": {1, 2}}),
        lambda: {"exc": KeyError("k"), "t": datetime.time(1, 2, 3)},
    ]
    return C[i % len(C)]()


NOPAQUE = 32


def re_compiled():
    import re
    return re.compile("a+b", re.I).pattern


def array_array():
    import array
    return array.array("d", [1.0, 2.5])


def unstorable(r, i):
    """objects dump can not store: (object, description)"""
    inner = r.choice((lambda: (lambda: 0), lambda: (x for x in ()), lambda: Unpicklable(), lambda: PickleBoom(), lambda: open("/dev/null"), lambda: __import__("threading").Lock(), lambda: "\ud800"))()
    C = [lambda x: x, lambda x: [x], lambda x: {"a": 1, "b": x}, lambda x: [1, [2, ("s", x)]], lambda x: Point(1, x) if not isinstance(x, str) else [x], lambda x: {1: [x], 2: "x"}, lambda x: (np.arange(3), x), lambda x: objarray([1, x]), lambda x: [x, x], lambda x: collections.OrderedDict(z=x)]
    return C[i % len(C)](inner)


NUNSTORABLE = 10
