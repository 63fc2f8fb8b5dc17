"""Value pools and generators.  Everything is a pure function of (name, seed, index) so that a case
is identified by its job document alone."""
import collections, datetime, decimal, enum, fractions, math, random, struct, sys, types, uuid
import numpy as np

# ----------------------------------------------------------------------------- scalars
INTS = sorted({s * (2 ** k + d) for k in (0, 1, 4, 7, 8, 15, 16, 23, 24, 31, 32, 47, 52, 53, 54, 62, 63, 64, 65, 66, 100, 127, 128, 200, 1023, 1024) for d in (-1, 0, 1) for s in (-1, 1)} | {0, 10 ** 18, 10 ** 19, 10 ** 30, -10 ** 40, 3 ** 1000})
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.5, math.pi, 1e308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308,
          2.2250738585072009e-308, float("inf"), float("-inf"), float("nan"), 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, 1e16, 1e22, 123456789.123456789, 3.4028235677973366e38, 65504.0, 65520.0, 16777217.0]
COMPLEX = [0j, 1j, complex(-0.0, -0.0), complex(-0.0, 0.0), complex(0.0, -0.0), 1 + 2j, -1.5 - 2.5j, complex(float("inf"), -1), complex(1, float("-inf")), complex(float("nan"), 2), complex(2, float("nan")), complex(1e308, 5e-324), complex(0.1, 0.2), complex(2.0 ** 53, 0)]
TEXTS = ["", "a", "abc", " ", "\t\n\r", "\x00", "a\x00", "\x00a", "a\x00b\x00", "\x00\x00", "é", "ß", "ÿ", "Ā", "߿", "ࠀ", "日本語", "\uffff", "\ufeffbom", "\U00010000", "\U0010ffff", "😀", "e\u0301", "\u00e9",
         "\u200b", "\u202e", "\ud7ff", "\ue000", "a/b", "a\\b", "\\x00", "'", '"', "'\"", "None", "True", "1", "1.0", "b'x'", ".", "..", "/", "//", "data", "data0", "\x7f", "\x80", "\x1b[0m", "\r\n", "a" * 255, "a" * 256, "é" * 300, "x" * 70000, "日" * 22000, "\x00" * 40, " lead", "trail ", "trail\x00", "%s{}", "\\", "\\\\", "\u2028", "\x85", "\xa0"]
BYTES = [b"", b"a", b"\x00", b"a\x00", b"\x00a", b"\x00\x00\x00", b"\xff", b"\xfe\xff", b"\x80", b"abc", b"\xc3\x28", "é日".encode(), bytes(range(256)), b"\xff" * 300, b"x" * 70000, b"\n", b"a/b", b"a\\b", b'"', b"'", b" ", b"tail ", b"tail\x00\x00", b"\x80\x04N.", b"1", b"0", b"None", b"\x0d\x0a"]
BOOLS = [True, False]
SCALARS = [None] + BOOLS + INTS + FLOATS + COMPLEX + TEXTS + BYTES
SMALL = [None, True, False, 0, 1, -1, 7, 2 ** 31, 2 ** 53 + 1, 2 ** 62 + 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 10 ** 30, 0.0, -0.0, 0.5, 1.0, 1e300, float("nan"), float("inf"), float(2 ** 53), 1j, 1 + 0j, complex(0, -0.0), "", "a", "\x00", "ab", "é", "1", b"", b"a", b"\x00", b"ab", b"\xff\x00"]


def rint(r):
    k = r.choice((r.randrange(1, 9), r.randrange(1, 66), r.randrange(1, 70), r.randrange(60, 66), r.randrange(1, 400)))
    v = r.getrandbits(k)
    return -v if r.random() < .5 else v


def rfloat(r):
    m = r.random()
    if m < .5:
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    if m < .7:
        return float(rint(r) % 2 ** 70)
    if m < .85:
        return r.choice(FLOATS)
    return r.uniform(-10, 10)


def nice(x):
    """NaN payloads are not part of the contract for Python floats"""
    return float("nan") if x != x else x


def rtext(r):
    n = r.choice((0, 1, 1, 2, 3, 5, 8, 20, 200))
    out = []
    for _ in range(n):
        m = r.random()
        if m < .35:
            out.append(chr(r.randrange(32, 127)))
        elif m < .5:
            out.append(r.choice("\x00/\\\"'.\n "))
        elif m < .7:
            out.append(chr(r.randrange(0x80, 0x800)))
        elif m < .9:
            c = r.randrange(0x800, 0x10000)
            out.append(chr(c if not 0xd800 <= c < 0xe000 else 0xe000))
        else:
            out.append(chr(r.randrange(0x10000, 0x110000)))
    return "".join(out)


def rbytes(r):
    n = r.choice((0, 1, 1, 2, 3, 5, 8, 20, 300))
    return bytes(r.choice((r.randrange(256), 0, 255, 47)) for _ in range(n))


def rscalar(r):
    m = r.random()
    if m < .07:
        return None
    if m < .14:
        return r.random() < .5
    if m < .34:
        return r.choice((rint(r), r.choice(INTS)))
    if m < .5:
        return nice(rfloat(r))
    if m < .6:
        return r.choice((complex(nice(rfloat(r)), nice(rfloat(r))), r.choice(COMPLEX)))
    if m < .82:
        return r.choice((rtext(r), r.choice(TEXTS)))
    return r.choice((rbytes(r), r.choice(BYTES)))


def hashable_number_clash(items, x):
    return any(x == y for y in items if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)))


# ----------------------------------------------------------------------------- arrays
PLAIN_DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<u2", ">u2", "<i4", ">i4", "<u4", ">u4", "<i8", ">i8", "<u8", ">u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8", "<c8", ">c8", "<c16", ">c16", "g"]
STR_DTYPES = ["S1", "S3", "S17", "<U1", "<U3", "<U11", ">U2"]
SHAPES = [(), (0,), (1,), (2,), (5,), (0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (2, 0, 3), (1, 2, 3), (2, 1, 2, 2), (1, 1, 1, 1, 1), (17,), (300,)]


def rplain(r, dt, shape):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    if dt.char in "gG":
        a = np.array([rfloat_finite(r) for _ in range(n)], dtype=dt)
        if n and dt.char == "g":
            a[r.randrange(n)] = np.longdouble(1) / 3
    elif dt.kind == "b":
        a = np.array([r.random() < .5 for _ in range(n)], dtype=dt)
    else:
        raw = bytes(r.getrandbits(8) for _ in range(n * dt.itemsize))
        a = np.frombuffer(raw, dtype=dt).copy()
        if dt.kind in "fc" and n:
            sp = [0.0, -0.0, 1.0, float("inf"), float("-inf"), float("nan")]
            a[r.randrange(n)] = r.choice(sp) if dt.kind == "f" else complex(r.choice(sp), r.choice(sp))
        if dt.kind in "iu" and n:
            ii = np.iinfo(dt)
            a[r.randrange(n)] = r.choice((ii.min, ii.max, 0, 1))
    return a.reshape(shape)


def rfloat_finite(r):
    while True:
        x = rfloat(r)
        if x == x and abs(x) != float("inf"):
            return x


def rstrarr(r, dt, shape):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    w = dt.itemsize if dt.kind == "S" else dt.itemsize // 4
    vals = []
    for _ in range(n):
        k = r.randrange(0, w + 1)
        if dt.kind == "S":
            v = bytes(r.choice((r.randrange(1, 256), 65, 0x20)) for _ in range(k))
            if k > 2 and r.random() < .3:
                v = v[:1] + b"\x00" + v[2:]
            vals.append(v.rstrip(b"\x00"))
        else:
            v = rtext(r)[:k]
            vals.append(v.rstrip("\x00"))
    a = np.empty(n, dtype=dt)
    for j, v in enumerate(vals):
        a[j] = v
    return a.reshape(shape)


def relayout(r, a, kind=None):
    """same elements in another memory layout"""
    kind = kind or r.choice(("C", "F", "rev", "step", "T", "broadcast", "readonly"))
    if a.ndim == 0 or kind == "C":
        return a
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "rev":
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
    if kind == "step":
        big = np.zeros(tuple(2 * d for d in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "T":
        return np.ascontiguousarray(a.T).T
    if kind == "broadcast":
        return np.broadcast_to(a, (2,) + a.shape)
    b = a.copy()
    b.flags.writeable = False
    return b


STRUCTS = [[("a", "<i4"), ("b", "<f8")], [("x", "u1")], [("p", "<f4", (2,)), ("q", "S5")], [("n", [("u", "<i2"), ("v", ">f4")]), ("m", "?")], [("z", "<c16"), ("é", "<i8")],
           {"names": ["a", "b"], "formats": ["<i2", "<f8"], "offsets": [0, 8], "itemsize": 24}]


def rstruct(r, shape, which=None):
    dt = np.dtype(STRUCTS[r.randrange(len(STRUCTS)) if which is None else which])
    return fill_struct(r, np.zeros(shape, dtype=dt))


def fill_struct(r, a):
    for nm in a.dtype.names:
        f = a[nm]
        if f.dtype.names:
            fill_struct(r, f)
        elif f.dtype.kind == "S":
            f[...] = rstrarr(r, f.dtype, f.shape)
        else:
            f[...] = rplain(r, f.dtype, f.shape)
    return a


def rarray(r, small=False):
    m = r.random()
    shape = r.choice(SHAPES[:-2] if small else SHAPES)
    if m < .6:
        return relayout(r, rplain(r, r.choice(PLAIN_DTYPES), shape))
    if m < .8:
        dt = r.choice(STR_DTYPES)
        if 0 in shape and len(shape) > 1 and dt[0] == ">":
            dt = "<U2"       # known finding of P05, covered there
        return relayout(r, rstrarr(r, dt, shape))
    if m < .9:
        return rstruct(r, shape)
    return rmasked(r)


def rmasked(r, dt=None, shape=None, mask=None, lay=None):
    shape = r.choice(SHAPES[1:-2]) if shape is None else shape
    lays = ("C", "F", "rev", "step", "T", "readonly")
    dt = dt or r.choice([d for d in PLAIN_DTYPES if d != "g"])
    a = relayout(r, rstrarr(r, dt, shape) if dt[-2:-1] in ("S", "U") else rplain(r, dt, shape), lay or r.choice(lays))
    mask = mask or r.choice(("rand", "none", "all", "nomask"))
    if mask == "nomask":
        return np.ma.array(a)
    if mask == "none":
        return np.ma.array(a, mask=False)
    if mask == "all":
        return np.ma.array(a, mask=True)
    return np.ma.array(a, mask=relayout(r, rplain(r, "?", shape), lay or r.choice(lays)))


def rnpscalar(r):
    dt = r.choice(PLAIN_DTYPES)
    return rplain(r, dt.replace(">", "<"), (1,))[0]


# ----------------------------------------------------------------------------- user classes
class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y


def _bare_module():
    """classes of a module without import specification (like __mp_main__ of spawned processes)"""
    m = types.ModuleType("hv_bare")
    exec("class Bare:\n    def __init__(self, x): self.x = x\nclass BareList(list): pass", m.__dict__)
    return sys.modules.setdefault("hv_bare", m)


Bare, BareList = _bare_module().Bare, _bare_module().BareList


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class WithState:
    def __init__(self, data):
        self.data, self.cache = data, object()

    def __getstate__(self):
        return {"data": self.data}

    def __setstate__(self, st):
        self.data, self.cache = st["data"], None

    def __hv_capture__(self):
        return self.data


class Hashed:
    """hashable instance used as dict key"""
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(("Hashed", str(self.v)))

    def __eq__(self, o):
        return type(o) is Hashed and self.v == o.v


class Reduced:
    def __init__(self, a, b=None):
        self.a, self.b = a, b

    def __reduce__(self):
        return (Reduced, (self.a,), {"b": self.b})


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class MyDict(dict):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


Pair = collections.namedtuple("Pair", "first second")
Solo = collections.namedtuple("Solo", "only")


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


def a_function(x):
    return x + 1


def opaque(r, depth=0):
    """objects which have no loader of their own"""
    m = r.randrange(22)
    if m == 0: return Point(rscalar(r), rscalar(r))
    if m == 1: return Slots(rscalar(r), [1, rtext(r)])
    if m == 2: return WithState({"k": rscalar(r)})
    if m == 3: return Hashed(rint(r))
    if m == 4: return Reduced(rint(r), rtext(r))
    if m == 5: return datetime.datetime(r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10 ** 6))
    if m == 6: return datetime.timedelta(r.randrange(-999, 999), r.randrange(86400), r.randrange(10 ** 6))
    if m == 7: return datetime.date(r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29))
    if m == 8: return decimal.Decimal(r.choice(("0", "-0.00", "1.10", "NaN", "Infinity", "1E+400", "3.14159265358979323846264338327950288")))
    if m == 9: return fractions.Fraction(rint(r), 1 + abs(rint(r)))
    if m == 10: return frozenset(r.choice(((), (1, "a"), (None, 2.5, b"x"), (frozenset((1,)), 3))))
    if m == 11: return r.choice((range(0), range(5), range(10, -3, -2)))
    if m == 12: return uuid.UUID(int=r.getrandbits(128))
    if m == 13: return collections.deque([rscalar(r), 1], maxlen=r.choice((None, 5)))
    if m == 14: return bytearray(rbytes(r))
    if m == 15: return r.choice((a_function, len, math.sin, Point, dict, int, np.ndarray, np.float32))
    if m == 16: return Color.RED if r.random() < .5 else Color.BLUE
    if m == 17: return slice(r.choice((None, 1)), 5, r.choice((None, -1)))
    if m == 18: return collections.defaultdict(r.choice((list, int, None)), {rtext(r): rint(r)})
    if m == 19: return r.choice((Ellipsis, NotImplemented))
    if m == 20: return np.datetime64("2020-01-01") if False else datetime.timezone.utc
    return Point([1, Point(rtext(r), None)], {"deep": (rbytes(r),)})


# ----------------------------------------------------------------------------- structures
def rkey(r, deep=True):
    m = r.random()
    if m < .3:
        return r.choice((rtext(r), r.choice(TEXTS)))
    if m < .42:
        return r.choice((rbytes(r), r.choice(BYTES)))
    if m < .7:
        k = rscalar(r)
        return 0.5 if k != k else k
    if m < .75:
        return r.choice((np.int64(5), np.float64(2.5), np.uint8(200), np.bool_(True), np.str_("np"), np.bytes_(b"np"), np.complex64(1j), np.float32(0.1)))
    if m < .8:
        return r.choice((MyStr("sub"), MyInt(77), MyFloat(7.5), MyBytes(b"sb"), Color.RED, Color.BLUE, Hashed(3), Hashed("h"), datetime.date(2020, 1, 1), decimal.Decimal("1.5"), frozenset((1, 2)), int, ()))
    if not deep:
        return rint(r)
    return tuple(rkey(r, False) for _ in range(r.randrange(0, 4))) if r.random() < .8 else Pair(rint(r), rtext(r))


def usable_key(d, k):
    """keys equal to an existing one would not be a new entry; NaN keys can not be looked up"""
    try:
        hash(k)
        if k != k:
            return False
        return k not in d
    except Exception:
        return False


def rdict(r, depth, leaf, n=None, cls=None, width=6):
    cls = cls or r.choice((dict, dict, dict, collections.OrderedDict, MyDict))
    d = {}
    for _ in range(r.randrange(0, width) if n is None else n):
        k = rkey(r)
        if usable_key(d, k):
            d[k] = rstruct_any(r, depth - 1, leaf)
    return cls(d)


def rseq(r, depth, leaf, cls=None, width=6):
    cls = cls or r.choice((list, list, tuple, MyList, MyTuple))
    n = r.choice((0, 1, 2, 3, width, r.randrange(0, 14)))
    m = r.random()
    if m < .3:     # homogeneous or nearly homogeneous collections select other representations
        f = r.choice((rint, lambda q: nice(rfloat(q)), lambda q: q.random() < .5, rtext, rbytes, rnpscalar, lambda q: q.choice((0, 1.5, True, 2 ** 53 + 1)), lambda q: q.choice(SMALL)))
        items = [f(r) for _ in range(n)]
    else:
        items = [rstruct_any(r, depth - 1, leaf) for _ in range(n)]
    return cls(items)


def hashable(r, depth=2):
    m = r.random()
    if m < .75 or depth == 0:
        x = rscalar(r)
        return 1.25 if x != x else x
    return tuple(hashable(r, depth - 1) for _ in range(r.randrange(0, 4)))


def rset(r, cls=None):
    cls = cls or r.choice((set, set, MySet))
    n = r.choice((0, 1, 2, 3, 7))
    f = r.choice((hashable, rint, rtext, lambda q: q.choice([s for s in SMALL if s == s]), lambda q: q.choice((True, 2, 2.5, 3 + 1j))))
    s = cls()
    for _ in range(n):
        x = f(r)
        if x == x:
            s.add(x)
    return s


def rstruct_any(r, depth, leaf=rscalar):
    m = r.random()
    if depth <= 0 or m < .35:
        return leaf(r)
    if m < .65:
        return rseq(r, depth, leaf)
    if m < .88:
        return rdict(r, depth, leaf)
    if m < .97:
        return rset(r)
    return Pair(rstruct_any(r, depth - 1, leaf), rstruct_any(r, depth - 1, leaf))


def mixed_leaf(r):
    m = r.random()
    if m < .6:
        return rscalar(r)
    if m < .8:
        return rarray(r, True)
    if m < .9:
        return rnpscalar(r)
    return opaque(r)
