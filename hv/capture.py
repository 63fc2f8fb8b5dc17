"""Projection of Python objects onto the heaps the specification talks about.

A heap is a list of nodes (1-based indices in the specification), node 1 is the root:

  k  kind      "leaf" | "seq" | "set" | "map" | "arr" | "obj"
  t  type      fully qualified class name ("int", "numpy.ndarray", ...)
  v  value     exact value token (leaf, arr, obj), "" for containers
  n  number    canonical exact numeric value ("" when not a number)
  q  num kind  "b" | "i" | "f" | "c" | ""
  i  identity  1 if identity of the object is observable (compound objects), else 0
  c  children  indices (map: key1, value1, key2, value2, ...)

Two objects have the same projection iff they are equal for a user (type, exact value, order,
sharing); the comparison itself (which differences are permitted) is done by the specification.
"""
import hashlib, types, enum, functools
from fractions import Fraction
import numpy as np

MAXTOK = 96


def tname(cls):
    m = cls.__module__
    return cls.__qualname__ if m == "builtins" else m + "." + cls.__qualname__


def short(s):
    return s if len(s) <= MAXTOK else "sha:%s:%d" % (hashlib.sha256(s.encode("utf8", "surrogatepass")).hexdigest()[:24], len(s))


def text_token(s):
    if s.isascii() and s.isprintable() and '"' not in s and "\\" not in s:
        return short("'" + s)
    return short("x" + s.encode("utf8", "surrogatepass").hex())


def bytes_token(b):
    return short("b" + bytes(b).hex())


def _real(x):
    """exact canonical token of a real number"""
    if isinstance(x, int):
        return short(str(x)) if abs(x) < 10 ** 4000 else "sha:" + hashlib.sha256(hex(x).encode()).hexdigest()
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    p, q = x.as_integer_ratio()
    p, q = int(p), int(q)
    if p == 0:
        return "-0" if np.signbit(x) else "0"
    return short(str(p)) if q == 1 else short("%d/%d" % (p, q))


def num_token(x):
    """(canonical number, numeric kind)"""
    if isinstance(x, (bool, np.bool_)):
        return ("1" if x else "0"), "b"
    if isinstance(x, (int, np.integer)) and not isinstance(x, np.timedelta64):
        return _real(int(x)), "i"
    if isinstance(x, (float, np.floating)):
        return _real(x if isinstance(x, np.longdouble) else float(x)), "f"
    if isinstance(x, (complex, np.complexfloating)):
        re, im = _real(x.real if isinstance(x.real, np.longdouble) else float(x.real)), _real(x.imag if isinstance(x.imag, np.longdouble) else float(x.imag))
        return (re if im == "0" else re + "|" + im), "c"
    return "", ""


def dtype_token(dt):
    if dt.names is not None:
        return "{" + ",".join("%s:%s@%d" % (n, dtype_token(dt.fields[n][0]), dt.fields[n][1]) for n in dt.names) + ";%d}" % dt.itemsize
    if dt.subdtype is not None:
        return "%s%s" % (dtype_token(dt.subdtype[0]), dt.subdtype[1])
    return dt.str


def array_token(a):
    """dtype, shape and elements of a non object array"""
    a = np.asarray(a)
    head = "%s|%s|" % (dtype_token(a.dtype), "x".join(map(str, a.shape)))
    if a.dtype.kind in "fc" and a.dtype.itemsize not in (2, 4, 8, 16) or a.dtype.char in "gG":
        body = ",".join(num_token(x)[0] for x in a.ravel().tolist() ) if a.dtype.char not in "gG" else ",".join(num_token(x)[0] for x in a.ravel())
    elif a.dtype.names is not None or a.dtype.kind == "V":
        body = repr(a.ravel().tolist())
    elif a.dtype.kind == "O":
        body = repr([x.hex() if isinstance(x, bytes) else x.encode("utf8", "surrogatepass").hex() if isinstance(x, str) else array_token(x) if isinstance(x, np.ndarray) else repr(x) for x in a.ravel().tolist()])
    else:
        # raw bits, also of NaNs (native order: byte order is part of the dtype)
        body = np.ascontiguousarray(a).astype(a.dtype.newbyteorder("="), copy=False).tobytes().hex()
    return head + (body if len(body) <= 160 else "sha:%s:%d" % (hashlib.sha256(body.encode()).hexdigest()[:24], len(body)))


class Capture:
    def __init__(self):
        self.nodes = []
        self.memo = {}
        self.keep = []

    def node(self, k, t, v="", n="", q="", i=0):
        d = dict(k=k, t=t, v=v, n=n, q=q, i=i, c=[])
        self.nodes.append(d)
        return len(self.nodes), d

    def leaf(self, t, v, n="", q=""):
        return self.node("leaf", t, v, n, q)[0]

    def add(self, o):
        cls = o.__class__
        # --- leaves: no identity -----------------------------------------------------
        if o is None:
            return self.leaf("NoneType", "None")
        if isinstance(o, np.generic) and cls.__module__ == "numpy":
            n, q = num_token(o)
            if isinstance(o, np.str_):
                v = text_token(str(o))
            elif isinstance(o, np.bytes_):
                v = bytes_token(o)
            elif o.dtype.char in "gG":
                v = n
            elif isinstance(o, np.void):
                v = repr(o.tolist()) + dtype_token(o.dtype)
            else:
                v = o.dtype.str + ":" + np.asarray(o).astype(o.dtype.newbyteorder("=")).tobytes().hex()
            if q == "f" and o != o: v = "nan"
            return self.leaf(tname(cls), short(v), n, q)
        if cls in (bool, int, float, complex):
            n, q = num_token(o)
            if cls is float:
                v = o.hex()
            elif cls is complex:
                v = "%s %s" % (o.real.hex(), o.imag.hex())
            elif cls is int:
                v = n
            else:
                v = repr(o)
            return self.leaf(cls.__name__, v, n, q)
        if isinstance(o, (int, float, complex)) and not isinstance(o, enum.Enum):
            # instances of subclasses: as little identity as the numbers themselves
            n, q = num_token(o)
            extra = getattr(o, "__dict__", None)
            return self.leaf(tname(cls), n + (canonical(extra) if extra else ""), n, q)
        if isinstance(o, str) and not isinstance(o, enum.Enum):
            return self.leaf(tname(cls), text_token(str.__str__(o)))
        if cls is bytes or (isinstance(o, bytes)):
            return self.leaf(tname(cls), bytes_token(bytes(o)))
        if isinstance(o, np.dtype):
            return self.leaf("numpy.dtype", dtype_token(o))
        if cls is tuple and not o:
            return self.leaf("tuple", "()")
        if o is Ellipsis or o is NotImplemented:
            return self.leaf(tname(cls), repr(o))
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)):
            return self.leaf("global", "%s.%s" % (getattr(o, "__module__", ""), o.__qualname__))
        if isinstance(o, enum.Enum):
            return self.leaf(tname(cls), o.name)
        # --- compound: identity ------------------------------------------------------
        ref = self.memo.get(id(o))
        if ref is not None:
            return ref
        self.keep.append(o)
        return self.compound(o, cls)

    def rows(self, a):
        """elements of an object array; the rows of a multi dimensional one are collections (without
        identity) of their own"""
        if a.ndim == 0:
            return [self.add(a[()])]
        if a.ndim == 1:
            return [self.add(a[j]) for j in range(a.shape[0])]
        if a.size == 0:
            return []
        out = []
        for j in range(a.shape[0]):
            i, d = self.node("seq", "row")
            d["c"] = self.rows(a[j])
            out.append(i)
        return out

    def put(self, o, *a, **k):
        i, d = self.node(*a, i=1, **k)
        self.memo[id(o)] = i
        return i, d

    def compound(self, o, cls):
        t = tname(cls)
        rec = getattr(cls, "__hv_capture__", None)
        if rec is not None:          # classes of the harness describe their own state
            i, d = self.put(o, "obj", t)
            d["v"] = canonical(rec(o))
            return i
        if isinstance(o, (list, tuple)):
            i, d = self.put(o, "seq", t)
            d["c"] = [self.add(x) for x in list.__iter__(o)] if isinstance(o, list) else [self.add(x) for x in tuple.__iter__(o)]
            extra = getattr(o, "__dict__", None)
            if extra:
                d["v"] = canonical(extra)
            return i
        if isinstance(o, set):
            i, d = self.put(o, "set", t)
            d["c"] = [self.add(x) for x in o]
            return i
        if t.startswith("hickle.") and t.endswith(".RecoveredGroup"):
            i, d = self.put(o, "rec", "RecoveredGroup", recovered_token(o.attrs))
            for key in sorted(o):
                val = o[key]
                d["c"].append(self.leaf("name", key))
                if type(val).__name__ in ("RecoveredGroup", "RecoveredDataset"):
                    d["c"].append(self.add(val))
                elif type(val) is tuple and len(val) == 2:
                    sub = self.add(val[0])
                    j, e = self.node("rec", "item", attrs_token(val[1]))
                    e["c"] = [sub]
                    d["c"].append(j)
                else:
                    d["c"].append(self.add(val))
            return i
        if t.startswith("hickle.") and t.endswith(".RecoveredDataset"):
            i, d = self.put(o, "rec", "RecoveredDataset", array_token(o.view(np.ndarray)) + "#" + recovered_token(o.attrs))
            return i
        if isinstance(o, dict):
            i, d = self.put(o, "map", t)
            if hasattr(o, "default_factory"):
                d["v"] = repr(getattr(o.default_factory, "__qualname__", o.default_factory))
            c = []
            for key, val in dict.items(o):
                c += [self.add(key), self.add(val)]
            d["c"] = c
            return i
        if isinstance(o, np.ma.MaskedArray):
            i, d = self.put(o, "arr", t)
            d["v"] = short(array_token(o.data) + "#" + array_token(np.ma.getmaskarray(o))) if o.dtype.kind != "O" else "O"
            return i
        if isinstance(o, np.ndarray) and type(o).__module__.split(".")[0] != "astropy":
            i, d = self.put(o, "arr", t)
            if o.dtype.kind == "O":
                d["v"] = "O|" + "x".join(map(str, o.shape))
                d["c"] = self.rows(np.asarray(o))
            else:
                d["v"] = array_token(o)
            return i
        mod = type(o).__module__.split(".")[0]
        if mod == "scipy":
            i, d = self.put(o, "arr", t)
            d["v"] = sparse_token(o)
            return i
        if mod == "astropy":
            i, d = self.put(o, "obj", t)
            d["v"] = astropy_token(o)
            return i
        if mod == "pandas":
            i, d = self.put(o, "obj", t)
            d["v"] = pandas_token(o)
            return i
        i, d = self.put(o, "obj", t)
        d["v"] = reduce_token(o)
        return i


def attrs_token(attrs):
    return short(canonical({str(k): (v.decode() if isinstance(v, bytes) else v) for k, v in sorted(attrs.items())}))


def recovered_token(attrs):
    base = attrs.get("base_type", b"")
    return attrs_token({k: v for k, v in attrs.items() if k != "base_type"}) + "|" + (base.decode() if isinstance(base, bytes) else str(base))


def sparse_token(o):
    bs = "x".join(map(str, o.blocksize)) if hasattr(o, "blocksize") else ""
    body = "%s|%s|%s|%s|%s" % ("x".join(map(str, o.shape)), bs, array_token(o.data),
                               ",".join(map(str, o.indices.tolist())), ",".join(map(str, o.indptr.tolist())))
    return short(body)


def native(a):
    return a.astype(a.dtype.newbyteorder("="))


def astropy_token(o):
    from astropy.constants import Constant
    from astropy.coordinates import SkyCoord
    from astropy.table import Table
    from astropy.time import Time
    from astropy.units import Quantity
    if isinstance(o, Constant):
        return short("C|%s|%s|%s|%s|%s|%s|%s" % (float(o.value).hex(), o.unit, o.name, o.abbrev, o.reference, float(o.uncertainty).hex(), o.system))
    if isinstance(o, Quantity):
        return short("Q|%s|%s" % (array_token(np.asarray(o.value, dtype="float64")), o.unit.to_string()))
    if isinstance(o, Time):
        val = np.asarray(o.value)
        if val.dtype.kind == "U":
            body = "%s|%r" % ("x".join(map(str, val.shape)), val.ravel().tolist())
        else:
            body = array_token(val)
        return short("T|%s|%s|%s" % (body, o.format, o.scale))
    if isinstance(o, SkyCoord):
        return short("S|%s|%s|%s|%s|%s|%s" % (o.frame.name, array_token(o.data.lon.value), o.data.lon.unit, array_token(o.data.lat.value), o.data.lat.unit, tuple(o.shape)))
    if isinstance(o, Table):
        cols = ";".join("%s=%s" % (n, array_token(native(np.asarray(o[n])))) for n in o.colnames)
        return short("B|%s|%s" % (cols, canonical({k: o.meta[k] for k in sorted(o.meta)}, numeric=True)))
    return reduce_token(o)


def pandas_token(o):
    import pandas as pd
    if isinstance(o, pd.DataFrame):
        return short("DF|%s|%s|%s" % (pandas_token(o.index), ",".join(map(repr, o.columns.tolist())), ";".join(pandas_token(o.iloc[:, j]) for j in range(o.shape[1]))))
    if isinstance(o, (pd.Series, pd.Index)):
        return short("%s|%s|%r|%r" % (type(o).__name__, o.dtype, o.name, [repr(x) for x in o.tolist()]))
    return short(repr(o))


def reduce_token(o):
    if isinstance(o, (frozenset,)):
        return short("fs:" + ",".join(sorted(canonical(x) for x in o)))
    if isinstance(o, (range, slice, bytearray)):
        return short(repr(o))
    r = o.__reduce_ex__(4)
    if isinstance(r, str):
        return "g:" + r
    parts = []
    for j, p in enumerate(r):
        if p is None:
            parts.append("None")
        elif j in (3, 4) and p is not None:
            parts.append(canonical(list(p)))
        else:
            parts.append(canonical(p))
    return short("r:" + ";".join(parts))


def canonical(o, numeric=False):
    """canonical text of a (sub) structure including its internal sharing"""
    h = capture(o)
    seen = {}

    def render(j):
        d = h[j - 1]
        if j in seen:
            return "@%d" % seen[j]
        if d["i"]:
            seen[j] = len(seen)
        if d["k"] == "set":
            return "%s{%s}" % (d["t"], ",".join(sorted(canonical_at(h, x) for x in d["c"])))
        if numeric and d["q"]:
            return d["n"]
        return "%s:%s(%s)" % (d["t"], d["v"], ",".join(render(x) for x in d["c"]))
    return short(render(1))


def canonical_at(h, j):
    d = h[j - 1]
    return "%s:%s(%s)" % (d["t"], d["v"], ",".join(canonical_at(h, x) for x in d["c"]))


def capture(o):
    c = Capture()
    # iterative guard against very deep structures is not needed: the recursion limit of the
    # workers is raised and depth is bounded by what hickle itself can handle
    c.add(o)
    return c.nodes
