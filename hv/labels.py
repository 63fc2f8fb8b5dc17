"""Objects with a label: recognised by their exact projection wherever they are loaded again."""
import builtins, collections, pickle, random
import numpy as np
from hv import gen
from hv.shapes import NUMBER, ERROR_NAMES
from hv.capture import canonical


ERRORS = tuple(getattr(pickle, e, None) or getattr(builtins, e) for e in ERROR_NAMES)


class Bomb:
    """can not be stored"""

    def __init__(self, exc):
        self.exc = exc

    def __reduce_ex__(self, _):
        raise self.exc


def shapes():
    import scipy.sparse as sp
    from astropy.units import Quantity
    from astropy.time import Time

    from astropy.coordinates import Angle, SkyCoord
    from astropy.table import Table
    import datetime, decimal

    def lists(l):
        a = np.empty(2, dtype=object)
        a[0], a[1] = [1, l], [2, l]
        return a

    def shared(l, r):
        s = [l, {"k": (1, "x")}]
        return [s, {"a": s, "b": [s]}, s]
    return [
        lambda l, r: [l, 3, None],
        lambda l, r: {"lab": l, "x": [1.5, "s"], (1, "k"): b"z"},
        shared,
        lambda l, r: [l, np.arange(r.randrange(1, 40)).reshape(1, -1), np.array([l, "x"], dtype=object)],
        lambda l, r: l,
        lambda l, r: [gen.Point(l, 1.5), "x", gen.Point(l, 1.5)],
        lambda l, r: {"m": sp.csr_matrix(np.eye(3) * r.randrange(2, 9)), "l": l},
        lambda l, r: [Quantity(float(r.randrange(99)), "m"), l],
        lambda l, r: {"ma": np.ma.array([1, 2, 3], mask=[0, 1, 0]), "l": [l]},
        lambda l, r: collections.OrderedDict([(l, {"in": [l, {}]}), ("z", ()), (5, set())]),
        lambda l, r: [l + str(j) for j in range(60)],
        lambda l, r: l.encode(),
        lambda l, r: (l, 10 ** 30, -5, True, 2.5, 1j),
        lambda l, r: {l, ("x", l), None},
        lambda l, r: gen.Pair(l, [gen.Pair(1, l)]),
        lambda l, r: [Time(50000.5, format="mjd"), l, {}],
        lambda l, r: {k: [l] for k in ("a", "b", "data", "hickle_types_table", "x/y", 3, None, 2.5, b"q")},
        lambda l, r: gen.MyList([l, gen.MyDict(a=l)]),
        lambda l, r: np.array([l] * 3, dtype="S"),
        lambda l, r: [[], {}, (), l, [l, [l, [l]]]],
        lambda l, r: gen.Point(l, [l]),
        lambda l, r: {"big": np.arange(r.randrange(1000, 20000)), "l": [l, "t"], "s": l * 300},
        lambda l, r: [lists(l), l],
        lambda l, r: {"d": collections.defaultdict(list, a=[l]), "o": gen.MyDict(x=l)},
        lambda l, r: [np.dtype([("a", "i4"), ("b", "S%d" % len(l))]), np.dtype("f4"), l],
        lambda l, r: {"a": np.arange(r.randrange(1, 9)) * 1.5, "l": l},
        lambda l, r: np.arange(7) + r.randrange(10 ** 9),
        lambda l, r: [Angle(float(r.randrange(99)), "deg"), SkyCoord(1.5, 2.5, unit="deg"), l],
        lambda l, r: [Table({"x": [1, 2, r.randrange(99)]}), l],
        lambda l, r: [datetime.date(2000, 1, 1 + r.randrange(9)), decimal.Decimal(r.randrange(99)), l, frozenset((l,))],
        lambda l, r: [gen.a_function, int, gen.Color.RED, l],
        lambda l, r: [np.float32(r.randrange(99)), np.int8(3), np.bool_(True), np.str_(l), np.bytes_(b"x"), l],
        lambda l, r: [np.matrix([[1, r.randrange(99)]]), np.array(["x", l]), np.array([b"x"]), l],
        lambda l, r: {"m": sp.bsr_matrix(np.eye(2)), "n": sp.csc_matrix((2, 3)), "l": l},
    ]


_shapes = None


def build(seed, lab, fault=""):
    global _shapes
    if _shapes is None:
        _shapes = shapes()
        assert len(_shapes) == NUMBER
    r = random.Random("%s/%s" % (seed, lab))
    o = _shapes[r.randrange(len(_shapes))]("L%s.%s" % (lab, seed), r)
    if fault in ("member", "kbd"):
        b = Bomb(KeyboardInterrupt("injected") if fault == "kbd" else r.choice(ERRORS)("injected"))
        return r.choice((lambda: [o, b, "tail"], lambda: {"a": o, "b": b, "c": 1}, lambda: [[o], (b,), o], lambda: {"k": o, (1, "q"): [b]}, lambda: (o, [1, "x", {"d": b}]), lambda: b))()
    if fault == "warn":
        return [o, gen.Point(1, 2), "tail"]
    return o


def digest(o):
    return canonical(o)


def vandalise(o, seen=None):
    """changes everything that can be changed in an object"""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        for v in list(o.values()):
            vandalise(v, seen)
        o.clear()
        o["vandal"] = 1
    elif isinstance(o, list):
        for v in list(o):
            vandalise(v, seen)
        o[:] = ["vandal"]
    elif isinstance(o, tuple):
        for v in o:
            vandalise(v, seen)
    elif isinstance(o, set):
        o.add("vandal")
    elif isinstance(o, np.ndarray):
        try:
            if o.dtype.kind == "O":
                for v in np.asarray(o).ravel():
                    vandalise(v, seen)
            o[...] = np.asarray(o).ravel()[0]
            o.flags.writeable = True
            o.fill(0)
        except Exception:
            pass
    elif hasattr(o, "data") and hasattr(o, "indptr"):
        o.data[...] = 77
    elif hasattr(o, "__dict__"):
        for k in list(o.__dict__):
            if isinstance(o, gen.Point):
                vandalise(o.__dict__[k], seen)
                o.__dict__[k] = "vandal"


def mutables(o, out=None, seen=None):
    """ids of all mutable objects reachable (the objects have to be kept alive)"""
    out = {} if out is None else out
    if id(o) in out:
        return out
    if isinstance(o, (list, dict, set, np.ndarray, gen.Point)) or hasattr(o, "indptr"):
        out[id(o)] = o
    elif not isinstance(o, tuple):
        return out
    if isinstance(o, dict):
        for k, v in dict.items(o):
            mutables(k, out), mutables(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            mutables(v, out)
    elif isinstance(o, np.ndarray) and o.dtype.kind == "O":
        for v in np.asarray(o).ravel():
            mutables(v, out)
    elif isinstance(o, gen.Point):
        for v in o.__dict__.values():
            mutables(v, out)
    return out
