"""The hickle 5 file layout without hickle: reads the content of a hickle root group into the node
records of spec/HickleFormat.tla (only h5py, numpy and pickle are used).

The reader states facts: what is stored where.  What a file *means* (and whether it has to be
refused) is decided by the specification's Decode."""
import io, pickle
import h5py, numpy as np
from hv.capture import array_token, attrs_token, capture, tname, text_token, bytes_token

NOLEAF = dict(k="leaf", t="NoneType", v="None", n="", q="", i=0, c=[])
LISTS = ("list", "tuple", "set")
NUMS = ("int", "float", "complex", "bool")
KEYS = {"float": float, "int": int, "complex": complex, "bool": lambda x: x in ("True", "np.True_"), "NoneType": lambda x: None}


def text(x):
    return x.decode("utf8") if isinstance(x, bytes) else str(x)


def addr(obj):
    return h5py.h5o.get_info(obj.id).addr


KNOWN = LISTS + NUMS + ("dict", "str", "bytes", "None", "pickle", "np_scalar", "np_dtype", "ndarray", "np_matrix", "ndarray_masked", "csr_matrix", "csc_matrix", "bsr_matrix",
                        "astropy_quantity", "astropy_time", "astropy_angle", "astropy_skycoord", "astropy_constant", "astropy_table")


def raw(h):
    """stored content of a dataset"""
    return array_token(np.empty(0, dtype=h.dtype) if h.shape is None else np.array(h[()], dtype=h.dtype))


class Unreadable(Exception):
    pass


class Reader:
    def __init__(self, root):
        self.root = root
        self.file = root.file
        self.table = root.get("hickle_types_table", None)
        self.nodes = []
        self.at = {}          # object address -> node index
        self.h5 = []
        self.types = {}

    # ---------------------------------------------------------------- types
    def type_of(self, h):
        """(state, class, base type)"""
        ref = h.attrs.get("type", None)
        if ref is None:
            return "none", None, "pickle"
        if not isinstance(ref, h5py.Reference):
            return "stale", None, ""
        try:
            entry = self.file[ref]
        except Exception:
            return "stale", None, ""
        key = addr(entry)
        if key not in self.types:
            try:
                bref = entry.attrs["base_type"]
                base = self.file[bref].name.rsplit("/", 1)[-1]
                try:
                    self.types[key] = ("ok", pickle.loads(entry[()].tobytes()), base)
                except (ImportError, AttributeError):
                    self.types[key] = ("lost", None, base)
            except Exception:
                self.types[key] = ("stale", None, "")
        return self.types[key]

    # ---------------------------------------------------------------- values
    def target(self, h):
        """node a reference leads to, None if none"""
        try:
            return self.file[h[()]]
        except Exception:
            return None

    @staticmethod
    def is_ref(h):
        return isinstance(h, h5py.Dataset) and h5py.check_ref_dtype(h.dtype) is not None

    def value(self, h):
        """Python value of a node which is not an ordinary container"""
        n = 0
        while self.is_ref(h) and h.attrs.get("type") is None:
            h = self.target(h)
            n += 1
            if h is None or n > 100:
                raise Unreadable("reference")
        state, cls, base = self.type_of(h)
        if state == "stale" or state == "lost" and base not in ("ndarray", "list"):
            raise Unreadable("type")
        if isinstance(h, h5py.Group):
            if base == "ndarray_masked":
                return np.ma.array(self.value(h["data"]), mask=self.value(h["mask"]), dtype=np.dtype(text(h.attrs["np_dtype"])))
            if base in ("csr_matrix", "csc_matrix", "bsr_matrix"):
                data = self.value(h["data"])
                return cls((data, self.value(h["indices"]), self.value(h["indptr"])), shape=self.value(h["shape"]), dtype=data.dtype)
            if base in ("ndarray", "np_matrix"):
                a = np.array(self.value(h["data"]) if "data" in h else self.items(h), dtype=np.dtype(text(h.attrs["np_dtype"])))
                return np.matrix(a) if base == "np_matrix" else a
            if base in ("list", "tuple"):
                return cls(self.items(h))
            raise Unreadable(base)
        if state == "none":
            return pickle.loads(np.asarray(h[()]).tobytes())
        if base in NUMS:
            v = h[()]
            if base == "int" and np.ndim(v) == 1:
                return cls(bytes(v.tobytes()).decode("ascii"))
            return cls(v)
        if base == "None":
            return None
        if base in ("str", "bytes"):
            b = b"" if h.shape is None else np.asarray(h[()]).view("S1").tobytes()
            return cls(b.decode("utf8") if text(h.attrs["str_type"]) == "str" else b)
        if base in LISTS:
            return cls() if h.shape is None else getattr(cls, "_make", cls)(list(h[()]))
        if base == "np_scalar":
            v = h[()]
            dt = np.dtype(text(h.attrs["np_dtype"]))
            return v if dt.kind == "V" else dt.type(v)
        if base == "np_dtype":
            return np.dtype(np.asarray(h[()]).tobytes().decode("ascii"))
        if base in ("ndarray", "np_matrix"):
            dt = np.dtype(text(h.attrs["np_dtype"]))
            if dt.kind == "V" and h.dtype.names is not None:
                dt = h.dtype
            if h.shape is None:
                return np.empty(0, dtype=dt)
            v = h[()]
            if dt.kind == "U":
                v = np.asarray(v).tobytes().decode("utf8")
            a = np.array(v, dtype=dt)
            return np.matrix(a) if base == "np_matrix" else a
        if base in ("astropy_quantity", "astropy_angle"):
            return cls(h[()], text(h.attrs["unit"]))
        if base == "astropy_time":
            v = np.asarray(h[()])
            dt = np.dtype(text(h.attrs["np_dtype"]))
            v = v.astype("U") if dt.kind in "SU" else v.astype(dt)
            return cls(v, format=text(h.attrs["format"]), scale=text(h.attrs["scale"]))
        if base == "astropy_skycoord":
            v = h[()]
            return cls(v[..., 0], v[..., 1], unit=(text(h.attrs["lon_unit"]), text(h.attrs["lat_unit"])))
        if base == "astropy_constant":
            A = h.attrs
            return cls(text(A["abbrev"]), text(A["name"]), h[()], text(A["unit"]), A["uncertainty"], text(A["reference"]), text(A["system"]) if "system" in A else None)
        if base == "astropy_table":
            skip = ("type", "base_type", "colnames", "item_index", "key_idx", "key_base_type")
            return cls(h[()], names=[text(x) for x in h.attrs["colnames"]], meta={k: v for k, v in h.attrs.items() if k not in skip})
        raise Unreadable(base)

    def items(self, h):
        kids = sorted(h.values(), key=lambda x: int(x.attrs["item_index"]))
        if [int(x.attrs["item_index"]) for x in kids] != list(range(len(kids))) or int(h.attrs.get("num_items", len(kids))) != len(kids):
            raise Unreadable("items")
        return [self.value(x) for x in kids]

    def skeleton(self, h, top=False):
        """nesting of an array of objects"""
        n = 0
        while self.is_ref(h) and h.attrs.get("type") is None:
            h = self.target(h)
            n += 1
            if h is None or n > 100:
                raise Unreadable("reference")
        state, cls, base = self.type_of(h)
        if not top and state == "lost":
            return Ellipsis
        if top or base in ("list", "tuple"):
            if isinstance(h, h5py.Dataset):
                return [None] * (0 if h.shape is None else h.shape[0])
            return [self.skeleton(x) for x in sorted(h.values(), key=lambda x: int(x.attrs["item_index"]))]
        if base == "ndarray" and isinstance(h, h5py.Group) and "data" not in h:
            return np.array(self.skeleton(h, True), dtype=object)
        if base in ("ndarray", "np_matrix", "ndarray_masked"):
            return self.value(h)
        return Ellipsis

    # ---------------------------------------------------------------- nodes
    def node(self, name, h):
        """adds h and everything below, returns its index"""
        n = dict(g="data", typ="ok", base="", ty="", nm=name, idx=-1, num=-1, kbt="", kidx=-1, st="", key=NOLEAF, emp=False, v="", s="", b="", e=[], obj=[], ok=True, npd="", shp=[], kids=[], to=0, at="", raw="", gone=False)
        self.nodes.append(n)
        self.h5.append(h)
        ix = len(self.nodes)
        A = h.attrs
        n["at"] = attrs_token({k: v for k, v in A.items() if k not in ("type", "base_type")})
        try:
            if "item_index" in A:
                n["idx"] = int(A["item_index"])
            if "num_items" in A:
                n["num"] = int(A["num_items"])
            if "key_idx" in A:
                n["kidx"] = int(A["key_idx"])
            if "key_base_type" in A:
                n["kbt"] = text(A["key_base_type"])
            if "str_type" in A:
                n["st"] = text(A["str_type"])
            if "np_dtype" in A:
                n["npd"] = text(A["np_dtype"])
            if n["kbt"] and n["kbt"] != "key_value":
                n["key"] = capture(self.key(n["kbt"], name))[0]
        except Exception:
            n["ok"] = False
        if self.is_ref(h) and "type" not in A:
            n["g"] = "ref"
            n["typ"] = "none"
            n["base"] = "pickle"
            return ix
        self.at[addr(h)] = ix
        state, cls, base = self.type_of(h)
        n["typ"], n["base"] = state, base
        n["ty"] = tname(cls) if isinstance(cls, type) else ""
        if isinstance(h, h5py.Group):
            n["g"] = "group"
        if state == "stale":
            return ix
        if n["g"] == "data":
            n["raw"] = raw(h)
        try:
            if state == "lost" or state == "ok" and base not in KNOWN:
                if n["g"] == "group":
                    for key in sorted(h):
                        n["kids"].append(self.node(key, h[key]))
            elif base in ("list", "tuple", "set", "dict") or base == "ndarray" and n["g"] == "group" and n["npd"] == "|O":
                if base == "ndarray" and "data" not in h:
                    n["shp"] = list(np.array(self.skeleton(h, True), dtype=object).shape)
                if n["g"] == "group":
                    for key, sub in h.items():
                        n["kids"].append(self.node(key, sub))
                elif h.shape is None:
                    n["emp"] = True
                else:
                    n["e"] = [capture(x)[0] for x in h[()]]
                    n["ok"] = h.ndim == 1 and h.dtype.kind in "biufc"
            elif base in ("str", "bytes"):
                b = b"" if h.shape is None else np.asarray(h[()]).view("S1").tobytes()
                n["b"] = bytes_token(b)
                try:
                    n["s"] = text_token(b.decode("utf8"))
                except UnicodeError:
                    pass
                n["ok"] = n["st"] in ("str", "bytes")
            elif base == "None":
                n["obj"] = [NOLEAF]
            elif n["g"] == "group" and state == "none":
                n["base"] = ""
            elif base == "pickle":
                try:
                    v = self.value(h)
                except (ImportError, AttributeError):
                    n["gone"] = True
                else:
                    n["obj"] = capture(v)
            else:
                n["obj"] = capture(self.value(h))
                if n["g"] == "group":      # parts may be shared with other objects
                    for key, sub in h.items():
                        n["kids"].append(self.node(key, sub))
        except Exception as e:
            n["ok"] = False
            n["v"] = repr(e)[:120]
        return ix

    @staticmethod
    def key(kbt, name):
        if kbt == "str":
            return name[1:-1]
        if kbt == "bytes":
            return name[2:-1].encode("utf8")
        return KEYS[kbt](name)

    def read(self):
        if "data" in self.root:
            self.node("data", self.root["data"])
            for n, h in zip(self.nodes, self.h5):
                if n["g"] == "ref":
                    t = self.target(h)
                    n["to"] = self.at.get(addr(t), 0) if t is not None else 0
        A = self.root.attrs
        return dict(mark=bool("HICKLE_VERSION" in A and "HICKLE_PYTHON_VERSION" in A), tree=self.nodes)


def read(path, where="/"):
    """content of the hickle root group `where` of a file (a name or bytes)"""
    f = io.BytesIO(path) if isinstance(path, bytes) else path
    with h5py.File(f, "r") as h:
        return Reader(h[where]).read()
