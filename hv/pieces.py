"""Files load has to refuse: hickle files a required piece was removed from, files not written by hickle."""
import os, pickle, random
import h5py, numpy as np
from hv import layout, rt_worker


def pieces(f):
    rd = layout.Reader(f)
    rd.read()
    out = [("mark", "HICKLE_VERSION"), ("mark", "HICKLE_PYTHON_VERSION"), ("data", "data")]
    for n in rd.nodes:
        kids = [(rd.nodes[k - 1], rd.h5[k - 1]) for k in n["kids"]]
        if n["g"] == "group" and n["base"] in ("list", "tuple"):
            out += [("member", h.name) for _, h in kids]
        elif n["base"] == "dict":
            out += [("member", h.name) for k, h in kids if k["kidx"] + 1 < len(kids)]
    for n, h in zip(rd.nodes, rd.h5):
        if n["g"] == "ref":
            t = rd.target(h)
            out += [("target", h.name)] * 4
        elif n["typ"] == "ok":
            out += [("type", h.name), ("entry", h.name), ("base", h.name), ("baseattr", h.name)]
        if n["kbt"]:
            out += [("key_base_type", h.name), ("key_idx", h.name)]
    out.append(("table", "hickle_types_table"))
    return out


def looks_pickled(f):
    """a dataset without type and base type is a pickle string by layout: nothing missing if it happens to be one"""
    found = []

    def visit(name, h):
        if isinstance(h, h5py.Dataset) and h.shape and h.dtype.kind in "Su":
            try:
                pickle.loads(np.asarray(h[()]).tobytes())
                if "hickle_types_table" not in name:
                    found.append(name)
            except Exception:
                pass
    f.visititems(visit)
    return bool(found)


def remove(f, n):
    """removes one of the required pieces, False if there are none"""
    ps = pieces(f)
    what, where = ps[n % len(ps)]
    if what in ("type", "baseattr") and looks_pickled(f):
        return False
    if what == "mark":
        del f.attrs[where]
    elif what == "data":
        del f["data"]
    elif what == "table":
        if len(f["hickle_types_table"]) == 0:
            return False
        del f["hickle_types_table"]
    elif what in ("type", "key_base_type", "key_idx"):
        del f[where].attrs[what]
    elif what == "target":
        t = f[f[where][()]].name
        if where.startswith(t + "/"):
            return False
        del f[t]
    elif what == "member":
        del f[where]
    else:
        e = f[f[where].attrs["type"]]
        if what == "entry":
            del f[e.name]
        elif what == "base":
            del f[f[e.attrs["base_type"]].name]
        else:
            del e.attrs["base_type"]
    return [what, where]


NAMES = ("data", "data0", "hickle_types_table", "a", "0", '"k"', "data_0", "x y")


def plain(g, r, depth):
    """arbitrary HDF5 content"""
    for name in r.sample(NAMES, r.randrange(0, 4)):
        m = r.randrange(5)
        if m == 0 and depth:
            h = plain(g.create_group(name), r, depth - 1)
        elif m == 1:
            h = g.create_dataset(name, data=r.choice((1, 2.5, "text", b"bytes")))
        elif m == 2:
            h = g.create_dataset(name, shape=None, dtype=int)
        else:
            h = g.create_dataset(name, data=np.arange(r.randrange(1, 9)))
        for a in r.sample(("type", "base_type", "item_index", "key_idx", "np_dtype", "unit", "CLASS", "VERSION"), r.randrange(0, 3)):
            h.attrs[a] = r.choice((1, "5.0.0", b"list", "GROUP"))
    return g


VALUES = [[1, "a", None], {"k": [1, 2, "x"], 3: (4,)}, "text", 5, np.arange(12).reshape(3, 4), {"a": {"b": {"c": 1}}}, [[1], [2, "y"]], (None,), b"bytes", 2.5]


def alien(path, i, r, dump):
    """creates a target which has to be refused, returns the arguments of load (None: not applicable)"""
    m = i % 13
    if m == 0:              # random content
        with open(path, "wb") as f:
            f.write(r.randbytes(r.choice((0, 1, 7, 8, 9, 511, 512, 513, 2048, r.randrange(5000)))))
        return {}
    if m == 1:              # HDF5 signature followed by garbage
        with open(path, "wb") as f:
            f.write(b"\x89HDF\r\n\x1a\n" + r.choice((b"", b"\0" * 600, r.randbytes(r.randrange(2000)))))
        return {}
    if m == 2:              # text, pickle and numpy files
        with open(path, "wb") as f:
            f.write(r.choice((b"hello world\n" * 50, b"\x80\x04K\x01.", b"\x93NUMPY\x01\x00", b"{\"a\": 1}", b"PK\x03\x04" + b"\0" * 100)))
        return {}
    if m in (3, 4):         # truncated hickle file
        dump(r.choice(VALUES), path, mode="w")
        n = os.path.getsize(path)
        with open(path, "r+b") as f:
            f.truncate(r.choice((0, 1, 8, 96, 100, 512, 800, n // 2, n - 1, n - 8, n - 512, r.randrange(n))))
        return {}
    if m == 5:              # HDF5 files of others
        with h5py.File(path, "w") as f:
            plain(f, r, 3)
        return {}
    if m == 6:              # HDF5 files of others pretending to have a version
        with h5py.File(path, "w") as f:
            plain(f, r, 2)
            for a in r.sample(("HICKLE_VERSION", "HICKLE_PYTHON_VERSION", "CLASS", "VERSION", "PYTHON_VERSION"), r.randrange(0, 2)):
                f.attrs[a] = r.choice(("5.0.0", "4.0.1", "3.4.9", "hickle"))
        return {}
    if m == 7:              # missing path, path of something else
        dump(r.choice(VALUES), path, mode="w", path=r.choice(("/", "/x", "/x/y")))
        with h5py.File(path, "r") as f:
            names = []
            f.visit(names.append)
            roots = {n for n in names + ["/"] if "HICKLE_VERSION" in f[n].attrs}
        others = [n for n in names if n not in roots] + ["/nothing", "/x/none", "/data/none/more", "nothing"] + (["/"] if "/" not in roots else [])
        return dict(path=r.choice(others))
    if m == 8:              # version of hickle 3 expected, but something else there
        with h5py.File(path, "w") as f:
            f.attrs["CLASS"] = r.choice((b"hickle", "other", b"GROUP"))
            f.attrs["VERSION"] = r.choice((b"4.0.0", b"5.0.0", b"x", b"2.1"))
            f.attrs["PYTHON_VERSION"] = b"3.6"
            plain(f, r, 2)
        return {}
    if m == 9:              # both version marks on a file without object
        with h5py.File(path, "w") as f:
            f.attrs["HICKLE_VERSION"] = r.choice(("5.0.0", "4.0.4"))
            f.attrs["HICKLE_PYTHON_VERSION"] = "3.7"
            if r.random() < .5:
                f.create_group("hickle_types_table")
            if r.random() < .5:
                f.create_group("Data")
        return {}
    if m == 10:             # objects stored elsewhere in the file do not make the root valid
        with h5py.File(path, "w") as f:
            dump(r.choice(VALUES), f, path=r.choice(("/a", "/a/b")), mode="w")
            plain(f.require_group("other"), r, 1)
        return dict(path=r.choice(("/", "/other", "/a/data", "/none")))
    if m == 11:             # not even a file
        if r.random() < .5:
            os.mkdir(path)
        return {}
    if m == 12:             # truncated file of others
        with h5py.File(path, "w") as f:
            plain(f, r, 2)
            f.create_dataset("big", data=np.arange(500))
        with open(path, "r+b") as f:
            f.truncate(r.randrange(os.path.getsize(path)))
        return {}
