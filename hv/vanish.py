"""Classes which are there while a file is dumped and gone when it is loaded.

The classes live in modules which exist in a child process only; what the loading process knows of
them depends on the flavour:
  gone    the module can not be found
  half    the module is there, the classes are not
  broken  importing the module raises ImportError
  nested  the class is an attribute of a class which has lost it
  pkg     the package is there, the module is not
Classes with a loader of their own (Group, Data) are defined by module hv_there which is always
there: what vanishes is the loader."""
import importlib.machinery, os, sys, types
import h5py, numpy as np, scipy.sparse

FLAVOURS = ("gone", "half", "broken", "nested", "pkg")
MODULES = dict(gone="hv_gone", half="hv_half", broken="hv_broken", nested="hv_nested", pkg="hv_pkg.inner")


def module(name):
    m = types.ModuleType(name)
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    sys.modules[name] = m
    return m


def remains(work):
    """what the loading process still has"""
    with open(os.path.join(work, "hv_broken.py"), "w") as f:
        f.write("raise ImportError('lib.so.1: cannot open shared object file')\n")
    if work not in sys.path:
        sys.path.insert(0, work)
    module("hv_half")
    m = module("hv_nested")
    m.Outer = type("Outer", (), dict(__module__="hv_nested"))
    module("hv_pkg").__path__ = []
    m = module("hv_there")
    for c in (Group, Data):
        c.__module__ = "hv_there"
        setattr(m, c.__name__, c)


class Group:
    """object whose loader stores the items"""
    def __init__(self, items, at=()):
        self.items, self.at = items, dict(at)


class Data:
    def __init__(self, x, at=()):
        self.x, self.at = x, dict(at)


def classes(flavour):
    """creates the classes of a flavour (dumping process only)"""
    name = MODULES[flavour]
    if flavour == "pkg":
        sys.modules["hv_pkg"].inner = module(name)
    elif flavour in ("gone", "broken"):
        module(name)
    m = sys.modules[name]
    out = types.SimpleNamespace()

    def new(cname, base, **ns):
        q = "Outer." + cname if flavour == "nested" else cname
        c = type(cname, (base,), dict(ns, __module__=name, __qualname__=q))
        setattr(m.Outer if flavour == "nested" else m, cname, c)
        setattr(out, cname, c)

    for cname, base in (("List", list), ("Tuple", tuple), ("Set", set), ("Dict", dict), ("Str", str), ("Bytes", bytes), ("Int", int), ("Float", float), ("Arr", np.ndarray), ("Csr", scipy.sparse.csr_matrix)):
        new(cname, base)

    def init(self, x):
        self.x = x
    new("Obj", object, __init__=init, __eq__=lambda a, b: a is b, __hash__=lambda a: 7)
    new("LostGroup", Group)
    new("LostData", Data)
    return out


def group_dump(o, h_group, name, **kw):
    g = h_group.create_group(name)
    for k, v in o.at.items():
        g.attrs[k] = v
    return g, [(n, x, a, kw) for n, x, a in o.items]


def data_dump(o, h_group, name, **kw):
    if isinstance(o.x, (h5py.Empty, str, bytes)) or np.ndim(o.x) == 0:
        kw = {}
    d = h_group.create_dataset(name, data=o.x, **kw)
    for k, v in o.at.items():
        d.attrs[k] = v
    return d, ()


def loaders(out, option=None, lost=True):
    from hickle.lookup import LoaderManager
    from hickle.helpers import PyContainer
    for c, base in ((Group, b"cust.Group"), (Data, b"cust.Data")) + (((out.LostGroup, b"cust.LostGroup"), (out.LostData, b"cust.LostData")) if lost else ()):
        isg = issubclass(c, Group)
        LoaderManager.register_class(c, base, group_dump if isg else data_dump, None if isg else (lambda n, b, t: t(n[()])), PyContainer if isg else None, True, option)
