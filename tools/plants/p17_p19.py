HK = "hickle/hickle.py"
LK = "hickle/lookup.py"
LB = "hickle/loaders/load_builtins.py"
LN = "hickle/loaders/load_numpy.py"

GONE = '''
import types
def mod(name, **kw):
    m = types.ModuleType(name)
    import importlib.machinery
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
'''
plant("p18-kinds", "P18", "a file holding objects of two lost classes stored as different kinds of data", "the second one is reported with the kind of data of the first one",
 [(LK, "                entry_link = (py_obj_type,b'!recover!',base_type)\n", "                entry_link = self._py_obj_type_link.setdefault(id(py_obj_type),(py_obj_type,b'!recover!',base_type))\n")],
 GONE + '''
class L(list): pass
class D(dict): pass
m = mod("hv_demo")
for c in (L, D):
    c.__module__ = "hv_demo"; setattr(m, c.__name__, c)
hickle.dump([L([1, "x"]), D(a=2)], F, mode="w")
del sys.modules["hv_demo"]
a, b = hickle.load(F)
if a.attrs["base_type"] != b"list" or b.attrs["base_type"] != b"dict": fail(a.attrs, b.attrs)
''')
plant("p18-broken", "P18", "a pickled object whose module exists but can not be imported any more", "load fails instead of returning the raw data",
 [(LK, "        return pickle.loads(h_node[()])\n    except (ImportError,AttributeError):\n", "        return pickle.loads(h_node[()])\n    except (ModuleNotFoundError,AttributeError):\n")],
 GONE + '''
class K: pass
m = mod("hv_demo")
K.__module__ = "hv_demo"; m.K = K
hickle.dump([1, K(), "x"], F, mode="w")
del sys.modules["hv_demo"]
open(os.path.join(TMP, "hv_demo.py"), "w").write("raise ImportError('libfoo.so: cannot open shared object file')")
sys.path.insert(0, TMP)
try:
    r = hickle.load(F)
except Exception as e: fail(repr(e))
if r[0] != 1 or r[2] != "x": fail(r)
''')
plant("p18-attrs", "P18", "recovered group holding members of known classes", "attributes which order the members are dropped from what is recovered",
 [(LK, "            self._content[name] = (item,{ key:value for key,value in h5_attrs.items() if key not in {'type'}})\n",
       "            self._content[name] = (item,{ key:value for key,value in h5_attrs.items() if key not in {'type','item_index','key_idx'}})\n")],
 GONE + '''
class D(dict): pass
m = mod("hv_demo")
D.__module__ = "hv_demo"; m.D = D
hickle.dump(D(a=2, b=[1, "x"]), F, mode="w")
del sys.modules["hv_demo"]
r = hickle.load(F)
if any(v[1].get("key_idx") is None for v in r.values()): fail(dict(r))
''')
LOADERS = '''
from hickle.lookup import LoaderManager
class A:
    def __init__(self, v): self.v = v
class S(A): pass
def loader(tag):
    def create(o, h_group, name, **kw):
        d = h_group.create_dataset(name, data=o.v)
        d.attrs["tag"] = tag
        return d, ()
    def load(h_node, base_type, py_obj_type):
        o = py_obj_type(int(h_node[()]))
        o.tag = tag
        return o
    return create, load
def register(c, tag, option):
    LoaderManager.register_class(c, tag.encode(), *loader(tag), None, True, option)
'''
plant("p17-path", "P17", "an object dumped with an option to a path other than the root of the file", "load does not find the option and recovers raw data",
 [(HK, "            with LoaderManager.create_manager( h_root_group,False) as loader:\n", "            with LoaderManager.create_manager( h_root_group.file,False) as loader:\n")],
 LOADERS + '''
register(A, "opt", "custom")
hickle.dump([A(1), "x"], F, mode="w", path="/some/where", options={"custom": True})
r = hickle.load(F, path="/some/where")
if type(r[0]) is not A or r[0].tag != "opt": fail(r)
''')
plant("p17-cache", "P17", "instances of one class dumped with and without the option by one process", "the loader found first is used ever after",
 [(HK, "    py_obj_type, (create_dataset, base_type,memoise) = loader.load_loader(py_obj.__class__)\n", "    found = _known_loaders.get(py_obj.__class__)\n    if found is None:\n        found = loader.load_loader(py_obj.__class__)\n        if found[0] is not object and py_obj.__class__.__module__ != 'builtins':\n            _known_loaders[py_obj.__class__] = found\n    py_obj_type, (create_dataset, base_type,memoise) = found\n"),
  (HK, "# %% FUNCTION DEFINITIONS\n", "# %% FUNCTION DEFINITIONS\n\n_known_loaders = {}\n\n")],
 LOADERS + '''
register(A, "any", None); register(S, "opt", "custom")
hickle.dump([S(1), "x"], F, mode="w")
if hickle.load(F)[0].tag != "any": fail("optional loader used")
hickle.dump([S(1), "x"], F, mode="w", options={"custom": True})
if hickle.load(F)[0].tag != "opt": fail("global loader used")
''')

V4 = '''
import h5py, pickle, numpy as np
def head(g):
    g.attrs["HICKLE_VERSION"] = "4.0.4"; g.attrs["HICKLE_PYTHON_VERSION"] = "3.7.3"
def typed(h, c, base):
    h.attrs["type"] = np.array(pickle.dumps(c)); h.attrs["base_type"] = base
def masked(g, name, a):
    d = g.create_dataset(name, data=a.data); typed(d, np.ma.MaskedArray, b"ndarray_masked_data"); d.attrs["np_dtype"] = a.dtype.str
    m = g.create_dataset(name + "_mask", data=a.mask); typed(m, np.ma.MaskedArray, b"ndarray_masked_mask")
'''
plant("p19-order3", "P19", "a list or tuple of more than ten objects in a file of hickle 3.x", "its members come back in the order of their names",
 [("hickle/legacy_v3/helpers.py", "        to_int = lambda x: int(re.search(br'\\d+', x).group(0))\n", "        to_int = lambda x: re.search(br'\\d+', x).group(0)\n")],
 '''
import h5py, numpy as np
x = [[i] for i in range(12)]
def typed(h, t): h.attrs["type"] = np.array([t])
with h5py.File(F, "w") as f:
    f.attrs["CLASS"] = "hickle"; f.attrs["VERSION"] = "3.4.9"; f.attrs["PYTHON_VERSION"] = "3.7.4"; typed(f, b"hickle")
    g = f.create_group("data_0"); typed(g, b"<class 'list'>")
    for i, v in enumerate(x):
        typed(g.create_dataset("data_%d" % i, data=v), b"<class 'list'>")
r = hickle.load(F)
if [list(map(int, v)) for v in r] != x: fail(r)
''')
plant("p19-mask4", "P19", "two masked arrays in the same list of a file of hickle 4.0.x", "the second one gets the mask of the first one",
 [(LN, "    mask_path = \"{}_mask\".format(h_node.name)\n    h_root = h_node.parent\n", "    h_root = h_node.parent\n    mask_path = next((name for name in h_root if name.endswith(\"_mask\")),\"\")\n")],
 V4 + '''
a = np.ma.array([1, 2, 3], mask=[1, 0, 0]); b = np.ma.array([4, 5, 6], mask=[0, 0, 1])
with h5py.File(F, "w") as f:
    head(f); g = f.create_group("data"); typed(g, list, b"list")
    masked(g, "data_0", a); masked(g, "data_1", b)
r = hickle.load(F)
for x, y in zip(r, (a, b)):
    if x.mask.tolist() != y.mask.tolist(): fail(r)
''')
plant("p19-text4", "P19", "a str with characters outside ASCII in a file of hickle 4.0.x", "the str comes back garbled",
 [(LB, "        return content if isinstance(content,str) else content.decode('utf8')\n", "        return content if isinstance(content,str) else content.decode(h_node.attrs.get('encoding','latin1'))\n")],
 V4 + '''
with h5py.File(F, "w") as f:
    head(f); d = f.create_dataset("data", data="caf\\u00e9 \\u4e2d", dtype=h5py.string_dtype()); typed(d, str, b"str")
r = hickle.load(F)
if r != "caf\\u00e9 \\u4e2d": fail(ascii(r))
''')
plant("p19-place4", "P19", "two objects at two places of one file of hickle 4.0.x", "the object in the root of the file is returned whatever path is asked for",
 [(HK, "                        _load(py_container, 'data',h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)\n",
       "                        _load(py_container, 'data',h5f.get('data',None) or h_root_group['data'],memo,loader) #load_loader = load_legacy_loader)\n")],
 V4 + '''
with h5py.File(F, "w") as f:
    for p, v in (("/", [1, 2]), ("/other", [3])):
        g = f.require_group(p); head(g)
        d = g.create_dataset("data", data=v); typed(d, list, b"list")
r = hickle.load(F, path="/other")
if [int(x) for x in r] != [3]: fail(r)
''')
