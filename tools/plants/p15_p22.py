HK = "hickle/hickle.py"
LK = "hickle/lookup.py"
FI = "hickle/fileio.py"
LB = "hickle/loaders/load_builtins.py"
LN = "hickle/loaders/load_numpy.py"

plant("p15-memory", "P15", "memory running out while a member of a list or dict is written", "the member is skipped and the dump finishes as if it was complete",
 [(HK, "        _dump(py_subobj,h_node,h_subname,memo,loader,h_subattrs,**sub_kwargs)\n",
       "        try:\n            _dump(py_subobj,h_node,h_subname,memo,loader,h_subattrs,**sub_kwargs)\n        except MemoryError:\n            if h_subname in h_node or len(h_node) < 1:\n                raise\n            warnings.warn(\"'{}' too large, skipped\".format(h_subname))\n")],
 '''
class M:
    def __reduce__(self): raise MemoryError
o = {"a": 1, "b": M()}
try:
    hickle.dump(o, F, mode="w")
except MemoryError:
    pass
try:
    r = hickle.load(F)
except Exception:
    pass
else:
    fail("loaded", r)
''')
plant("p15-salvage", "P15", "a dump of a structured object through an open handle that fails late", "what was written so far is marked as complete",
 [(HK, "        h_root_group = h5f.get(path,None)\n        if h_root_group is None:\n            h_root_group = h5f.create_group(path)\n",
       "        h_root_group = h5f.get(path,None)\n        if h_root_group is None:\n            h_root_group = h5f.create_group(path)\n            if not close_flag:\n                # created on behalf of caller, make sure it is recognized\n                h_root_group.attrs[\"HICKLE_VERSION\"] = __version__\n                h_root_group.attrs[\"HICKLE_PYTHON_VERSION\"] = py_ver\n")],
 '''
class B:
    def __reduce__(self): raise RuntimeError("no")
with h5py.File(F, "w") as h:
    try:
        hickle.dump({"a": [1, "x"], "b": B()}, h, path="/p")
    except RuntimeError:
        pass
    try:
        r = hickle.load(h, path="/p")
    except Exception:
        pass
    else:
        fail("loaded", r)
''')
plant("p20-keyidx", "P20", "a dict entry with text key whose key_idx attribute is missing", "the entry is put at any free position",
 [(LB, "            raise KeyError(\"invalid dict item key_index missing\")\n", "            if key_base_type not in (b'str','str'):\n                raise KeyError(\"invalid dict item key_index missing\")\n            key_index = len(self._content)\n")],
 '''
hickle.dump({"a": 1, "b": [1, "x"]}, F, mode="w")
with h5py.File(F, "r+") as h:
    del h[\'data/"b"\'].attrs["key_idx"]
try:
    r = hickle.load(F)
except Exception:
    pass
else:
    fail("loaded", r)
''')
plant("p20-stale", "P20", "a shared object whose first occurrence was removed from the file", "the remains of the removed object are loaded",
 [(LK, "        yield referred_node.name.rsplit('/',1)[-1], referred_node\n", "        yield ( referred_node.name or h_parent.name ).rsplit('/',1)[-1], referred_node\n")],
 '''
s = ["x", [1, 2]]
hickle.dump({"c": 3, "b": [7, s], "a": [s, 1]}, F, mode="w")
with h5py.File(F, "r+") as h:
    r = h[\'data/"a"/data0\'][()]
    t = h[r].name
    h[\'data/"a"\'].attrs["key_idx"] = 1
    h[\'data\'].move(\'"b"\', "x")
    del h["data/x"]
try:
    r = hickle.load(F)
except Exception:
    pass
else:
    fail("loaded", r)
''')
plant("p20-version", "P20", "a hickle file lacking the mark of the Python version through an open handle", "it is accepted",
 [(HK, "        if all(map(h_root_group.attrs.get, v4_attrs)):\n", "        if all(map(h_root_group.attrs.get, v4_attrs if close_flag else v4_attrs[:1])):\n")],
 '''
hickle.dump({"a": 1}, F, mode="w")
with h5py.File(F, "r+") as h:
    del h.attrs["HICKLE_PYTHON_VERSION"]
with h5py.File(F, "r") as h:
    try:
        r = hickle.load(h)
    except Exception:
        pass
    else:
        fail("loaded", r)
''')
plant("p21-names", "P21", "a file of another writer which names list items otherwise", "items are sorted in by the digits of their name instead of their index attribute",
 [(LB, "        index = h5_attrs.get(\"item_index\",None)\n        if index is None:\n            index_match = self.extract_index.search(name)\n            if index_match is None:\n",
       "        index_match = self.extract_index.search(name)\n        index = h5_attrs.get(\"item_index\",None) if index_match is None else None\n        if index is None:\n            if index_match is None:\n")],
 '''
o = ["a", [1, "x"], None]
hickle.dump(o, F, mode="w")
with h5py.File(F, "r+") as h:
    g = h["data"]
    g.move("data0", "item7"); g.move("data2", "item0")
try:
    r = hickle.load(F)
except Exception as e:
    fail(e)
if r != o: fail(r)
''')
plant("p21-utf16", "P21", "text beyond the basic multilingual plane", "written and read in another encoding, existing and foreign files are not understood",
 [(LB, "        string_data = bytearray(py_obj,\"utf8\")", "        string_data = bytearray(py_obj,\"utf8\" if py_obj.isascii() or max(py_obj) < chr(0x10000) else 'utf-32-le')"),
  (LB, "            content = bytes(content).decode(\"utf8\")\n", "            content = bytes(content)\n            content = content.decode('utf-32-le' if len(content) % 4 == 0 and b'\\0\\0' in content else 'utf8')\n")],
 '''
o = "a\U0001F600"
hickle.dump(o, F, mode="w")
with h5py.File(F, "r") as h:
    b = h["data"][()].tobytes()
if b != o.encode("utf8"): fail(b)
if hickle.load(F) != o: fail("load")
''')
plant("p22-links", "P22", "two dumps which overlap in time and use the same kinds of data", "type entries of one file refer to the type table of the other one",
 [(LK, "        self._base_type_link = dict()\n", "        # base_types are the same for all files\n        self._base_type_link = _base_type_links\n"),
  (LK, "        self._base_type_link = None\n", "        self._base_type_link.clear()\n        self._base_type_link = None\n"),
  (LK, "class ReferenceManager(BaseManager, dict):\n", "_base_type_links = dict()\n\nclass ReferenceManager(BaseManager, dict):\n")],
 '''
class A:
    def __reduce__(self):
        hickle.dump({"k": ("x", 1.5), "l": [1, [2]]}, F + "2", mode="w")
        return (list, ())
o = ["x", [1, 2], {"a": 2}]
try:
    hickle.dump(o + [A(), (3, "y"), 2.5], F, mode="w")
    r, r2 = hickle.load(F), hickle.load(F + "2")
except Exception as e:
    fail(repr(e))
if r[:3] != o or r2 != {"k": ("x", 1.5), "l": [1, [2]]}: fail(r, r2)
''')
plant("p22-current", "P22", "a dump nested in or overlapping another one that has to recover or resolve types", "types are resolved in the file of the operation started last",
 [(LK, "            return cls.__managers__[h_node.file.id][0]\n", "            managers = cls.__managers__\n            return managers[h_node.file.id if len(managers) < 2 else next(reversed(managers))][0]\n")],
 '''
import threading
sys.path.insert(0, TMP)
open(os.path.join(TMP, "gone.py"), "w").write("class G(dict): pass\\n")
import gone
hickle.dump(gone.G(a=1, b="x"), F, mode="w")
del sys.modules["gone"].G
seen = []
class L:
    pass
from hickle import lookup, hickle as hk
orig = lookup.RecoverGroupContainer.filter
def nested(self, h):
    if not seen and h.name == "/data":
        seen.append(1)
        E.set(); D.wait(20)
    yield from orig(self, h)
lookup.RecoverGroupContainer.filter = nested
E, D = threading.Event(), threading.Event()
ref = None
out = {}
def first():
    try: out["r"] = hickle.load(F)
    except Exception as e: out["r"] = e
t = threading.Thread(target=first); t.start(); E.wait(20)
class W:
    def __reduce__(self):
        D.set(); t.join(20)
        return (int, ())
hickle.dump(["x"] * 3 + [None, 1.5, (1, "x"), W()], F + "3", mode="w")
r = out["r"]
if isinstance(r, Exception): fail(r)
if r.attrs.get("base_type") != b"dict": fail(r, r.attrs)
''')
