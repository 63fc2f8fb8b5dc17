HK = "hickle/hickle.py"
LK = "hickle/lookup.py"
FI = "hickle/fileio.py"
LB = "hickle/loaders/load_builtins.py"

plant("p10-overwrite", "P10", "a second dump through an open handle with the default mode to a path that is in use", "the object stored there first is replaced without notice",
 [(HK, '        elif h_root_group.items():\n            raise ValueError("Unable to create group (name already exists)")\n',
       '        elif h_root_group.items():\n            if close_flag or path.count(\'/\') < 3:\n                raise ValueError("Unable to create group (name already exists)")\n            h_root_group.clear()\n')],
 '''
with h5py.File(F, "w") as h:
    hickle.dump([1, "a"], h, path="/x/y/z")
    try:
        hickle.dump([2, "b"], h, path="/x/y/z")
    except Exception:
        pass
    if hickle.load(h, path="/x/y/z") != [1, "a"]: fail("replaced")
''')
plant("p10-sibling", "P10", "a dump to a path whose parent group holds an object already, through a file name", "the object of the parent is dropped from the file",
 [(HK, '            h_root_group = h5f.create_group(path)\n', '            h_root_group = h5f.create_group(path)\n            if close_flag and h_root_group.parent.name != \'/\' and \'data\' in h_root_group.parent:\n                # only one object per branch\n                del h_root_group.parent[\'data\']\n')],
 '''
hickle.dump([1, "a"], F, mode="w", path="/x")
hickle.dump([2, "b"], F, mode="a", path="/x/y")
if hickle.load(F, path="/x/y") != [2, "b"]: fail("lost")
try:
    ok = hickle.load(F, path="/x") == [1, "a"]
except Exception as e:
    ok = False
if not ok: fail("parent lost")
''')
plant("p11-nested", "P11", "a group below another group passed as target", "paths are resolved below a top level group of the same name",
 [(FI, "        base_path = f.name\n", "        base_path = '/' + f.name.rsplit('/',1)[-1]\n")],
 '''
with h5py.File(F, "w") as h:
    g = h.create_group("a/b")
    hickle.dump([1, "x"], g, path="obj")
try:
    ok = hickle.load(F, path="/a/b/obj") == [1, "x"]
except Exception as e:
    ok = False
if not ok: fail("stored elsewhere")
''')
plant("p11-closed", "P11", "a closed in memory file given as (file, name) tuple or dict", "dump to a closed file inside a tuple is reported as success",
 [(FI, "        if isinstance(f,(tuple,list)) and len(f) > 1:\n            f,filename = f[:2]\n", "        if isinstance(f,(tuple,list)) and len(f) > 1:\n            f,filename = f[:2]\n            if getattr(f,'closed',False):\n                f = type(f)(getattr(f,'name',b''))\n")],
 '''
import io
b = io.BytesIO(); b.close()
try:
    hickle.dump([1, "x"], (b, "n"), mode="w")
except Exception:
    pass
else:
    fail("accepted")
''')
plant("p12-group", "P12", "a group of an open file passed as target of a load that fails", "the file of the caller is closed",
 [(FI, "        return f,''.join((base_path,path.rstrip('/'))),False\n", "        path = ''.join((base_path,path.rstrip('/')))\n        return f,path,base_path != '/' and path not in f\n")],
 '''
with h5py.File(F, "w") as h:
    hickle.dump([1, "x"], h, path="/a/b")
    try:
        hickle.load(h["a"], path="nothing")
    except Exception:
        pass
    if not h: fail("closed")
''')
plant("p12-kbd", "P12", "a dump to a file name interrupted by KeyboardInterrupt", "the file opened by hickle stays open",
 [(HK, "        with LoaderManager.create_manager(h_root_group,False,options) as loader:\n            with ReferenceManager.create_manager(h_root_group) as memo:\n                _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)\n",
       "        with LoaderManager.create_manager(h_root_group,False,options) as loader:\n            with ReferenceManager.create_manager(h_root_group) as memo:\n                try:\n                    _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)\n                except KeyboardInterrupt:\n                    # leave file to user for inspection\n                    close_flag = False\n                    raise\n")],
 '''
class K:
    def __reduce__(self): raise KeyboardInterrupt
keep = None
try:
    hickle.dump([1, "x", K()], F, mode="w")
except KeyboardInterrupt as e:
    keep = e
try:
    with h5py.File(F, "w") as h: pass
except Exception as e:
    fail(repr(e))
''')
plant("p13-path", "P13", "mode 'x' and the name of an existing file given as pathlib.Path", "the existing file is overwritten",
 [(FI, "    if isinstance(f, (str, Path)):\n", "    if isinstance(f, (str, Path)):\n        if isinstance(f,Path) and mode[:1] == 'x':\n            # exclusive creation only known for plain names\n            mode = 'w'\n")],
 '''
import pathlib
hickle.dump([1, "x"], F, mode="w")
try:
    hickle.dump([2, "y"], pathlib.Path(F), mode="x")
except Exception:
    pass
if hickle.load(F) != [1, "x"]: fail("overwritten")
''')
plant("p14-require", "P14", "load of a missing path through a handle opened for writing", "load creates the group",
 [(HK, "        h_root_group = h5f.get(path,None) # only used by v4\n", "        h_root_group = h5f.get(path,None) if h5f.mode == 'r' else h5f.require_group(path) # only used by v4\n")],
 '''
with h5py.File(F, "w") as h:
    hickle.dump([1, "x"], h, path="/a")
    try:
        hickle.load(h, path="/b")
    except Exception:
        pass
    if "b" in h: fail("created")
''')
plant("p14-sparse", "P14", "a sparse matrix with unsorted entries is dumped", "the dumped matrix is modified",
 [("hickle/loaders/load_scipy.py", "    h_sparsegroup = h_group.create_group(name)\n", "    py_obj.sort_indices() # compresses better\n    h_sparsegroup = h_group.create_group(name)\n")],
 '''
import scipy.sparse as sp
m = sp.csr_matrix((np.array([1., 2., 3.]), np.array([2, 0, 1]), np.array([0, 2, 3])), shape=(2, 3))
i = m.indices.copy()
hickle.dump([m, "x"], F, mode="w")
if not (m.indices == i).all(): fail(m.indices)
''')
plant("p14-options", "P14", "options passed to dump", "disabled options are removed from the dict of the caller",
 [(HK, "    # Open the file\n    h5f, path, close_flag = file_opener(file_obj, path, mode,filename)\n    try:\n\n        # file", "    # drop disabled options\n    for name in [name for name,on in options.items() if not on]:\n        del options[name]\n\n    # Open the file\n    h5f, path, close_flag = file_opener(file_obj, path, mode,filename)\n    try:\n\n        # file")],
 '''
o = {"custom": False}
hickle.dump([1], F, mode="w", options=o)
if o != {"custom": False}: fail(o)
''')
plant("p16-manager", "P16", "a dump through an open handle interrupted by KeyboardInterrupt and another dump or load through it", "all later operations on the handle are refused",
 [(LK, "        self.__class__._drop_manager(h_node.file.id)\n", "        if exc_type is None or issubclass(exc_type,Exception):\n            self.__class__._drop_manager(h_node.file.id)\n")],
 '''
class K:
    def __reduce__(self): raise KeyboardInterrupt
with h5py.File(F, "w") as h:
    try:
        hickle.dump([1, "x", K()], h, path="/a")
    except KeyboardInterrupt: pass
    try:
        hickle.dump([1, "x"], h, path="/b")
    except Exception as e: fail(repr(e))
''')
plant("p16-failpath", "P16", "a failed dump followed by a dump of another object of the same class", "classes which once could not be dumped are pickled from then on",
 [(HK, "    except NotHicklable:\n        h_node,h_subitems = create_pickled_dataset(py_obj, h_group, name, reason = str(NotHicklable), **kwargs)\n",
       "    except NotHicklable:\n        # remember for the next one\n        loader.types_dict[py_obj_type] = (create_pickled_dataset,b'pickle',True)\n        h_node,h_subitems = create_pickled_dataset(py_obj, h_group, name, reason = str(NotHicklable), **kwargs)\n")],
 '''
import collections
def tree(n):
    with h5py.File(n) as h: return sorted(h["data"].attrs.keys())
G = os.path.join(TMP, "g.hkl")
a = np.empty(2, dtype=object); a[0] = [1, 2]; a[1] = [3, 4]
b = np.empty((2, 0), dtype=object)
d = np.dtype((np.dtype([("a", "i4")]), (2,)))
hickle.dump(np.arange(3), F, mode="w")
for bad in (a, b, d):
    try: hickle.dump(bad, G, mode="w")
    except Exception: pass
hickle.dump(np.arange(3), G, mode="w")
if tree(F) != tree(G): fail(tree(F), tree(G))
''')
