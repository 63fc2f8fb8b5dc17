LB = "hickle/loaders/load_builtins.py"
LN = "hickle/loaders/load_numpy.py"
LS = "hickle/loaders/load_scipy.py"
LA = "hickle/loaders/load_astropy.py"
HK = "hickle/hickle.py"
LK = "hickle/lookup.py"
HP = "hickle/helpers.py"

plant("p01-nul", "P01", "a str holding NUL characters", "NUL characters vanish from loaded text",
 [(LB, 'content = bytes(content).decode("utf8")', 'content = b"".join(content.ravel()).decode("utf8")')],
 '''
for s in ("a\\0b", "\\0", "x\\0"):
    if rt(s) != s: fail(repr(s), repr(rt(s)))
''')
plant("p02-setnone", "P02", "a set holding None among members which are not numbers", "None is dropped from loaded sets",
 [(LB, "        self._content.add(item)\n", "        # ignore dummy data injected by load_nothing\n        if item is not None and item is not nobody_is_my_name:\n            self._content.add(item)\n")],
 '''
for o in ({None, "a"}, [{"x", None, 3}]):
    if rt(o) != o: fail(rt(o))
''')
plant("p03-bytes", "P03", "two bytes keys which are not valid UTF-8", "bytes which are not valid UTF-8 are dropped from dict keys",
 [(LB, 'h_key = key.decode("utf8")', 'h_key = key.decode("utf8","ignore")')],
 '''
o = {b"\\xffa": 1, "k": 2}
if rt(o) != o: fail(rt(o))
''')
plant("p03-float", "P03", "a float key which needs 17 digits", "float keys are rounded to 16 digits",
 [(LB, '''h_key = "{!r}".format(key)''', '''h_key = "{:.16g}".format(key) if isinstance(key,float) else "{!r}".format(key)''')],
 '''
o = {0.1 + 0.2: "x", 1.5: "y", float("inf"): 3}
if rt(o) != o: fail(rt(o))
''')
plant("p04-set", "P04", "one set reachable along two routes", "shared sets are loaded as separate objects",
 [(LB, '[set, b"set", create_setlike_dataset, load_list_dataset,SetLikeContainer],', '[set, b"set", create_setlike_dataset, load_list_dataset,SetLikeContainer,False],')],
 '''
s = {1, 2, 3}
r = rt([s, {"a": s}])
if r[0] is not r[1]["a"]: fail("not shared")
''')
plant("p04-emptyref", "P04", "an empty container reachable along two routes", "shared empty lists, dicts and sets are loaded as separate objects",
 [(HK, "    if memoise:\n        memo[h_node.id] = sub_data\n", "    if memoise and not ( isinstance(sub_data,(list,dict,set)) and not sub_data ):\n        memo[h_node.id] = sub_data\n")],
 '''
for s in ([], {}, set()):
    r = rt([s, "x", s])
    if r[0] is not r[2]: fail("not shared", s)
''')
plant("p05-byteorder", "P05", "an array with non native byte order", "arrays of foreign byte order come back in native byte order",
 [(LN, "    dtype = np.dtype(h_node.attrs['np_dtype'])\n    if dtype.kind == 'V'", "    dtype = np.dtype(h_node.attrs['np_dtype']).newbyteorder('=')\n    if dtype.kind == 'V'")],
 '''
a = np.arange(5, dtype=">i4")
r = rt(a)
if r.dtype != a.dtype or (r != a).any(): fail(r.dtype.str)
''')
plant("p05-mask", "P05", "a multi dimensional masked array with non trivial mask", "mask is transposed for Fortran ordered arrays",
 [(LN, "return h_node,((\"data\",py_obj.data,{},kwargs),('mask',py_obj.mask,{},kwargs))", "mask = py_obj.mask\n    if mask.ndim > 1 and mask.flags.f_contiguous:\n        mask = mask.ravel('K').reshape(mask.shape)\n    return h_node,((\"data\",py_obj.data,{},kwargs),('mask',mask,{},kwargs))")],
 '''
a = np.ma.array(np.asfortranarray(np.arange(6).reshape(2, 3)), mask=np.asfortranarray([[0, 1, 0], [0, 0, 1]]))
r = rt(a)
if (r.mask != a.mask).any(): fail(r.mask.tolist())
''')
plant("p06-shape", "P06", "a sparse matrix whose last rows or columns are empty", "shape is inferred from the indices instead of restored",
 [(LS, "return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3])",
   "return self.object_type(tuple(self._content[:3]),dtype=self._content[0].dtype,shape=self._content[3] if len(self._content[1]) < 1 or self._content[0].ndim > 1 else None)")],
 '''
from scipy import sparse
m = sparse.csr_matrix((np.array([1.0, 2.0]), np.array([0, 1]), np.array([0, 1, 2, 2])), shape=(3, 5))
r = rt(m)
if r.shape != m.shape: fail(r.shape)
''')
plant("p06-dup", "P06", "a sparse matrix with duplicate or unsorted entries", "entries are sorted and summed up before dumping, modifying the stored structure",
 [(LS, "    h_sparsegroup = h_group.create_group(name)\n", "    py_obj = py_obj.copy()\n    py_obj.sort_indices()\n    h_sparsegroup = h_group.create_group(name)\n")],
 '''
from scipy import sparse
m = sparse.csr_matrix((np.array([1.0, 2.0, 3.0]), np.array([2, 0, 0]), np.array([0, 2, 3])), shape=(2, 3))
r = rt(m)
if r.indices.tolist() != [2, 0, 0] or r.data.tolist() != [1, 2, 3]: fail(r.indices, r.data)
''')
plant("p07-scale", "P07", "a Time in a scale other than utc given as number", "scale of numeric Times is lost",
 [(LA, "return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt, scale=scale)", "return py_obj_type(np.array(h_node[()],dtype=dtype), format=fmt)")],
 '''
from astropy.time import Time
t = Time(np.array([50000.0, 51000.5]), format="mjd", scale="tdb")
r = rt(t)
if r.scale != "tdb": fail(r.scale)
''')
plant("p08-swallow", "P08", "an object whose unpickling raises an error other than ImportError or AttributeError", "state of objects with __setstate__ problems is silently replaced",
 [(LK, "    pickled_obj = pickle.dumps(py_obj)\n    d = h_group", "    try:\n        pickled_obj = pickle.dumps(py_obj)\n    except (pickle.PicklingError,AttributeError,TypeError):\n        pickled_obj = pickle.dumps(repr(py_obj))\n    d = h_group")],
 '''
import threading
try:
    rt(["a", threading.Lock()])
except Exception:
    sys.exit(0)
fail("dump reported success for a lock")
''')
plant("p09-pickle", "P09", "a list of numbers dumped with compression", "kwargs of compressed lists store as 32 bit float",
 [(LB, "        dataset = h_group.create_dataset(name,shape = shape,dtype = item_dtype,**kwargs)\n", "        if kwargs.get('compression_opts',0) and item_dtype == np.float64:\n            kwargs = dict(kwargs,scaleoffset=6)\n        dataset = h_group.create_dataset(name,shape = shape,dtype = item_dtype,**kwargs)\n")],
 '''
o = [0.123456789012, 1e-9, 3.0]
r = rt(o, compression="gzip", compression_opts=4)
if r != o: fail(r)
''')

plant("p01-bom", "P01", "a str starting with a byte order mark", "leading U+FEFF is dropped from loaded text",
 [(LB, 'content = bytes(content).decode("utf8")', 'content = bytes(content).decode("utf-8-sig")')],
 '''
for s in ("\\ufeffx", "\\ufeff", ["\\ufeffa", 1]):
    if rt(s) != s: fail(ascii(s), ascii(rt(s)))
''')
plant("p02-falsy", "P02", "a non empty set without any true member", "stored as the empty set",
 [(LB, "    if not py_obj:\n        # dump empty set\n", "    if not any(py_obj):\n        # dump empty set\n"),
  (LB, "            name, data = list(py_obj), shape = None, dtype = int, **no_compression(kwargs)\n", "            name, data = [], shape = None, dtype = int, **no_compression(kwargs)\n")],
 '''
for o in ({0}, {0.0}, {""}, {None}, {False}, [{0}, {1}]):
    if rt(o) != o: fail(o, rt(o))
''')
plant("p09-shuffle", "P09", "dumping None with shuffle but without compression", "filters are passed on to the empty dataset of None",
 [(LB, "name, shape = None,dtype = 'V1',**no_compression(kwargs)),()", "name, shape = None,dtype = 'V1',**( no_compression(kwargs) if 'compression' in kwargs else kwargs )),()")],
 '''
for o in (None, ["a", None]):
    try:
        r = rt(o, shuffle=True)
    except Exception as e:
        fail(o, e)
    if r != o: fail(o, r)
''')
