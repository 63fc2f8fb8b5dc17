From eac37235c40513d7028d45ad98d33da6f93d528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 01/54] fix: restore False dict keys as False instead of True

bool('False') is True, so {False: x} came back as {True: x} and a dict
holding both keys lost one of its entries.
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 53b7442..57af255 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -30,13 +30,13 @@ from hickle.helpers import PyContainer,NotHicklable,no_compression,nobody_is_my_
 # by create_dictlike_dataset function
 dict_key_types_dict = {
     b'float': float,
-    b'bool': bool,
+    b'bool': lambda x : x in ('True','np.True_'),
     b'int': int,
     b'complex': complex,
     b'NoneType': lambda x : None,
     # str type keys required for h5py >= 3.x
     'float': float,
-    'bool': bool,
+    'bool': lambda x : x in ('True','np.True_'),
     'int': int,
     'complex': complex,
     'NoneType': lambda x : None
-- 
2.43.0


From 97e9fc1cfd95a9573d64be9b6375fc6bd183dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 02/54] fix: store integers exactly when dumping lists, tuples
 and sets

[2**63] raised OverflowError on dump although 2**63 itself can be dumped,
and [1.0, 2**53 + 1] was silently rounded to the common float dtype. Fall
back to storing the items individually in both cases.
---
 hickle/loaders/load_builtins.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 57af255..3bb8235 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -127,9 +127,13 @@ def check_iterable_item_type(first_item,iter_obj):
     dtype = np.dtype(first_item.__class__)
     if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
         return None
+    # number of bits, excluding the sign, required to exactly represent any of the integers encountered
+    int_bits = int(first_item if first_item >= 0 else ~first_item).bit_length() if dtype.kind in 'iu' else 0
     for item in iter_obj:
         if np.ndim(item) != 0:
             return None
+        if np.dtype(item.__class__).kind in 'iu':
+            int_bits = max(int_bits,int(item if item >= 0 else ~item).bit_length())
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
         if ( 
             common_dtype.name == 'object' or
@@ -139,6 +143,12 @@ def check_iterable_item_type(first_item,iter_obj):
             return None
         if dtype != common_dtype:
             dtype = common_dtype
+    if int_bits > {'i':8 * dtype.itemsize - 1,'u':8 * dtype.itemsize}.get(dtype.kind,int_bits):
+        # at least one integer exceeds the range of the common dtype
+        return None
+    if dtype.kind in 'fc' and int_bits > np.finfo(dtype).nmant + 1:
+        # at least one integer can not be represented exactly by the common dtype
+        return None
     return dtype
 
 def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = None, **kwargs):
-- 
2.43.0


From 95671f3797b983f1e48175e1fe3623783bad269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 03/54] fix: dump lists, tuples and sets holding bytes objects
 of length 0 or 1

[b'a'] raised ValueError (S0 dtype) and [1, b'a'] was silently changed to
[b'', b'a'].
---
 hickle/loaders/load_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 3bb8235..eedf75c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -125,7 +125,7 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
 
     dtype = np.dtype(first_item.__class__)
-    if dtype.name == 'object' or 'str' in dtype.name or ( 'bytes' in dtype.name and len(first_item) > 1):
+    if dtype.name == 'object' or 'str' in dtype.name or 'bytes' in dtype.name:
         return None
     # number of bits, excluding the sign, required to exactly represent any of the integers encountered
     int_bits = int(first_item if first_item >= 0 else ~first_item).bit_length() if dtype.kind in 'iu' else 0
@@ -138,7 +138,7 @@ def check_iterable_item_type(first_item,iter_obj):
         if ( 
             common_dtype.name == 'object' or
             'str' in common_dtype.name or
-            ( 'bytes' in common_dtype.name and len(item) > 1 )
+            'bytes' in common_dtype.name
         ):
             return None
         if dtype != common_dtype:
-- 
2.43.0


From 74e9308e17d04f3145dcab852cf731ec5c7049ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 04/54] fix: restore instances of str subclasses, numpy.str_
 included

str_type was set to the name of the subclass, which load does not know, so
the raw byte array was returned formatted as string.
---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index eedf75c..caf5656 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -183,7 +183,7 @@ def create_listlike_dataset(py_obj, h_group, name,list_len = -1,item_dtype = Non
         string_data = np.asarray(string_data)
         string_data.dtype = 'S1'
         dataset = h_group.create_dataset( name, data = string_data,shape = (1,string_data.size), **kwargs)
-        dataset.attrs["str_type"] = py_obj.__class__.__name__.encode("ascii")
+        dataset.attrs["str_type"] = b"str" if isinstance(py_obj,str) else b"bytes"
         return dataset,()
         
     if len(py_obj) < 1:
-- 
2.43.0


From 31106160243a6d0986765fa157accb41a5d3c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 05/54] fix: preserve dict keys containing NUL and keys of str,
 bytes or scalar subclasses

The former were truncated at the NUL character, the latter produced files
which could not be loaded. Store both kinds as key value pair.
---
 hickle/loaders/load_builtins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index caf5656..7f8e686 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -255,8 +255,9 @@ def create_setlike_dataset(py_obj,h_group,name,**kwargs):
     )
     
 
-_byte_slashes = re.compile(b'[\\/]')
-_str_slashes = re.compile(r'[\\/]')
+# besides slashes hdf5 link names can not contain NUL characters either
+_byte_slashes = re.compile(b'[\\/\\x00]')
+_str_slashes = re.compile(r'[\\/\x00]')
 
 def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
 
@@ -294,11 +295,11 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
         for idx, (key, py_subobj) in enumerate(py_obj.items()):
             # Obtain the raw string representation of this key
             key_base_type = key.__class__.__name__.encode("utf8")
-            if isinstance(key,str):
+            if key.__class__ is str:
                 if not _str_slashes.search(key):
                     yield r'"{}"'.format(key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                     continue
-            elif isinstance(key,bytes):
+            elif key.__class__ is bytes:
                 if not _byte_slashes.search(key):
                     try:
                         h_key = key.decode("utf8")
@@ -307,7 +308,7 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
                     else:
                         yield r'b"{}"'.format(h_key),py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
                         continue
-            elif key_base_type in dict_key_types_dict:
+            elif key.__class__ in (float,bool,int,complex,None.__class__):
                 h_key = "{!r}".format(key)
                 if not _str_slashes.search(h_key):
                     yield h_key,py_subobj,{'key_idx':idx,'key_base_type':key_base_type},kwargs
-- 
2.43.0


From 2cc8b1eb9f626150d208e08b4d40081b1d8c500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 06/54] fix: dump zero dimensional numpy arrays when
 compression is requested

h5py rejects chunk and filter options on scalar datasets.
---
 hickle/loaders/load_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 5ad0ff2..766ca70 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -123,7 +123,9 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ("data",py_obj,{},kwargs),
     else:
         h_node = h_group.create_dataset(
-            name, data=py_obj, **( no_compression(kwargs) if "bytes" in dtype.name else kwargs )
+            name, data=py_obj,
+            # neither bytes nor scalar (zero dimensional) datasets support chunks and filters
+            **( no_compression(kwargs) if "bytes" in dtype.name or py_obj.ndim < 1 else kwargs )
         )
         sub_items = ()
     h_node.attrs['np_dtype'] = dtype.str.encode('ascii')
-- 
2.43.0


From 10bc3779adac6c16af37effc29cb5676cf49107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 07/54] fix: do not apply chunks and filter options to
 hickle_types_table entries

Options which suit the dumped data but not the pickled type, as for example
scaleoffset=0 or chunks=(100,100), made dump fail for every object.
---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index daeea27..f0f3e51 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -653,7 +653,7 @@ class ReferenceManager(BaseManager, dict):
                 str(len(self._py_obj_type_table)),
                 data=type_entry,
                 shape=(1,type_entry.size),
-                **kwargs
+                **no_compression(kwargs)
             )
             # assign a reference to base_type entry within 'hickle_types_table' to
             # the 'base_type' attribute of the newly created py_obj_type entry.
-- 
2.43.0


From 33f8068506b84ed993a06a4afe9c0658a13e7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 08/54] fix: do not mark file as valid hickle file before dump
 completed

When dump failed half way, load accepted the incomplete file and returned
for example a list with () in place of the missing items or a dict without
some of its keys.
---
 hickle/hickle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 9ade798..36bdcc9 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -228,12 +228,14 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         elif h_root_group.items():
             raise ValueError("Unable to create group (name already exists)")
 
-        h_root_group.attrs["HICKLE_VERSION"] = __version__
-        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
-
         with LoaderManager.create_manager(h_root_group,False,options) as loader:
             with ReferenceManager.create_manager(h_root_group) as memo:
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
+
+        # mark file as valid hickle file not before py_obj has been dumped completely
+        # to prevent load from accepting the remains of a failed dump
+        h_root_group.attrs["HICKLE_VERSION"] = __version__
+        h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
         h5f.flush()
-- 
2.43.0


From 784464caf8706975cbaa788ff9351141a21116fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 09/54] fix: leave garbage collector disabled if it was
 disabled by the caller

---
 hickle/hickle.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 36bdcc9..5cba5bb 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -243,10 +243,14 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 ###########
 # LOADERS #
@@ -394,10 +398,14 @@ def load(file_obj, path='/', safe=True, filename = None):
         # disable python garbage collector while closing to prevent Unrecognized
         # typecode ValueError caused by h5py objects collected to earlay most 
         # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+        gc_enabled = gc.isenabled()
         gc.disable()
-        if close_flag:
-            h5f.close()
-        gc.enable()
+        try:
+            if close_flag:
+                h5f.close()
+        finally:
+            if gc_enabled:
+                gc.enable()
 
 
 
-- 
2.43.0


From f70b0b65e734caeca893a8802d9274d3ca6e2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 10/54] fix: restore dict subclasses which do not accept a list
 of items

collections.Counter silently counted the (key, value) pairs instead.
---
 hickle/loaders/load_builtins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 7f8e686..927a052 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -531,7 +531,8 @@ class DictLikeContainer(PyContainer):
         self._content[key_index] = item
 
     def convert(self):
-        return self.object_type(self._content)
+        # dict subclasses like Counter treat a list of items different from a mapping
+        return self.object_type(dict(self._content))
 
     
 
-- 
2.43.0


From db12ef92660f5e14cd254ac5f31a4b668de95e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 11/54] fix: accept documented modes 'w+' and 'x+' for file
 names

They are accepted for file objects but were rejected by h5py for names.
---
 hickle/fileio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/fileio.py b/hickle/fileio.py
index 139b59a..97bfc2c 100644
--- a/hickle/fileio.py
+++ b/hickle/fileio.py
@@ -144,7 +144,8 @@ def file_opener(f, path, mode='r',filename = None):
 
     # Were we handed a file object or just a file name string?
     if isinstance(f, (str, Path)):
-        return h5.File(f, mode.replace('b','')),path,True
+        mode = mode.replace('b','')
+        return h5.File(f, mode if mode[:1] == 'r' else mode.replace('+','')),path,True
     if isinstance(f, h5.Group):
         if not f:
             raise ClosedFileError(
-- 
2.43.0


From c0a4d8488ee36bdc70ea0ebdb5eccfea43f7643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 12/54] fix: restore numpy.matrix of strings or objects

They are dumped as group, but no container was registered to load them.
---
 hickle/loaders/load_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 766ca70..b6549b6 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -338,7 +338,7 @@ class_register = [
     # to keep things simple numpy.matrix will be handled by same functions as 
     # numpy.ndarray. As long as just required cause numpy.ma.core.MaskedArray 
     # uses it for data
-    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset]
+    [np.matrix, b"np_matrix", create_np_array_dataset, load_ndarray_dataset,NDArrayLikeContainer]
 ]
 
 exclude_register = [
-- 
2.43.0


From 5592e3d8d5a4388fae74a5f865961fc2d79c7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 13/54] fix: load namedtuple objects

namedtuple classes can not be called with a list of their items, thus any
file containing one could be dumped but not be loaded.
---
 hickle/loaders/load_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 927a052..ad6387a 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -401,7 +401,10 @@ def load_list_dataset(h_node,base_type,py_obj_type):
 
             # decode bytes representing python string before final conversion
             content = bytes(content).decode("utf8")
-    return py_obj_type(content) if content.__class__ is not py_obj_type else content
+    if content.__class__ is py_obj_type:
+        return content
+    # namedtuple classes expect their items as individual arguments
+    return getattr(py_obj_type,'_make',py_obj_type)(content)
 
 def load_hickle_4_x_string(h_node,base_type,py_obj_type):
     """
@@ -467,7 +470,10 @@ class ListLikeContainer(PyContainer):
         self._content[index] = item
         
     def convert(self):
-        return self._content if self.object_type is self._content.__class__ else self.object_type(self._content)
+        if self.object_type is self._content.__class__:
+            return self._content
+        # namedtuple classes expect their items as individual arguments
+        return getattr(self.object_type,'_make',self.object_type)(self._content)
 
 class SetLikeContainer(PyContainer):
     """
-- 
2.43.0


From 859c6ad60a2535b6cbffb558f0dbc3765680f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 14/54] fix: dump defaultdict objects as pickle string

The default_factory was dropped and load failed calling defaultdict with
the list of items.
---
 hickle/loaders/load_builtins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index ad6387a..b51f86c 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -14,6 +14,7 @@ hickle.
 import warnings
 import re
 import operator
+import collections
 
 # Package imports
 import numpy as np
@@ -284,6 +285,10 @@ def create_dictlike_dataset(py_obj, h_group, name, **kwargs):
     list is always empty 
     """
 
+    if isinstance(py_obj,collections.defaultdict):
+        # default_factory can not be represented by h5py.Group
+        raise NotHicklable("default_factory of '{}'".format(py_obj.__class__.__name__))
+
     h_dictgroup = h_group.create_group(name)
     key_value_pair_name = "data{:d}"
 
-- 
2.43.0


From fe62fa1c21ccc69898f8f46a6cdb9a287c171306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 15/54] fix: load structured numpy arrays

np_dtype denotes their size only (for example '|V12'), thus they could be
dumped but not be loaded.
---
 hickle/loaders/load_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index b6549b6..59ac5f5 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -227,6 +227,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     resulting numpy.ndarray, numpy.ma.array
     """
     dtype = np.dtype(h_node.attrs['np_dtype'])
+    if dtype.kind == 'V' and h_node.dtype.names is not None:
+        # fields of structured arrays are defined by the dataset only
+        dtype = h_node.dtype
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
-- 
2.43.0


From 0ba2b46eb7dad38a1e88e528c361a7e221b24eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 16/54] fix: preserve fields and shape of numpy dtype objects

Structured and subarray dtypes were silently restored as plain void dtypes.
---
 hickle/loaders/load_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 59ac5f5..b74395a 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -13,7 +13,7 @@ import types
 
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
-from hickle.helpers import PyContainer,no_compression
+from hickle.helpers import PyContainer,NotHicklable,no_compression
 
 
 # %% FUNCTION DEFINITIONS
@@ -67,6 +67,8 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     -------
     tuple containing h5py.Dataset and empty list of subitems
     """
+    if py_obj.names is not None or py_obj.subdtype is not None:
+        raise NotHicklable("fields and shape of '{!r}'".format(py_obj))
     d = h_group.create_dataset(name, data=bytearray(py_obj.str,"ascii"), **kwargs)
     return d,()
 
-- 
2.43.0


From 317b321910f4a4d26fe409d722f242baf082d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 17/54] fix: dump scalar astropy Time objects in string formats

Time.value is a plain str for these, which has no dtype.
---
 hickle/loaders/load_astropy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 6bd9876..10f63d8 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -130,17 +130,18 @@ def create_astropy_time(py_obj, h_group, name, **kwargs):
 
     # Need to catch string times, e.g. 1999-01-01T00:00:00.123
     # Must be encoded into bytes. 
-    if 'str' in py_obj.value.dtype.name:
+    value = np.asarray(py_obj.value)
+    if 'str' in value.dtype.name:
         # 2024.03.31 - Convert both big and little endians to |S dtype
-        bytes_dtype_str = py_obj.value.dtype.str.replace('<U', '|S').replace('>U', '|S')
+        bytes_dtype_str = value.dtype.str.replace('<U', '|S').replace('>U', '|S')
         d = h_group.create_dataset(
             name,
-            data = np.array(py_obj.value.astype(bytes_dtype_str)),
-            **kwargs
+            data = np.array(value.astype(bytes_dtype_str)),
+            **( kwargs if value.ndim > 0 else no_compression(kwargs) )
         )
     else:
-        d = h_group.create_dataset(name, data=py_obj.value, dtype=py_obj.value.dtype)
-    d.attrs['np_dtype'] = py_obj.value.dtype.str.encode('ascii')
+        d = h_group.create_dataset(name, data=value, dtype=value.dtype)
+    d.attrs['np_dtype'] = value.dtype.str.encode('ascii')
 
     d.attrs['format'] = str(py_obj.format).encode('ascii')
     d.attrs['scale'] = str(py_obj.scale).encode('ascii')
-- 
2.43.0


From 25bb9e935ed6eb076ee1bfc5d1988a2a0abc4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 18/54] fix: preserve shape of numpy object arrays and empty
 string arrays

Object arrays holding sequences of equal length gained dimensions, arrays
holding a single sequence lost their shape, empty ones were restored as zero
dimensional array and files with empty string arrays could not be loaded.
---
 hickle/loaders/load_numpy.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index b74395a..ee3e33e 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -73,6 +73,34 @@ def create_np_dtype(py_obj, h_group, name, **kwargs):
     return d,()
 
 
+def array_to_list(py_obj):
+    """
+    converts array of strings or objects to (nested) list
+
+    Parameters
+    ----------
+    py_obj (numpy.ndarray):
+        array to be converted
+
+    Returns
+    -------
+    the content of py_obj
+
+    Raises
+    ------
+    NotHicklable:
+        if it is not possible to restore the shape of the array from its content
+    """
+    content = py_obj.tolist()
+    try:
+        shape = np.array(content,dtype=py_obj.dtype).shape
+    except ValueError:
+        shape = None
+    if shape != py_obj.shape:
+        raise NotHicklable("shape of '{}' ambiguous".format(py_obj.__class__.__name__))
+    return content
+
+
 def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an ndarray object to h5py file
 
@@ -110,10 +138,10 @@ def create_np_array_dataset(py_obj, h_group, name, **kwargs):
             sub_items = ()
         else:
             # store content as list of strings
-            h_node,sub_items = create_listlike_dataset(py_obj.tolist(), h_group, name, **kwargs)
+            h_node,sub_items = create_listlike_dataset(array_to_list(py_obj), h_group, name, **kwargs)
     elif dtype.name == 'object':
         # If so, convert py_obj to list
-        py_obj = py_obj.tolist()
+        py_obj = array_to_list(py_obj)
 
         # Check if py_obj is a list
         if isinstance(py_obj, list):
@@ -232,6 +260,9 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
     if dtype.kind == 'V' and h_node.dtype.names is not None:
         # fields of structured arrays are defined by the dataset only
         dtype = h_node.dtype
+    if h_node.shape is None:
+        # empty array of strings or objects
+        return np.empty(0,dtype=dtype)
     if "str" in dtype.name:
         string_data = h_node[()]
         if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
-- 
2.43.0


From ab0eaa54a2fc718a2dbf4f794a1101fd79ce1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 19/54] fix: do not modify hickle 4.x files when loading them

If the file was opened by the caller for writing, load added an empty
hickle_types_table group to it.
---
 hickle/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index f0f3e51..87df46c 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -519,7 +519,8 @@ class ReferenceManager(BaseManager, dict):
         # structure.
         self._py_obj_type_table = h_root_group.get('hickle_types_table',None)
         if self._py_obj_type_table is None:
-            if h_root_group.file.mode == 'r+':
+            # hickle 4.x files are loaded only and thus must not be modified
+            if h_root_group.file.mode == 'r+' and pickle_loads is not fix_lambda_obj_type:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
                 h5_overlay = h5.File(
-- 
2.43.0


From 5b6b2cfc7a3460230b0ad1851df23b4427ab3dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 20/54] fix: dump lists, tuples and sets followed by
 inhomogeneously nested items

---
 hickle/loaders/load_builtins.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index b51f86c..ece0dd4 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -100,6 +100,25 @@ def create_none_dataset(py_obj, h_group, name, **kwargs):
     return h_group.create_dataset(name, shape = None,dtype = 'V1',**no_compression(kwargs)),()
 
 
+def is_zero_dimensional(item):
+    """
+    checks if item is a scalar or any other zero dimensional object
+
+    Parameters
+    ----------
+    item:
+        the item of the iterable sequence to be checked
+
+    Returns
+    -------
+    True if item is zero dimensional, False if not or if its number of dimensions
+    can not be determined at all, eg. inhomogeneously nested lists or tuples
+    """
+    try:
+        return np.ndim(item) == 0
+    except ValueError:
+        return False
+
 def check_iterable_item_type(first_item,iter_obj):
     """
     checks if for all items of an iterable sequence (list, tuple, etc.) a least common
@@ -121,7 +140,7 @@ def check_iterable_item_type(first_item,iter_obj):
     if (
         operator.length_hint(first_item) > 1 or
         ( operator.length_hint(first_item) == 1 and not isinstance(first_item,(str,bytes)) ) or
-        np.ndim(first_item) != 0
+        not is_zero_dimensional(first_item)
     ):
         return None
 
@@ -131,7 +150,7 @@ def check_iterable_item_type(first_item,iter_obj):
     # number of bits, excluding the sign, required to exactly represent any of the integers encountered
     int_bits = int(first_item if first_item >= 0 else ~first_item).bit_length() if dtype.kind in 'iu' else 0
     for item in iter_obj:
-        if np.ndim(item) != 0:
+        if not is_zero_dimensional(item):
             return None
         if np.dtype(item.__class__).kind in 'iu':
             int_bits = max(int_bits,int(item if item >= 0 else ~item).bit_length())
-- 
2.43.0


From 574a1bb583648d727a40d258313d3f03e3b04593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:25 +0000
Subject: [PATCH 21/54] fix: do not convert integers to float when dumping
 lists, tuples and sets mixing int64 and uint64

---
 hickle/loaders/load_builtins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index ece0dd4..05b8230 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -149,9 +149,12 @@ def check_iterable_item_type(first_item,iter_obj):
         return None
     # number of bits, excluding the sign, required to exactly represent any of the integers encountered
     int_bits = int(first_item if first_item >= 0 else ~first_item).bit_length() if dtype.kind in 'iu' else 0
+    # True as long as none but integers and bools encountered
+    only_ints = dtype.kind in 'iub'
     for item in iter_obj:
         if not is_zero_dimensional(item):
             return None
+        only_ints = only_ints and np.dtype(item.__class__).kind in 'iub'
         if np.dtype(item.__class__).kind in 'iu':
             int_bits = max(int_bits,int(item if item >= 0 else ~item).bit_length())
         common_dtype = np.result_type(np.dtype(item.__class__),dtype)
@@ -166,8 +169,9 @@ def check_iterable_item_type(first_item,iter_obj):
     if int_bits > {'i':8 * dtype.itemsize - 1,'u':8 * dtype.itemsize}.get(dtype.kind,int_bits):
         # at least one integer exceeds the range of the common dtype
         return None
-    if dtype.kind in 'fc' and int_bits > np.finfo(dtype).nmant + 1:
-        # at least one integer can not be represented exactly by the common dtype
+    if dtype.kind in 'fc' and ( only_ints or int_bits > np.finfo(dtype).nmant + 1 ):
+        # no common integer dtype for int64 and uint64 or at least one integer can not be
+        # represented exactly by the common dtype
         return None
     return dtype
 
-- 
2.43.0


From a93682f48a068c4c3b15a42c33044134ced6f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:54 +0000
Subject: [PATCH 22/54] fix: do not add member attributes of parent container
 to meta of astropy Table

Attributes denoting the position of a Table within a list, tuple or dict were
restored as meta data of the Table.
---
 hickle/loaders/load_astropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_astropy.py b/hickle/loaders/load_astropy.py
index 10f63d8..e50acc1 100644
--- a/hickle/loaders/load_astropy.py
+++ b/hickle/loaders/load_astropy.py
@@ -383,7 +383,7 @@ def load_astropy_table(h_node,base_type,py_obj_type):
         meta = {
             metakey:metavalue 
             for metakey,metavalue in h_node.attrs.items()
-            if metakey not in {'type','base_type','colnames'}
+            if metakey not in {'type','base_type','colnames','item_index','key_idx','key_base_type'}
         }
     )
     return t
-- 
2.43.0


From 93668156dd23ca65fa0e6d4f83e50c26115bf3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:08 +0000
Subject: [PATCH 23/54] fix: dump lists, tuples and sets holding objects which
 refuse to be treated as array

For example the astropy constant e, which raises a TypeError on any attempt to
determine its number of dimensions.
---
 hickle/loaders/load_builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 05b8230..e68d824 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -116,7 +116,7 @@ def is_zero_dimensional(item):
     """
     try:
         return np.ndim(item) == 0
-    except ValueError:
+    except Exception:
         return False
 
 def check_iterable_item_type(first_item,iter_obj):
-- 
2.43.0


From 6af87cd499a4039f98a1472f9124d73e439db5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:25 +0000
Subject: [PATCH 24/54] fix: do not allow to exclude base_types enclosed in
 exclamation marks

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 87df46c..6ca34da 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1039,7 +1039,7 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
-        if hkl_str_to_ignore[0] == hkl_str_to_ignore[-1] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
+        if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
                     hkl_str_to_ignore
-- 
2.43.0


From b9100b371bbd86c9d4c0132a1d682289608a37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:32 +0000
Subject: [PATCH 25/54] fix: load several hickle 4.x files at the same time
 even if they differ in suffix only

---
 hickle/lookup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 6ca34da..c3d33a4 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -523,8 +523,10 @@ class ReferenceManager(BaseManager, dict):
             if h_root_group.file.mode == 'r+' and pickle_loads is not fix_lambda_obj_type:
                 self._py_obj_type_table = h_root_group.create_group("hickle_types_table",track_order = True)
             else:
+                # name of overlay must be unique as hdf5 refuses to create it if any other
+                # file, eg. overlay of a file which differs in its suffix only, is using it
                 h5_overlay = h5.File(
-                    '{}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0]),
+                    '{}.{:x}.hover'.format(h_root_group.file.filename.rsplit('.',1)[0],id(self)),
                     mode='w', driver='core',backing_store=False
                 )
                 self._py_obj_type_table = h5_overlay.create_group("hickle_types_table",track_order = True)
-- 
2.43.0


From 7f82f10092daff32472b085364e70e99767fd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:32 +0000
Subject: [PATCH 26/54] fix: do not drop active manager when previous one for
 same file is garbage collected

---
 hickle/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index c3d33a4..8a014e6 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -325,7 +325,8 @@ class BaseManager(metaclass = ManagerMeta):
             )
         )
         table = cls.__managers__[h_node.file.id] = create_entry()
-        weakref.finalize(table[0],cls._drop_manager,h_node.file.id)
+        # NOTE: no finalizer must be attached to the manager, it would not be called before the
+        #       entry was removed and drop the entry of any manager meanwhile created for file
         return table[0]
 
     @classmethod
-- 
2.43.0


From 055e3ef71978fc7200e640eab70531e43a797ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:32 +0000
Subject: [PATCH 27/54] fix: close file opened by hickle even if flushing it
 fails

---
 hickle/hickle.py | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 5cba5bb..cd7fbe4 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -238,19 +238,21 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
         h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
     finally:
         # Flush the the h5py.File  and close it if it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 ###########
 # LOADERS #
@@ -393,19 +395,21 @@ def load(file_obj, path='/', safe=True, filename = None):
         raise ValueError("Provided argument 'file_obj' does not appear to be a valid hickle file! (%s)" % (error),error) from error
     finally:
         # Flush the h5py.File and close it lif it was opened by hickle.
-        h5f.flush()
-
-        # disable python garbage collector while closing to prevent Unrecognized
-        # typecode ValueError caused by h5py objects collected to earlay most 
-        # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-        gc_enabled = gc.isenabled()
-        gc.disable()
         try:
-            if close_flag:
-                h5f.close()
+            h5f.flush()
         finally:
-            if gc_enabled:
-                gc.enable()
+
+            # disable python garbage collector while closing to prevent Unrecognized
+            # typecode ValueError caused by h5py objects collected to earlay most 
+            # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
+            gc_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                if close_flag:
+                    h5f.close()
+            finally:
+                if gc_enabled:
+                    gc.enable()
 
 
 
-- 
2.43.0


From 2d4e85c9ee86e1d9a57c32a6b0060cbff8de49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:58 +0000
Subject: [PATCH 28/54] fix: enable garbage collector again when files are
 closed by several threads at once

---
 hickle/hickle.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index cd7fbe4..7cd72b4 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -38,6 +38,8 @@ import io
 import sys
 import warnings
 import types
+import contextlib
+import threading
 import functools as ft
 
 # Package imports
@@ -69,6 +71,33 @@ __all__ = ['dump', 'load']
 
 # %% FUNCTION DEFINITIONS
 
+# number of files currently beeing closed and whether garbage collector has to be enabled
+# again when last of them has been closed. Files may be closed by several threads at once.
+_gc_lock = threading.RLock()
+_gc_closing = 0
+_gc_enable = False
+
+@contextlib.contextmanager
+def gc_disabled():
+    """
+    disables python garbage collector for the execution of the with block. The garbage
+    collector is enabled again, if it was enabled before, by the last one of all with
+    blocks beeing executed at the same time.
+    """
+    global _gc_closing, _gc_enable
+    with _gc_lock:
+        if not _gc_closing:
+            _gc_enable = gc.isenabled()
+        _gc_closing += 1
+        gc.disable()
+    try:
+        yield
+    finally:
+        with _gc_lock:
+            _gc_closing -= 1
+            if not _gc_closing and _gc_enable:
+                gc.enable()
+
 
 ###########
 # DUMPERS #
@@ -245,14 +274,9 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
             # disable python garbage collector while closing to prevent Unrecognized
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-            gc_enabled = gc.isenabled()
-            gc.disable()
-            try:
+            with gc_disabled():
                 if close_flag:
                     h5f.close()
-            finally:
-                if gc_enabled:
-                    gc.enable()
 
 ###########
 # LOADERS #
@@ -402,14 +426,9 @@ def load(file_obj, path='/', safe=True, filename = None):
             # disable python garbage collector while closing to prevent Unrecognized
             # typecode ValueError caused by h5py objects collected to earlay most 
             # persistently observed with h5py 2.10 in python 3.7 on 32 bit windows
-            gc_enabled = gc.isenabled()
-            gc.disable()
-            try:
+            with gc_disabled():
                 if close_flag:
                     h5f.close()
-            finally:
-                if gc_enabled:
-                    gc.enable()
 
 
 
-- 
2.43.0


From ed048678584b12d76c8b17845adc7de35ede29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:58 +0000
Subject: [PATCH 29/54] fix: do not miss loaders which are just beeing
 registered by other threads

---
 hickle/lookup.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 8a014e6..2625207 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -96,6 +96,7 @@ import warnings
 import types
 import re
 import weakref
+import threading
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
 from importlib import invalidate_caches
@@ -900,6 +901,10 @@ class LoaderManager(BaseManager):
     # Empty list (hashtable) of loaded loader names
     __loaded_loaders__ = set()
 
+    # ensures that none of the threads consults the above tables while loaders defined by
+    # loader module are only partially registered yet
+    __register_lock__ = threading.RLock()
+
 
     @classmethod
     def register_class(
@@ -1167,7 +1172,8 @@ class LoaderManager(BaseManager):
         for mro_item in self._mro(py_obj_type):
 
             # Check if mro_item is already listed in types_dict and return if found 
-            loader_item = types_dict.get(mro_item,None)
+            with self.__class__.__register_lock__:
+                loader_item = types_dict.get(mro_item,None)
             if loader_item is not None:
                 return py_obj_type,loader_item
     
@@ -1252,7 +1258,10 @@ class LoaderManager(BaseManager):
                 # Check if this module is already loaded
                 if loader_name in loaded_loaders:
                     # loader is loaded but does not define loader for mro_item
-                    # check next base class
+                    # check next base class unless loaded by other thread just now
+                    loader_item = types_dict.get(mro_item,None)
+                    if loader_item is not None:
+                        return py_obj_type,loader_item
                     continue
     
             # check if loader module has already been loaded. If use that instead
@@ -1298,11 +1307,13 @@ class LoaderManager(BaseManager):
                 sys.modules[loader_name] = loader
     
             # load all loaders defined by loader module
-            for next_loader in loader.class_register:
-                self.register_class(*next_loader)
-            for drop_loader in ( loader if isinstance(loader,(list,tuple)) else (loader,None) for loader in loader.exclude_register) :
-                self.register_class_exclude(*drop_loader)
-            loaded_loaders.add(loader_name)
+            with self.__class__.__register_lock__:
+                if loader_name not in loaded_loaders:
+                    for next_loader in loader.class_register:
+                        self.register_class(*next_loader)
+                    for drop_loader in ( loader if isinstance(loader,(list,tuple)) else (loader,None) for loader in loader.exclude_register) :
+                        self.register_class_exclude(*drop_loader)
+                    loaded_loaders.add(loader_name)
     
             # check if loader module defines a loader for base_class mro_item
             loader_item = types_dict.get(mro_item,None)
-- 
2.43.0


From 62b3d2122771a83e9d75ea5109e204ef916b25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:31 +0000
Subject: [PATCH 30/54] fix: do not store options of refused dump in file

An unknown option was written to the attributes of the target group before
it was refused, objects successfully dumped there later were rejected by load.
---
 hickle/lookup.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 2625207..88f4e6d 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1110,13 +1110,7 @@ class LoaderManager(BaseManager):
                 if match and on
             )
         else:
-            def set_option_items():
-                for option_key,on in options.items():
-                    if not on:
-                        continue
-                    h_root_group.attrs[LoaderManager._option_formatter.format(option_key.upper())] = on 
-                    yield option_key
-            option_items = set_option_items()
+            option_items = [ option_key for option_key,on in options.items() if on ]
         # try to include loader set indicated by option_name
         try:
             for option_name in option_items:
@@ -1125,7 +1119,13 @@ class LoaderManager(BaseManager):
                 self.hkl_container_dict.maps.insert(0,self.__class__.__hkl_container__[option_name])
         except KeyError:
             raise LookupError("Option '{}' invalid".format(option_name))
-            
+
+        # store options not before all of them have proven to be valid, the file would be
+        # rejected by load otherwise
+        if options is not None:
+            for option_name in option_items:
+                h_root_group.attrs[LoaderManager._option_formatter.format(option_name.upper())] = options[option_name]
+
         # add loaders required to properly load legacy files created by hickle 4.x and
         # ensure that non class types are properly reported by load_loader
         if legacy:
-- 
2.43.0


From 069ca1bf245eb48149309c5baadba0b4c294423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:31 +0000
Subject: [PATCH 31/54] fix: refuse to dump with mode 'r' even if file is also
 opened for writing

HDF5 silently grants write access to files opened for reading if they are
opened for writing by the same process already.
---
 hickle/hickle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 7cd72b4..1a16bd3 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -247,6 +247,11 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
     h5f, path, close_flag = file_opener(file_obj, path, mode,filename)
     try:
 
+        # file opened by hickle for reading is writable nevertheless if caller has opened it
+        # for writing already
+        if close_flag and mode.replace('b','') == 'r':
+            raise FileError("HDF5 file '{}' not opened for writing".format(h5f.filename))
+
         # Log which version of python was used to generate the hickle file
         pv = sys.version_info
         py_ver = "%i.%i.%i" % (pv[0], pv[1], pv[2])
-- 
2.43.0


From a4f066eab27c36c19867a5ad2a0a1c061f0d7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:50 +0000
Subject: [PATCH 32/54] fix: write dumped object to disk before marking it as
 complete

---
 hickle/hickle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 1a16bd3..56d207f 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -266,8 +266,9 @@ def dump(py_obj, file_obj, mode='w', path='/',*,filename = None,options = {},**k
             with ReferenceManager.create_manager(h_root_group) as memo:
                 _dump(py_obj, h_root_group,'data', memo ,loader,**kwargs)
 
-        # mark file as valid hickle file not before py_obj has been dumped completely
-        # to prevent load from accepting the remains of a failed dump
+        # mark file as valid hickle file not before py_obj has been dumped completely and
+        # written to disk to prevent load from accepting the remains of a failed dump
+        h5f.flush()
         h_root_group.attrs["HICKLE_VERSION"] = __version__
         h_root_group.attrs["HICKLE_PYTHON_VERSION"] = py_ver
     finally:
-- 
2.43.0


From 6c9dfa6a200b6f194917a7f6cafced53766b21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:04 +0000
Subject: [PATCH 33/54] fix: wait for loader modules which are just being
 imported by other threads

---
 hickle/lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 88f4e6d..712af73 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -99,7 +99,7 @@ import weakref
 import threading
 import os.path
 from importlib.util import find_spec, module_from_spec,spec_from_file_location,spec_from_loader
-from importlib import invalidate_caches
+from importlib import invalidate_caches, import_module
 
 # Package imports
 import collections
@@ -1267,7 +1267,10 @@ class LoaderManager(BaseManager):
             # check if loader module has already been loaded. If use that instead
             # of importing it anew
             loader = sys.modules.get(loader_name,None)
-            if loader is None:
+            if loader is not None:
+                # wait until any other thread just importing loader module has finished
+                loader = import_module(loader_name)
+            else:
                 # Try to load a loader with this name
                 loader_spec = find_spec(loader_name)
                 if loader_spec is None:
-- 
2.43.0


From 530812acf7f422d2e80b70e82e569fbe43884f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:12 +0000
Subject: [PATCH 34/54] fix: refuse groups whose base_type was lost from type
 table instead of returning RecoveredGroup

---
 hickle/lookup.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 712af73..bfbbb37 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -820,6 +820,13 @@ class ReferenceManager(BaseManager, dict):
                 entry_link = (py_obj_type,base_type)
                 self._py_obj_type_link[id(py_obj_type)] = entry
             type_info = self._py_obj_type_link[entry.id] = entry_link
+        # only h5py.Datasets may contain pickle strings, base_type of h5py.Group was lost
+        if type_info[-1] == b'pickle' and isinstance(h_node,h5.Group):
+            raise ReferenceError(
+                "node '{}': '{}' type table entry invalid: no base_type".format(
+                    h_node.name,entry.name
+                )
+            )
         # return (py_obj_type,base_type). set is_container flag to true if 
         # h_node is h5py.Group object and false otherwise
         return (type_info[0],type_info[base_type_type],isinstance(h_node,h5.Group))
-- 
2.43.0


From 7c604e16c5c81ce56027821de7227643699dee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:14 +0000
Subject: [PATCH 35/54] fix: refuse list items which are missing instead of
 replacing them by empty tuple

---
 hickle/helpers.py               | 4 +++-
 hickle/loaders/load_builtins.py | 6 ++++++
 hickle/loaders/load_numpy.py    | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index b0f3e30..0fbe490 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -17,7 +17,9 @@ import functools as ft
 
 # %% EXCEPTION DEFINITIONS
 
-nobody_is_my_name = ()
+# marks items which have not been loaded. Must not be an object any dumped object
+# could be loaded as, such as the one and only empty tuple
+nobody_is_my_name = object()
 
 class NotHicklable(Exception):
     """
diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index e68d824..8410657 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -497,7 +497,13 @@ class ListLikeContainer(PyContainer):
             raise IndexError("Index {} already set".format(index))
         self._content[index] = item
         
+    def ensure_complete(self):
+        for index,item in enumerate(self._content):
+            if item is nobody_is_my_name:
+                raise ValueError("List like item {} missing".format(index))
+
     def convert(self):
+        self.ensure_complete()
         if self.object_type is self._content.__class__:
             return self._content
         # namedtuple classes expect their items as individual arguments
diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index ee3e33e..2ebd4af 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -328,6 +328,8 @@ class NDArrayLikeContainer(ListLikeContainer):
             super(NDArrayLikeContainer,self).append(name,item,h5_attrs)
     
     def convert(self):
+        if isinstance(self._content,list):
+            self.ensure_complete()
         data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
-- 
2.43.0


From 8d9d6f6d07745b8357037fece49e8339788df8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 36/54] fix: dump objects of classes defined in modules without
 spec, eg. __mp_main__ of spawned processes

---
 hickle/lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index bfbbb37..e02049c 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1285,7 +1285,11 @@ class LoaderManager(BaseManager):
                     if not package_file:
                         package_spec = getattr(sys.modules.get(package_list[0],None),'__spec__',None)
                         if package_spec is None:
-                            package_spec = find_spec(package_list[0])
+                            try:
+                                package_spec = find_spec(package_list[0])
+                            except ValueError:
+                                # module has no spec, eg. __mp_main__ of spawned process
+                                continue
                         if not getattr(package_spec,'has_location',False):
                             # can't resolve package or base module hosting mro_item
                             continue
-- 
2.43.0


From 211d3f6036876ba83cd474d0aa8180a24e77a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 37/54] fix: recover objects of lost classes which are members
 of sets or keys of dicts

---
 hickle/lookup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index e02049c..d94e12e 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -206,6 +206,9 @@ class RecoveredGroup(dict,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # recovered objects may be members of sets and keys of dicts
+    __hash__ = object.__hash__
+
     def __init__(self,*args,attrs={},**kwargs):
         super().__init__(*args,**kwargs)
         self.attrs={name:value for name,value in attrs.items() if name not in {'type'}}
@@ -218,6 +221,9 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
 
     __slots__ = ('attrs',)
 
+    # recovered objects may be members of sets and keys of dicts
+    __hash__ = object.__hash__
+
     def __new__(cls,input_array,dtype=None,attrs={}):
         array_copy = np.array(input_array,dtype=dtype)
         obj = super().__new__(
-- 
2.43.0


From 2d763589a01ec61640c6bf5525e638f5e6d75c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 38/54] fix: recover empty datasets of lost classes as empty
 array

---
 hickle/lookup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d94e12e..35d3016 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -225,6 +225,8 @@ class RecoveredDataset(np.ndarray,AttemptRecoverCustom):
     __hash__ = object.__hash__
 
     def __new__(cls,input_array,dtype=None,attrs={}):
+        if isinstance(input_array,h5.Empty):
+            input_array = np.empty(0,dtype=input_array.dtype)
         array_copy = np.array(input_array,dtype=dtype)
         obj = super().__new__(
             cls,
-- 
2.43.0


From 484c6e8fc418e219650ac77bf4d32d1beb13f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 39/54] fix: recover objects whose module can not be imported
 any more

---
 hickle/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 35d3016..5a801ba 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -775,7 +775,7 @@ class ReferenceManager(BaseManager, dict):
                 # set is_container_flag to True if h_node is h5py.Group type object and false
                 # otherwise
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
                 return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
@@ -821,7 +821,7 @@ class ReferenceManager(BaseManager, dict):
                     self._base_type_link[base_type_entry.id] = base_type
             try:
                 py_obj_type = self.pickle_loads(entry[()])
-            except (ModuleNotFoundError,AttributeError):
+            except (ImportError,AttributeError):
                 py_obj_type = AttemptRecoverCustom
                 entry_link = (py_obj_type,b'!recover!',base_type)
             else:
-- 
2.43.0


From 7e839b20cdd422fbadd8d56901baf40a99bca8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 40/54] fix: recover objects of lost classes from hickle 4.x
 files with their base_type loader

---
 hickle/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 5a801ba..d1037ca 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -777,7 +777,7 @@ class ReferenceManager(BaseManager, dict):
                 return self.pickle_loads(type_ref), h_node.attrs.get('base_type', b'pickle'), isinstance(h_node, h5.Group)
             except (ImportError,AttributeError):
                 # module missing or py_object_type not provided by module
-                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type == 2 else b'!recover!' ),isinstance(h_node,h5.Group)
+                return AttemptRecoverCustom,( h_node.attrs.get('base_type',b'pickle') if base_type_type != 1 else b'!recover!' ),isinstance(h_node,h5.Group)
             except (TypeError, pickle.UnpicklingError, EOFError):
                 raise ReferenceError(
                     "node '{}': '{}' attribute ('{}')invalid: not a pickle byte string".format(
-- 
2.43.0


From 6caa29b61576a9f86534525ce879f08b109edbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 41/54] fix: keep shape of object arrays holding recovered
 objects of lost classes

---
 hickle/loaders/load_numpy.py | 39 +++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index 2ebd4af..f7046c3 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -14,6 +14,7 @@ import types
 # hickle imports
 from hickle.loaders.load_builtins import create_listlike_dataset,ListLikeContainer
 from hickle.helpers import PyContainer,NotHicklable,no_compression
+from hickle.lookup import AttemptRecoverCustom
 
 
 # %% FUNCTION DEFINITIONS
@@ -101,6 +102,42 @@ def array_to_list(py_obj):
     return content
 
 
+def list_to_array(content,dtype):
+    """
+    converts (nested) list to array of strings or objects. Recovered items are
+    arrays or dicts now but have not been any of the dimensions of the array.
+
+    Parameters
+    ----------
+    content (list):
+        list to be converted
+
+    dtype (numpy.dtype):
+        dtype of resulting array
+
+    Returns
+    -------
+    resulting numpy.ndarray
+    """
+    has_recovered = False
+    def hide_recovered(item):
+        nonlocal has_recovered
+        if isinstance(item,AttemptRecoverCustom):
+            has_recovered = True
+            return None
+        return [ hide_recovered(sub_item) for sub_item in item ] if item.__class__ is list else item
+    hidden = hide_recovered(content)
+    if not has_recovered:
+        return np.array(content,dtype=dtype)
+    data = np.empty(np.array(hidden,dtype=dtype).shape,dtype=dtype)
+    for index in np.ndindex(data.shape):
+        item = content
+        for sub_index in index:
+            item = item[sub_index]
+        data[index] = item
+    return data
+
+
 def create_np_array_dataset(py_obj, h_group, name, **kwargs):
     """ dumps an ndarray object to h5py file
 
@@ -330,7 +367,7 @@ class NDArrayLikeContainer(ListLikeContainer):
     def convert(self):
         if isinstance(self._content,list):
             self.ensure_complete()
-        data = np.array(self._content,dtype = self._h5_attrs['np_dtype'])
+        data = list_to_array(self._content,np.dtype(self._h5_attrs['np_dtype']))
         return data if data.__class__ is self.object_type or isinstance(self.object_type,types.LambdaType) else self.object_type(data)
 
 class NDMaskedArrayContainer(PyContainer):
-- 
2.43.0


From 5b62ba2a9285c3d40b9cb74f5a52ee9ca2adb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:34 +0000
Subject: [PATCH 42/54] fix: restore empty tuple for items whose class is
 excluded, refuse missing items only

---
 hickle/helpers.py               | 10 +++++++---
 hickle/loaders/load_builtins.py | 10 ++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hickle/helpers.py b/hickle/helpers.py
index 0fbe490..e455152 100644
--- a/hickle/helpers.py
+++ b/hickle/helpers.py
@@ -17,9 +17,13 @@ import functools as ft
 
 # %% EXCEPTION DEFINITIONS
 
-# marks items which have not been loaded. Must not be an object any dumped object
-# could be loaded as, such as the one and only empty tuple
-nobody_is_my_name = object()
+class _Nobody(tuple):
+    """
+    type of nobody_is_my_name, which must not be the one and only empty tuple
+    any dumped object could be loaded as
+    """
+
+nobody_is_my_name = _Nobody()
 
 class NotHicklable(Exception):
     """
diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 8410657..f7831df 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -473,11 +473,13 @@ class ListLikeContainer(PyContainer):
 
     # as None can and may be a valid list entry define an alternative marker for
     # missing items and indices
+    missing_item = object()
+
     def __init__(self,h5_attrs,base_type,object_type):
         # if number of items is defined upon group resize content to
         # at least match this amount of subitems
         num_items = h5_attrs.get('num_items',0)
-        super(ListLikeContainer,self).__init__(h5_attrs,base_type,object_type,_content = [nobody_is_my_name] * num_items)
+        super(ListLikeContainer,self).__init__(h5_attrs,base_type,object_type,_content = [self.missing_item] * num_items)
 
     def append(self,name,item,h5_attrs):
         # load item index from attributes if known else extract it from name 
@@ -492,14 +494,14 @@ class ListLikeContainer(PyContainer):
             index = int(index_match.group(0))
         # if index exceeds capacity of extend list appropriately
         if len(self._content) <= index:
-            self._content.extend([nobody_is_my_name] * ( index - len(self._content) + 1 ))
-        if self._content[index] is not nobody_is_my_name:
+            self._content.extend([self.missing_item] * ( index - len(self._content) + 1 ))
+        if self._content[index] is not self.missing_item:
             raise IndexError("Index {} already set".format(index))
         self._content[index] = item
         
     def ensure_complete(self):
         for index,item in enumerate(self._content):
-            if item is nobody_is_my_name:
+            if item is self.missing_item:
                 raise ValueError("List like item {} missing".format(index))
 
     def convert(self):
-- 
2.43.0


From 1c948629d37f0ab0afef17c4cc6ff0d4db5f4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:20 +0000
Subject: [PATCH 43/54] fix: accept base types given as str by register_class
 and register_class_exclude as documented

---
 hickle/lookup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index d1037ca..6dc722a 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -989,6 +989,8 @@ class LoaderManager(BaseManager):
             file to be recognized as valid option
         """
     
+        if isinstance(hkl_str,str):
+            hkl_str = hkl_str.encode('ascii')
         if (
             myclass_type is object or
             isinstance(
@@ -1062,6 +1064,8 @@ class LoaderManager(BaseManager):
             recognized as valid option
         """
     
+        if isinstance(hkl_str_to_ignore,str):
+            hkl_str_to_ignore = hkl_str_to_ignore.encode('ascii')
         if hkl_str_to_ignore[:1] == hkl_str_to_ignore[-1:] == b'!' or hkl_str_to_ignore in disallowed_to_ignore:
             raise ValueError(
                 "excluding '{}' base_type managed by hickle core not possible".format(
-- 
2.43.0


From b89c7f9bb24239065447298e841a5df2c191c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:20 +0000
Subject: [PATCH 44/54] fix: refuse to shadow base types managed by hickle core
 which are registered for hickle 4.x files only

---
 hickle/lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 6dc722a..58f62f2 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1017,7 +1017,10 @@ class LoaderManager(BaseManager):
                     )
                 )
         if ( 
-            ( cls.__hkl_functions__[None].get(hkl_str) or cls.__hkl_container__[None].get(hkl_str) ) and
+            any(
+                hkl_str in loaders
+                for loaders in ( *cls.__hkl_functions__.values(), *cls.__hkl_container__.values() )
+            ) and
             ( hkl_str[:1] == hkl_str[-1:] == b'!' or hkl_str in disallow_in_option )
         ):
             raise ValueError(
@@ -1437,7 +1440,7 @@ disallowed_to_ignore = {b'dict_item', b'pickle' }
 
 # list of below hkl_types which may not be redefined by optional loader
 # NOTE: types which are enclosed in !! pair are disallowed in any case
-disallow_in_option = {b'pickle'}
+disallow_in_option = {b'dict_item', b'pickle'}
 
 class NoContainer(PyContainer): # pragma: no cover
     """
-- 
2.43.0


From fee1e87aaaf6fd52c176d92ff9a0acbd1c288884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:04 +0000
Subject: [PATCH 45/54] fix: load objects dumped by loader of a base class
 after their class got a loader of its own

---
 hickle/lookup.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 58f62f2..95b09cc 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1190,14 +1190,22 @@ class LoaderManager(BaseManager):
     
         types_dict = self.types_dict
         loaded_loaders = self.__class__.__loaded_loaders__
+        # loader found for py_obj_type while the module defining loader for base_type is not
+        # loaded yet as data was dumped by loader of one of the base classes of py_obj_type
+        fallback = None
+
+        def is_complete():
+            return base_type is None or base_type in self.hkl_types_dict or base_type in self.hkl_container_dict
+
         # loop over the entire mro_list of py_obj_type
         for mro_item in self._mro(py_obj_type):
 
             # Check if mro_item is already listed in types_dict and return if found 
             with self.__class__.__register_lock__:
                 loader_item = types_dict.get(mro_item,None)
-            if loader_item is not None:
-                return py_obj_type,loader_item
+            fallback = fallback or loader_item
+            if fallback is not None and is_complete():
+                return py_obj_type,fallback
     
             # Obtain the package name of mro_item
             package_list = mro_item.__module__.split('.',2)
@@ -1281,9 +1289,9 @@ class LoaderManager(BaseManager):
                 if loader_name in loaded_loaders:
                     # loader is loaded but does not define loader for mro_item
                     # check next base class unless loaded by other thread just now
-                    loader_item = types_dict.get(mro_item,None)
-                    if loader_item is not None:
-                        return py_obj_type,loader_item
+                    fallback = fallback or types_dict.get(mro_item,None)
+                    if fallback is not None and is_complete():
+                        return py_obj_type,fallback
                     continue
     
             # check if loader module has already been loaded. If use that instead
@@ -1345,14 +1353,17 @@ class LoaderManager(BaseManager):
                     loaded_loaders.add(loader_name)
     
             # check if loader module defines a loader for base_class mro_item
-            loader_item = types_dict.get(mro_item,None)
-            if loader_item is None:
-                # the new loader does not define loader for mro_item
+            fallback = fallback or types_dict.get(mro_item,None)
+            if fallback is None or not is_complete():
+                # the new loader does not define loader for mro_item or base_type
                 # check next base class
                 continue
 
             # return loader for base_class mro_item
-            return py_obj_type,loader_item
+            return py_obj_type,fallback
+
+        if fallback is not None:
+            return py_obj_type,fallback
     
         # no appropriate loader found. Lower py_object_type to object and
         # return fallback to pickle
-- 
2.43.0


From aadf47030617b5291c46b5db33690265a21732cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:04 +0000
Subject: [PATCH 46/54] fix: keep explicitly registered loaders when loader
 module is loaded later on

---
 hickle/lookup.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index 95b09cc..c328579 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1346,8 +1346,18 @@ class LoaderManager(BaseManager):
             # load all loaders defined by loader module
             with self.__class__.__register_lock__:
                 if loader_name not in loaded_loaders:
+                    # loaders which have been registered before by explicitly calling
+                    # register_class are kept
+                    tables = [
+                        table for registry in (
+                            self.__class__.__py_types__,self.__class__.__hkl_functions__,self.__class__.__hkl_container__
+                        ) for table in registry.values()
+                    ]
+                    registered = [ dict(table) for table in tables ]
                     for next_loader in loader.class_register:
                         self.register_class(*next_loader)
+                    for table,explicit in zip(tables,registered):
+                        table.update(explicit)
                     for drop_loader in ( loader if isinstance(loader,(list,tuple)) else (loader,None) for loader in loader.exclude_register) :
                         self.register_class_exclude(*drop_loader)
                     loaded_loaders.add(loader_name)
-- 
2.43.0


From 87871474abd63f20d2c372e9bc79c76a7ad89018 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 47/54] fix: load hickle 3.x files through groups and file-like
 objects

---
 hickle/hickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hickle/hickle.py b/hickle/hickle.py
index 56d207f..3b02824 100644
--- a/hickle/hickle.py
+++ b/hickle/hickle.py
@@ -393,7 +393,7 @@ def load(file_obj, path='/', safe=True, filename = None):
             from hickle import legacy_v3
             warnings.warn("Input argument 'file_obj' appears to be a file made"
                           " with hickle v3. Using legacy load...")
-            return(legacy_v3.load(file_obj, path, safe))
+            return(legacy_v3.load(h5f, path, safe))
 
         # Else, check if the proper attributes for v4 loading are available
         if all(map(h_root_group.attrs.get, v4_attrs)):
-- 
2.43.0


From de18e1251d5459b01542c510f0003b7474e1cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 48/54] fix: str objects and lists of bytes in hickle 3.x files

---
 hickle/legacy_v3/loaders/load_python3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hickle/legacy_v3/loaders/load_python3.py b/hickle/legacy_v3/loaders/load_python3.py
index 9ec82bc..cb14649 100644
--- a/hickle/legacy_v3/loaders/load_python3.py
+++ b/hickle/legacy_v3/loaders/load_python3.py
@@ -121,8 +121,8 @@ def load_list_dataset(h_node):
     py3_str_type = get_py3_string_type(h_node)
 
     if py3_str_type == b"<class 'bytes'>":
-        # Yuck. Convert numpy._bytes -> str -> bytes
-        return [bytes(str(item, 'utf8'), 'utf8') for item in data]
+        # Convert numpy._bytes -> bytes
+        return [bytes(item) for item in data]
     if py3_str_type == b"<class 'str'>":
         return [str(item, 'utf8') for item in data]
     else:
@@ -142,7 +142,8 @@ def load_bytes_dataset(h_node):
 
 def load_string_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-    return str(data[0])
+    # h5py >= 3.x returns strings as bytes
+    return data[0].decode('utf8') if isinstance(data[0],bytes) else str(data[0])
 
 def load_unicode_dataset(h_node):
     py_type, data = get_type_and_data(h_node)
-- 
2.43.0


From edf534a02d0f3341c753ee4b66908022ab8688b4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 49/54] fix: False and non ASCII dict keys in hickle 3.x files

---
 hickle/legacy_v3/helpers.py | 2 +-
 hickle/legacy_v3/lookup.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index b7e0034..dac7987 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -32,7 +32,7 @@ def sort_keys(key_list):
         key_list2 = []
         for key in key_list:
             if isinstance(key, str):
-                key = bytes(key, 'ascii')
+                key = bytes(key, 'utf8')
             key_list2.append(key)
         key_list = key_list2
 
diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 6ed0d6c..3340230 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -94,13 +94,13 @@ container_types_dict = {
 container_key_types_dict = {
     b"<type 'str'>": literal_eval,
     b"<type 'float'>": float,
-    b"<type 'bool'>": bool,
+    b"<type 'bool'>": 'True'.__eq__,
     b"<type 'int'>": int,
     b"<type 'complex'>": complex,
     b"<type 'tuple'>": literal_eval,
     b"<class 'str'>": literal_eval,
     b"<class 'float'>": float,
-    b"<class 'bool'>": bool,
+    b"<class 'bool'>": 'True'.__eq__,
     b"<class 'int'>": int,
     b"<class 'complex'>": complex,
     b"<class 'tuple'>": literal_eval
-- 
2.43.0


From 62326c63a110c4d9c16bf9b2795a4551baf127a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 50/54] fix: masks of masked arrays are no items of lists in
 hickle 3.x files

---
 hickle/legacy_v3/helpers.py            | 3 +++
 hickle/legacy_v3/hickle.py             | 5 ++++-
 hickle/legacy_v3/loaders/load_numpy.py | 5 +----
 hickle/legacy_v3/lookup.py             | 5 ++---
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/hickle/legacy_v3/helpers.py b/hickle/legacy_v3/helpers.py
index dac7987..06f6e2d 100644
--- a/hickle/legacy_v3/helpers.py
+++ b/hickle/legacy_v3/helpers.py
@@ -11,6 +11,9 @@ def get_type_and_data(h_node):
 #        data  = h_node[:]
     return py_type, data
 
+def load_nothing(h_hode):
+    pass
+
 def get_type(h_node):
     """ Helper function to return the py_type for a HDF node """
     py_type = h_node.attrs["type"][0]
diff --git a/hickle/legacy_v3/hickle.py b/hickle/legacy_v3/hickle.py
index 1653682..eedafdf 100644
--- a/hickle/legacy_v3/hickle.py
+++ b/hickle/legacy_v3/hickle.py
@@ -41,7 +41,7 @@ import h5py as h5
 from .__version__ import __version__
 from .helpers import get_type, sort_keys, check_is_iterable, check_iterable_item_type
 from .lookup import (types_dict, hkl_types_dict, types_not_to_sort,
-    container_types_dict, container_key_types_dict, check_is_ndarray_like)
+    container_types_dict, container_key_types_dict, check_is_ndarray_like, load_nothing)
 
 try:
     from exceptions import Exception
@@ -606,6 +606,9 @@ def _load(py_container, h_group):
 
     else:
         # must be a dataset
+        if load_dataset_lookup(get_type(h_group)) is load_nothing:
+            # loaded along with another dataset, e.g. mask of masked array
+            return py_container
         subdata = load_dataset(h_group)
         py_container.append(subdata)
 
diff --git a/hickle/legacy_v3/loaders/load_numpy.py b/hickle/legacy_v3/loaders/load_numpy.py
index d17044b..24d7042 100644
--- a/hickle/legacy_v3/loaders/load_numpy.py
+++ b/hickle/legacy_v3/loaders/load_numpy.py
@@ -9,7 +9,7 @@ import six
 import numpy as np
 
 
-from ..helpers import get_type_and_data
+from ..helpers import get_type_and_data, load_nothing
 
 
 def check_is_numpy_array(py_obj):
@@ -130,9 +130,6 @@ def load_ndarray_masked_dataset(h_node):
     data = np.ma.array(data, mask=mask)
     return data
 
-def load_nothing(h_hode):
-    pass
-
 hkl_types_dict = {
     b"np_dtype"            : load_np_dtype_dataset,
     b"np_scalar"           : load_np_scalar_dataset,
diff --git a/hickle/legacy_v3/lookup.py b/hickle/legacy_v3/lookup.py
index 3340230..d41e803 100644
--- a/hickle/legacy_v3/lookup.py
+++ b/hickle/legacy_v3/lookup.py
@@ -65,13 +65,12 @@ The process to add new load/dump capabilities is as follows:
 import six
 from ast import literal_eval
 
+from .helpers import load_nothing
+
 def return_first(x):
     """ Return first element of a list """
     return x[0]
 
-def load_nothing(h_hode):
-    pass
-
 types_dict = {}
 
 hkl_types_dict = {}
-- 
2.43.0


From c981c181c699975a61a31f9cdbc90efb087631c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 51/54] fix: lists of short and non ASCII strings in hickle 4.x
 files

---
 hickle/loaders/load_builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index f7831df..69d236a 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -421,10 +421,10 @@ def load_list_dataset(h_node,base_type,py_obj_type):
     if str_type in (b'str','str'):
 
         # decode bytes representing python string before final conversion
-        if h_node.dtype.itemsize > 1 and 'bytes' in h_node.dtype.name:
+        if 'bytes' in h_node.dtype.name and base_type not in (b'str','str'):
 
-            # string dataset 4.0.x style convert it back to python string
-            content = np.asarray(content, dtype=str).tolist()
+            # list of strings 4.0.x style convert them back to python strings
+            content = [ string.decode("utf8") for string in content ]
         else:
 
             # decode bytes representing python string before final conversion
-- 
2.43.0


From 6cbe39ec8c91c138f6fdf385cc0474b7ee816d67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 52/54] fix: arrays of single characters in hickle 4.x files

---
 hickle/loaders/load_numpy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hickle/loaders/load_numpy.py b/hickle/loaders/load_numpy.py
index f7046c3..3d25f61 100644
--- a/hickle/loaders/load_numpy.py
+++ b/hickle/loaders/load_numpy.py
@@ -302,10 +302,13 @@ def load_ndarray_dataset(h_node,base_type,py_obj_type):
         return np.empty(0,dtype=dtype)
     if "str" in dtype.name:
         string_data = h_node[()]
-        if h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name:
+        if (
+            'base_type' not in h_node.attrs and
+            ( h_node.dtype.itemsize <= 1 or 'bytes' not in h_node.dtype.name )
+        ):
             # in hickle 4.0.X numpy.ndarrays containing multiple strings are 
-            # not converted to list of string but saved as ar consequently
-            # itemsize of dtype is > 1
+            # not converted to list of string but saved as ar, hickle 4.0.X nodes
+            # have a base_type attribute of their own
             string_data = bytes(string_data).decode("utf8")
         return np.asarray(string_data,dtype=dtype)
     if issubclass(py_obj_type,np.matrix):
-- 
2.43.0


From 275279a5aecc18fcc24dce9fcbd9883b8c9df6fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 53/54] fix: dict keys containing slashes, quotes or escapes
 and bytes keys in hickle 4.x files

---
 hickle/loaders/load_builtins.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hickle/loaders/load_builtins.py b/hickle/loaders/load_builtins.py
index 69d236a..d102e53 100644
--- a/hickle/loaders/load_builtins.py
+++ b/hickle/loaders/load_builtins.py
@@ -13,6 +13,7 @@ hickle.
 # Built-in imports
 import warnings
 import re
+from ast import literal_eval
 import operator
 import collections
 
@@ -535,18 +536,21 @@ class DictLikeContainer(PyContainer):
     __slots__ = ()
 
     
-    _swap_key_slashes = re.compile(r"\\")
+    # hickle 4.x replaces any slash by two backslashes
+    _swap_key_slashes = re.compile(r"\\\\")
 
     def append(self,name,item,h5_attrs):
         key_base_type = h5_attrs.get('key_base_type',b'')
+        # name of hickle 4.x dict_item is representation of key
+        is_repr = h5_attrs.get('base_type',b'') in ( b'dict_item','dict_item')
         if key_base_type in ( b'str','str'):
             item = (
-                name[1:-1] if name[0] == '"' else self._swap_key_slashes.sub(r'/',name)[1:-1],
+                name[1:-1] if not is_repr else literal_eval(self._swap_key_slashes.sub(r'/',name)),
                 item
             )
         elif key_base_type in (b'bytes','bytes'):
             item = (
-                name[2:-1].encode("utf8") if name[:2] == 'b"' else self._swap_key_slashes.sub(r'/',name)[1:-1],
+                name[2:-1].encode("utf8") if not is_repr else literal_eval(self._swap_key_slashes.sub(r'/',name)),
                 item
             )
         elif not key_base_type in (b'key_value','key_value'):
@@ -554,8 +558,7 @@ class DictLikeContainer(PyContainer):
             if load_key is None:
                 if key_base_type not in {b'tuple','tuple'}:
                     raise ValueError("key type '{}' not understood".format(key_base_type.decode("utf8")))
-                import ast
-                load_key = ast.literal_eval
+                load_key = literal_eval
             item = (
                 load_key(self._swap_key_slashes.sub(r'/',name)),
                 item
-- 
2.43.0


From 23f7b112562dcd2bb962b6b90dcbbd82a055c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:32 +0000
Subject: [PATCH 54/54] fix: load numpy object arrays of hickle 4.x files also
 as first numpy object

The type stored with them is the lambda replaced by
_moc_numpy_array_object_lambda. The numpy loaders required were not loaded
for it, in consequence a recovered group was returned unless any other
numpy object was dumped or loaded before.
---
 hickle/lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hickle/lookup.py b/hickle/lookup.py
index c328579..cad8b6c 100644
--- a/hickle/lookup.py
+++ b/hickle/lookup.py
@@ -1209,6 +1209,9 @@ class LoaderManager(BaseManager):
     
             # Obtain the package name of mro_item
             package_list = mro_item.__module__.split('.',2)
+            if mro_item is _moc_numpy_array_object_lambda and not is_complete():
+                # stored by hickle 4.x as type of numpy arrays of objects
+                package_list = ['numpy']
     
             package_file = None 
             if package_list[0] == 'hickle':
-- 
2.43.0

