#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    m = dict(input="inputs", history="histories", configuration="configurations", fault="fault_sequences", schedule="schedules", crash="crash_points")
    d["quantifier"]["over"] = [m[o] for o in over]
    if state: d["anchors"]["state"] = [dict(name=x.split(":")[0], meaning=x) for x in state]
    if observe: d["anchors"]["observe_at"] = [observe]
    P.append(d)

RT = "hickle.dump followed by hickle.load on the same target"
prop("P01", "Scalars and text come back unchanged",
 "Every None, bool, int (any magnitude), float (including infinities, NaN and signed zero), complex, str (any encodable Unicode text, including empty and NUL characters) and bytes object that is dumped is loaded with the same type and the same value, both on its own and as a member of any nesting of containers. The only permitted difference: numbers that are direct members of a collection holding nothing but numbers may come back as NumPy scalars of the collection's common numeric kind (bool < int < float < complex) with exactly the same numeric value.",
 ["input"], "all scalar, str and bytes values, all positions inside containers",
 "Tests sample a few literals; the value space (64 bit boundary, mixed int/float collections, one byte strings, NUL, non-BMP text) is unbounded.",
 ["hickle/loaders/load_builtins.py", "hickle/hickle.py"],
 [("scalar and string writers", "load_builtins.create_scalar_dataset, create_listlike_dataset, create_none_dataset"), ("scalar and string readers", "load_builtins.load_scalar_dataset, load_list_dataset"), ("common dtype selection", "load_builtins.check_iterable_item_type")],
 observe=RT)
prop("P02", "Lists, tuples and sets keep type, length, order and members",
 "Any nesting of list, tuple and set objects (and subclasses of them, namedtuples included) that is dumped is loaded with the same container type at every level, the same number of members, the same order for sequences, and members equal to the original ones. This holds for empty containers, for any mix of member types and for any nesting depth up to the interpreter's recursion limit.",
 ["input"], "all finite nestings of list, tuple, set with arbitrary supported members",
 "The choice between a compact array and one node per member depends on all members of each level; combinations are unbounded.",
 ["hickle/loaders/load_builtins.py", "hickle/hickle.py"],
 [("list writer", "load_builtins.create_listlike_dataset"), ("set writer", "load_builtins.create_setlike_dataset"), ("member ordering on load", "load_builtins.ListLikeContainer.append/convert, SetLikeContainer"), ("recursion", "hickle._dump, hickle._load")],
 observe=RT)
prop("P03", "Dicts keep keys, key types, insertion order and values",
 "Every dict (and OrderedDict, Counter, defaultdict or other dict subclass that can be built from a mapping) that is dumped is loaded with the same class, exactly the same keys (equal in value and type; numbers inside composite keys may become NumPy scalars of equal value), in the same insertion order, each mapped to an equal value. Keys may be any hashable supported object: text and bytes with slashes, backslashes, quotes, dots, NUL or arbitrary Unicode, numbers, bool, None, tuples and instances of other classes, and no two different keys are ever merged or exchanged.",
 ["input"], "all dicts over all hashable key types, any size and nesting",
 "Keys are turned into HDF5 link names or key/value pairs depending on their text; tests sample a handful of keys per type.",
 ["hickle/loaders/load_builtins.py"],
 [("key naming", "load_builtins.create_dictlike_dataset"), ("key recovery and ordering", "load_builtins.DictLikeContainer.append/convert"), ("key type table", "load_builtins.dict_key_types_dict")],
 observe=RT)
prop("P04", "Shared objects stay shared, distinct objects stay distinct",
 "If one list, tuple, dict, set, array or other compound object is reachable from the dumped object along several routes through supported containers (without cycles), the loaded structure has exactly one object at all the corresponding places. Two different objects, even equal ones, are never merged into one, and every reference leads to the object it led to before, independent of the order in which the routes are visited.",
 ["input"], "all acyclic object graphs over the supported compound types",
 "Depends on the identity structure of the whole graph and on lifetimes of temporaries created while dumping; tests check a few fixed graphs.",
 ["hickle/hickle.py", "hickle/lookup.py"],
 [("dump side memo", "hickle._dump memo[id(obj)]"), ("reference nodes", "lookup.ExpandReferenceContainer, NodeReference"), ("load side memo", "hickle._load memo[h_node.id]")],
 state=["ReferenceManager dict: id(py_obj) -> node, node id -> object"], observe=RT)
prop("P05", "NumPy arrays, scalars and dtypes come back exactly",
 "Every NumPy array of bool, integer, float, complex, fixed width bytes or Unicode, structured or object dtype, of any shape (zero-dimensional, empty and multi-dimensional included), any byte order and any memory layout, is loaded with equal dtype, equal shape and equal elements; masked arrays keep data and mask, matrix objects stay matrix objects, NumPy scalars keep their type and value, and dtype objects are equal to the dumped ones.",
 ["input"], "all arrays/scalars/dtypes of the listed kinds",
 "dtype x byte order x shape x layout x content is combinatorial; tests cover a few native arrays.",
 ["hickle/loaders/load_numpy.py"],
 [("array writer", "load_numpy.create_np_array_dataset"), ("array reader", "load_numpy.load_ndarray_dataset, NDArrayLikeContainer"), ("masked arrays", "create_np_masked_array_dataset, NDMaskedArrayContainer"), ("scalars and dtypes", "create_np_scalar_dataset, create_np_dtype and their loaders")],
 observe=RT)
prop("P06", "SciPy sparse matrices come back exactly",
 "Every csr, csc and bsr matrix is loaded as the same matrix class with the same shape (trailing empty rows and columns included), the same element dtype, the same index structure and the same stored values, for any shape, block size, number of stored entries (none included) and dtype; this also holds for explicitly stored zeros, duplicate or unsorted entries and for sparse matrices nested in or shared by other containers.",
 ["input"], "all csr/csc/bsr matrices",
 "Shape cannot be inferred from indices in general; tests use one dense 3x3 pattern.",
 ["hickle/loaders/load_scipy.py"],
 [("writer", "load_scipy.create_sparse_dataset"), ("reader", "load_scipy.SparseMatrixContainer")],
 observe=RT)
prop("P07", "Astropy objects keep values, units and metadata",
 "Real valued Quantities (scalar or array) and Angles, Latitudes and Longitudes with default wrapping keep class, value and unit; Times given as floating point numbers (scalar or array) or as text keep value (wherever astropy reproduces it from itself), format and scale; ICRS SkyCoords without distance keep their coordinates for any shape; Constants keep value, unit, name, abbreviation, reference, uncertainty and system; Tables with numeric, bool or bytes columns and ASCII column names keep column names, order, dtypes (up to byte order), rows and scalar metadata.",
 ["input"], "all astropy objects of the listed classes within the listed value domains",
 "Units, formats, scales, shapes and metadata combine freely; tests fix one instance per class.",
 ["hickle/loaders/load_astropy.py"],
 [("writers", "load_astropy.create_astropy_*"), ("readers", "load_astropy.load_astropy_*")],
 observe=RT)
prop("P08", "Objects of any other class survive through the pickle fallback",
 "Any picklable object whose class has no dedicated support (user classes, stdlib objects such as datetime, Decimal, frozenset, range, functions, classes, pandas objects), at top level or anywhere inside supported containers, is stored with a serialization warning and loaded as an object of the same class with equal state. If an object cannot be stored, dump raises an exception and never reports success for it.",
 ["input"], "all picklable objects of unsupported classes at any position",
 "The set of user classes is open ended.",
 ["hickle/lookup.py", "hickle/hickle.py"],
 [("fallback selection", "lookup.LoaderManager.load_loader"), ("pickle writer/reader", "lookup.create_pickled_dataset, load_pickled_data"), ("NotHicklable", "hickle._dump except NotHicklable")],
 observe=RT)
prop("P09", "Lossless storage options never change what is loaded",
 "For every supported object and every combination of lossless dataset options (gzip or lzf compression with any level, shuffle, fletcher32, automatic chunking), dumping with the options succeeds whenever dumping without them succeeds, and the loaded object is the same as the one obtained without the options.",
 ["input", "configuration"], "all objects x all combinations of lossless options",
 "The suite runs once without and once with one gzip setting; scalars, empty and zero-dimensional data under other options are not covered.",
 ["hickle/helpers.py", "hickle/loaders", "hickle/lookup.py"],
 [("option filtering", "helpers.no_compression"), ("option forwarding", "hickle.dump **kwargs -> create_dataset of every loader")],
 observe=RT)
prop("P10", "Objects stored at different paths of one file are independent",
 "Several objects dumped to different paths of one file (nested groups included, but not paths inside the groups hickle itself creates), in any order and through any mix of file names and open handles, are each loaded unchanged. A dump to a path that already holds data raises an exception and leaves every stored object, at that path and elsewhere, loadable and unchanged; loading a path never dumped to raises an exception.",
 ["history"], "all histories of dumps and loads over several paths of one file",
 "Needs all interleavings of paths, handles and repeated dumps, including shared type information and refusals.",
 ["hickle/hickle.py", "hickle/lookup.py", "hickle/fileio.py"],
 [("path resolution", "fileio.file_opener"), ("occupied path check", "hickle.dump root group lookup"), ("per root type table", "lookup.ReferenceManager.__init__/store_type")],
 state=["HDF5 tree of the file"], observe="return/exception of dump and load; tree of the file")
prop("P11", "Every way to name the target is equivalent",
 "Dumping to and loading from a file name, a pathlib.Path, an open HDF5 file or group (with relative paths resolved below that group), an open binary file, an in-memory file, a (file, name) tuple or a {'file','name'} dict give the same result for the same object, and what was written through one kind of target can be read through any other. A closed, unreadable or (for dump) unwritable target is refused with an exception.",
 ["input", "configuration"], "all pairs of writing and reading target kinds, all paths, all objects",
 "Tests cover each kind alone with one object.",
 ["hickle/fileio.py", "hickle/hickle.py"],
 [("target dispatch", "fileio.file_opener")], observe="return/exception of dump and load")
prop("P12", "Handles given by the caller stay open, hickle's own are closed",
 "After dump or load returns or raises, an HDF5 file, group or file object supplied by the caller is still open and usable, with everything written visible through it. A file that hickle opened itself is closed whatever the outcome, so that it can immediately be opened for writing, replaced or deleted.",
 ["history", "fault"], "all outcomes (success, any failure) of dump and load for all target kinds",
 "Needs failures at every stage combined with every kind of target.",
 ["hickle/hickle.py", "hickle/fileio.py"],
 [("close flag", "fileio.file_opener"), ("finally blocks", "hickle.dump, hickle.load")],
 state=["open HDF5 file ids of the process"], observe="h5py handles after the call; reopening the file for writing")
prop("P13", "Open modes do what they say",
 "For a file name, mode 'w' (also 'w+', with or without 'b') leaves exactly the newly dumped object, 'x' creates a new file and refuses an existing one without touching it, 'a' and 'r+' add to the existing content and keep everything stored before ('r+' refuses a missing file without creating it), and 'r' never allows a dump. No refused dump creates, truncates or changes a file.",
 ["history", "configuration"], "all histories of dumps with all modes over existing, missing and foreign files",
 "Tests exercise single calls; loss of earlier content shows only in multi-step histories.",
 ["hickle/fileio.py", "hickle/hickle.py"],
 [("mode handling", "fileio.file_opener"), ("default mode", "hickle.dump mode='w'")],
 state=["file contents"], observe="return/exception of dump; content of all paths afterwards")
prop("P14", "Loading changes nothing and is repeatable; dumping leaves the object alone",
 "load never changes the file it reads (also when given a handle opened for writing), creates no other files, and returns an equal, independent object each time it is called; modifying a loaded object never affects the file or later loads. dump never modifies the dumped object or the option and keyword arguments passed to it.",
 ["history", "input"], "all objects, all repetitions of load, all target kinds, all supported file generations",
 "Tests compare values only, never file bytes, directory contents or aliasing between loads.",
 ["hickle/hickle.py", "hickle/lookup.py", "hickle/fileio.py"],
 [("read mode", "hickle.load file_opener(...,'r')"), ("overlay types table", "lookup.ReferenceManager.__init__")],
 observe="file bytes/tree, directory listing, dumped object before/after")
prop("P15", "An incomplete dump is never mistaken for a complete one",
 "If dump fails or is interrupted at any point (an object that cannot be stored, an I/O error, an interrupt, the process dying), it raises, and a later load of that path either raises or returns the complete object, never a partial, truncated or altered one. After a failed or interrupted dump, objects stored earlier under other paths of the same file through an open or appended file are still loaded unchanged; only if the process died or the disk refused to write HDF5's data they may instead be refused, but are never loaded altered.",
 ["fault", "crash", "history"], "all objects, every point of the dump at which a failure can occur, all kinds of failure",
 "Needs fault injection at every step of the dump.",
 ["hickle/hickle.py", "hickle/lookup.py"],
 [("completion mark", "hickle.dump HICKLE_VERSION attributes"), ("acceptance test", "hickle.load attribute check")],
 state=["HDF5 tree after a prefix of the dump's steps"], observe="load after injected failure")
prop("P16", "Results do not depend on what the process did before",
 "The outcome of any dump or load (stored data, loaded object, exception) is the same in a fresh process as after any sequence of earlier dumps, loads, failures and interruptions on the same or other files, and independent of which supported packages were used earlier. After every call, successful or not, the same file can be used again at once and the interpreter's garbage collector setting is as before.",
 ["history", "fault"], "all histories of calls within one process, including failing ones",
 "Process wide registries and per file managers make results history dependent; tests run in one fixed order.",
 ["hickle/lookup.py", "hickle/hickle.py"],
 [("per file managers", "lookup.BaseManager.create_manager/_drop_manager"), ("loader registries", "lookup.LoaderManager.__py_types__, __hkl_functions__, __loaded_loaders__"), ("gc toggling", "hickle.dump/load finally")],
 state=["LoaderManager.__managers__, ReferenceManager.__managers__, loader registries"], observe="outcome of each call in a history")
prop("P17", "Custom loaders apply exactly when requested",
 "A loader registered under an option is used for dumping instances of its class (and of subclasses without a loader of their own) exactly when that option is switched on for the dump; otherwise the instances are stored as if it was not registered. A file dumped with the option is loaded through the same loader without repeating the option, loaders registered without option always apply, unknown options are refused, and the loaders for hickle's own internal kinds of data cannot be replaced or excluded.",
 ["history", "configuration"], "all registrations, option settings and class hierarchies, all orders of registration and use",
 "Tests check registration functions in isolation, not end to end over histories of registration, dump and load.",
 ["hickle/lookup.py", "hickle/loaders/__init__.py", "hickle/hickle.py"],
 [("registration", "lookup.LoaderManager.register_class/register_class_exclude"), ("option storage", "lookup.LoaderManager.__init__"), ("loader search", "lookup.LoaderManager.load_loader")],
 state=["LoaderManager registries", "OPTION_* attributes of the root group"], observe="which callbacks ran; loaded object")
prop("P18", "Data of unavailable classes is recovered, not lost",
 "If a class, its module or its loader is not available when a file is loaded, load still succeeds with a warning: the affected part is returned as a recovered group or dataset object that carries the stored content and attributes together with the original kind of the data, and every other part of the structure is returned unchanged. Objects stored through the pickle fallback whose class is missing come back as recovered raw data.",
 ["input", "configuration"], "all structures containing objects of classes, modules or loaders that disappeared",
 "Tests recover one object per kind at one position.",
 ["hickle/lookup.py", "hickle/hickle.py"],
 [("missing type", "lookup.ReferenceManager.resolve_type"), ("recovery", "lookup.recover_custom_dataset, RecoverGroupContainer, load_pickled_data, RecoveredGroup, RecoveredDataset")],
 observe="load in a process where the class is missing")
prop("P19", "Files written by hickle 3.x and 4.x still load correctly",
 "Files in the formats of hickle 3.x and 4.x holding scalars, text, lists, tuples, sets, dicts with all supported key kinds, NumPy arrays, masked arrays, sparse matrices and arbitrary nestings of them are loaded with the values that were stored. They load through file names and open HDF5 handles alike.",
 ["input"], "all object structures representable in the 3.x and 4.x layouts",
 "The suite loads two fixed files and does not compare the contents of either.",
 ["hickle/hickle.py", "hickle/lookup.py", "hickle/loaders", "hickle/legacy_v3"],
 [("generation detection", "hickle.load attribute tests"), ("4.x layout", "lookup.ReferenceManager.resolve_type, fix_lambda_obj_type, type_legacy_mro, _DictItemContainer, load_hickle_4_x_string, load_ndarray_masked_dataset"), ("3.x layout", "legacy_v3.load")],
 observe="hickle.load on files in the old layouts")
prop("P20", "Files that are not valid hickle files are refused",
 "load raises an exception, and never returns an object, for a target that is not HDF5 (random, empty or truncated files), for HDF5 content not written by hickle, for a path that does not exist or is not a hickle root, and for a hickle file from which the version marks, the stored data, the type information of any node, the key information of a dict entry, an item of a list or tuple, a dict entry other than the last one, or the target of a shared reference was removed. The refusal is a ValueError for every file that can be opened.",
 ["input", "fault"], "all files/paths, all removals of a required piece from any hickle file",
 "Tests try a few malformed files.",
 ["hickle/hickle.py", "hickle/lookup.py", "hickle/loaders/load_builtins.py"],
 [("acceptance test", "hickle.load"), ("dangling references", "lookup.ReferenceManager.resolve_type, ExpandReferenceContainer.filter"), ("dict entries", "load_builtins.DictLikeContainer.append")],
 observe="hickle.load on damaged files")
prop("P21", "The 5.x file layout is stable in both directions",
 "Files follow the layout of hickle 5: any file laid out accordingly by another 5.x writer (objects as groups and datasets with type references into a type table, member indices, key names and key attributes, object references for shared objects, option and version attributes) is loaded as the object it describes, independent of the order in which links and type entries were created. Conversely every file dump writes can be decoded by a reader that knows only that layout.",
 ["input", "configuration"], "all object graphs over the built-in and NumPy types, all layouts the format allows for them",
 "Round trip tests cannot see a change made symmetrically in writer and reader, which makes existing files unreadable.",
 ["hickle/hickle.py", "hickle/lookup.py", "hickle/loaders/load_builtins.py", "hickle/loaders/load_numpy.py"],
 [("layout", "hickle._dump, hickle._load"), ("types table", "lookup.ReferenceManager.store_type/resolve_type"), ("member naming", "load_builtins, load_numpy")],
 state=["HDF5 tree of the file"], observe="files written by an independent writer / read by an independent reader")
prop("P22", "Overlapping operations on different files do not interfere",
 "dump and load calls on different files that overlap in time, in several threads with any interleaving or nested inside each other (a loader callback that itself dumps or loads another file), behave as if they were executed one after the other. Starting a second operation on an open HDF5 file, or on a file by name, while one is in progress on it is either refused or has no effect on the one in progress.",
 ["schedule"], "all interleavings of concurrent or nested operations",
 "Needs control over the interleaving of the individual steps.",
 ["hickle/lookup.py", "hickle/hickle.py"],
 [("per file managers", "lookup.BaseManager"), ("class level registries", "lookup.LoaderManager")],
 state=["LoaderManager.__managers__, ReferenceManager.__managers__"], observe="outcome of each operation")

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
