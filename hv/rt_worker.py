"""Executes round trip jobs against the code in HV_REPO and records them (one JSON line per job)."""
import io, json, os, random, signal, sys, warnings
sys.path.insert(0, os.environ.get("HV_REPO", "/repo"))
sys.setrecursionlimit(3000)
try:
    import numpy as np, h5py
    import hickle
    from hv import cases, gen, labels
    from hv.capture import capture
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(97)


class Hung(BaseException):
    pass


def on_alarm(*_):
    raise Hung()


OPTIONS = [dict(compression="gzip"), dict(compression="lzf"), dict(compression="gzip", compression_opts=0), dict(compression="gzip", compression_opts=9), dict(shuffle=True), dict(fletcher32=True), dict(chunks=True),
           dict(compression="gzip", shuffle=True), dict(compression="lzf", shuffle=True, fletcher32=True), dict(compression="gzip", compression_opts=1, shuffle=True, fletcher32=True, chunks=True),
           dict(compression=4), dict(chunks=True, fletcher32=True), dict(compression="lzf", chunks=True), dict(shuffle=True, fletcher32=True)]


def build(job):
    """-> object, permitted outcomes, warnings that must be issued"""
    r = random.Random("%s/%s" % (job.get("seed", 0), json.dumps(job, sort_keys=True)))
    g = job["g"]
    exp, warn = ["ok"], []
    if g == "ctx":
        x = cases.SCALARS[job["v"]]
        o = list(cases.CONTEXTS.values())[job["c"]](x, r)
    elif g == "pair":
        a, b = gen.SMALL[job["a"]], gen.SMALL[job["b"]]
        k = job["c"]
        o = [a, b] if k == 0 else (a, b, a) if k == 1 else {a, b} if k == 2 and a == a and b == b else {"x": a, b if b == b else "n": a}
    elif g == "graph":
        o = cases.concrete(job["h"], r, job.get("fam"))
    elif g == "scalar":
        o = list(cases.CONTEXTS.values())[r.randrange(len(cases.CONTEXTS))](gen.rscalar(r), r)
    elif g == "numlist":
        f = r.choice((gen.rint, lambda q: q.choice(gen.SMALL[1:27]), lambda q: q.choice((gen.rint(q), gen.nice(gen.rfloat(q)))), lambda q: q.choice(gen.INTS), gen.rnpscalar))
        o = r.choice((list, tuple, set, gen.MyList))([x for x in (f(r) for _ in range(r.randrange(1, 9))) if x == x])
    elif g == "struct":
        o = gen.rstruct_any(r, job.get("d", 3), gen.rscalar)
        if not isinstance(o, (list, tuple, set, dict)):
            o = [o, gen.rstruct_any(r, 2, gen.rscalar)]
    elif g == "seq":
        o = gen.rseq(r, job.get("d", 3), gen.mixed_leaf if r.random() < .5 else gen.rscalar)
    elif g == "set":
        o = gen.rset(r) if r.random() < .5 else [gen.rset(r), gen.rset(r), (gen.rset(r),)]
    elif g == "deep":
        o = job["leaf"]
        for j in range(job["n"]):
            m = (job["m"] * 7 + j * job["m"]) % 4
            o = [o] if m == 0 else (o, "s") if m == 1 else {"k": o} if m == 2 else [1, o, None]
    elif g == "wide":
        n = job["n"]
        o = {0: lambda: list(range(n)), 1: lambda: [str(j) for j in range(n)], 2: lambda: tuple([j, "x"][j % 2] for j in range(n)), 3: lambda: {j: str(j) for j in range(n)},
             4: lambda: {str(j): j for j in range(n)}, 5: lambda: set(range(n)), 6: lambda: {(j, "k"): [j] for j in range(n)}, 7: lambda: [[] for _ in range(n)],
             8: lambda: [None] * n, 9: lambda: {"%d" % (n - j): None for j in range(n)}, 10: lambda: [True, False] * (n // 2)}[job["m"]]()
    elif g == "seqspecial":
        o = seqspecial(r, job["i"])
    elif g == "dict":
        o = gen.rdict(r, job.get("d", 2), gen.rscalar if r.random() < .7 else gen.mixed_leaf, width=12)
    elif g == "dictspecial":
        o = dictspecial(r, job["i"])
    elif g == "keypair":
        ks = KEYPOOL
        a, b = ks[job["a"]], ks[job["b"]]
        o = {a: "first"}
        if gen.usable_key(o, b):
            o[b] = "second"
    elif g == "dag":
        o = cases.rdag(r, job["n"], gen.rscalar if r.random() < .6 else gen.mixed_leaf)
    elif g == "shared":
        o = cases.shared_special(r, job["i"])
    elif g == "np":
        o = cases.build_numpy(job, r)
        if job.get("in") is not None:
            o = [lambda: [o, 1, "s"], lambda: {"a": o, 2: [o]}, lambda: (o, o), lambda: [o]][job["in"]]()
        if job["k"] == "npspecial" and False:
            exp.append("dump-error")
    elif g == "nprand":
        o = gen.rarray(r) if r.random() < .8 else gen.rnpscalar(r)
    elif g == "sparse":
        o = cases.rsparse(r, job["i"])
        if r.random() < .3:
            o = r.choice(([o, 1, o], {"m": o, "l": [o]}, (o,)))
    elif g == "sparsespecial":
        o = cases.sparse_special(r, job["i"])
    elif g == "astropy":
        o = cases.astropy_objects(r, job["i"])
        if r.random() < .2 and not isinstance(o, (list, dict, tuple)):
            o = r.choice(([o, 1], {"m": o, "l": [o]}, (o,)))
    elif g == "opaque":
        o = gen.opaque(r)
        if r.random() < .6:
            o = r.choice((lambda: [o, 1, "s"], lambda: {"m": o, 1: [o]}, lambda: (o,), lambda: [[o], {"k": (o, None)}]))()
        warn = ["SerializedWarning"]
    elif g == "opaquespecial":
        o = cases.opaque_extra(r, job["i"])
    elif g == "unstorable":
        o = cases.unstorable(r, job["i"])
        exp = ["dump-error"]
    elif g == "mixed":
        o = gen.rstruct_any(r, 3, gen.mixed_leaf)
    else:
        raise ValueError(g)
    return o, exp, warn


def seqspecial(r, i):
    import collections
    C = [lambda: [], lambda: (), lambda: set(), lambda: [[]], lambda: [()], lambda: ([], ()), lambda: [[], [], [[]]], lambda: ((),), lambda: {()}, lambda: {(), (1,)},
         lambda: gen.MyList(), lambda: gen.MyTuple(), lambda: gen.MySet(), lambda: gen.MyList([gen.MyList(), gen.MyTuple((1,))]), lambda: gen.MySet({1, "a"}), lambda: gen.MyTuple((1, 2.5)),
         lambda: gen.Pair(1, 2), lambda: gen.Pair("a", [1]), lambda: gen.Pair(None, gen.Pair(1, "x")), lambda: gen.Solo("x"), lambda: gen.Solo(5), lambda: [gen.Pair(1, 2), gen.Pair("a", 2)],
         lambda: ["a", "b", "c"], lambda: ["", ""], lambda: [b"", b"a"], lambda: [b"a", b"b"], lambda: ["a", b"a"], lambda: [None, None], lambda: [True, 1, 1.0, 1 + 0j],
         lambda: [1, 2, [3]], lambda: [[1, 2], [3, 4]], lambda: [(1, 2), (3, 4)], lambda: [[1, 2], (3, 4)], lambda: [[1], [1, 2], []], lambda: [1, None], lambda: [None, 1],
         lambda: list(range(11)), lambda: [str(j) for j in range(12)], lambda: [[j] for j in range(101)], lambda: tuple([j, "x"] for j in range(23)),
         lambda: {1, 2, 3}, lambda: {1, "a", None, (1, "b")}, lambda: {(1, 2), (3, 4)}, lambda: {"a"}, lambda: {b"a"}, lambda: {None}, lambda: {True, 2}, lambda: {1.5, 2},
         lambda: [{1}, {"a"}, set()], lambda: [1] * 3 + ["x"] * 3, lambda: [np.float64(1.5), 1, "x"], lambda: [np.int8(-1), np.uint8(200)], lambda: [2 ** 63, 1], lambda: [2 ** 64, 1], lambda: [2 ** 53 + 1, 0.5],
         lambda: [np.array([1]), [1]], lambda: [{}], lambda: [{}, []], lambda: [{"a": []}], lambda: ["data0", "data1"], lambda: [["data"]], lambda: ([],) * 3, lambda: [0, False], lambda: [False, 0.0],
         lambda: [1, 2, 3, "4"], lambda: ["1", 2, 3], lambda: [1, 2, None, 3], lambda: [1.0, 2.0, "x", 3.0], lambda: [True, False, None], lambda: (1, 2, (3, (4, (5, "x")))), lambda: [-1, 2 ** 63 - 1, -2 ** 63], lambda: [2 ** 63 - 1, 2 ** 63],
         lambda: collections.OrderedDict(a=[1, "x"], b=({2},))]
    return C[i % len(C)]()


NSEQ = 72


KEYPOOL = [None, True, False, 0, 1, -1, 2, 10, 2 ** 63, 2 ** 64, 10 ** 30, -2 ** 70, 0.5, -0.5, 1.5, 1e300, 5e-324, float("inf"), float("-inf"), 1j, 1 + 2j, -1 - 2j, complex(0.1, 0.2),
           "", "a", "b", "None", "True", "False", "0", "1", "0.5", "1j", "(1+2j)", "a/b", "a\\b", "/", "\\", ".", "..", "./a", "a\x00", "\x00", "é", "\U0001f600", '"', '"a"', "'a'", "b'a'", 'b"a"', "data0", "data1", "hickle_types_table", " ", "\n", "a b", "x" * 300,
           b"", b"a", b"a/b", b"a\\b", b"\x00", b"a\x00", b"\xff", b"\xc3\xa9", b"data0", b'"', b"None", b".", b"..",
           (), (1,), (1, 2), ("a",), ("a", 1), (None,), ((1,),), ((1, "a"), 2), (1.5, True), (b"x",), ("a/b",),
           np.int64(7), np.float64(7.5), np.str_("n"), np.bytes_(b"n"), np.float32(0.1), np.uint64(2 ** 64 - 1), np.bool_(True) if False else np.int8(-3),
           gen.MyStr("my"), gen.MyInt(99), gen.MyFloat(9.5), gen.MyBytes(b"my"), gen.Color.RED, gen.Hashed(1), gen.Hashed("1"), frozenset((1, 2)), frozenset(), int, gen.Pair(1, "x"), gen.a_function, range(3), ...]


def dictspecial(r, i):
    import collections
    C = [lambda: {}, lambda: collections.OrderedDict(), lambda: gen.MyDict(), lambda: {"a": {}}, lambda: {"b": 1, "a": 2}, lambda: collections.OrderedDict([("z", 1), ("a", 2), ("m", 3)]),
         lambda: collections.Counter("abracadabra"), lambda: collections.Counter(), lambda: collections.Counter({"x": 0, "y": -3}), lambda: collections.defaultdict(list, a=[1]), lambda: collections.defaultdict(None, {1: 2}),
         lambda: {j: j * j for j in range(12)}, lambda: {str(j): j for j in range(11, -1, -1)}, lambda: {1: "i", "1": "s", b"1": "b", (1,): "t", 1.5: "f"},
         lambda: {"": 0, b"": 1, (): 2, None: 3, "None": 4, "()": 5, "b''": 6, 'b""': 7, '""': 8}, lambda: {True: 1, "True": 2, "1": 3}, lambda: {False: 1, "False": 2, 2: 3}, lambda: {0: "zero", True: "t", 2.0: "two"},
         lambda: {"a/b": 1, "a\\b": 2, "a": {"b": 3}, "a/": 4, "/a": 5, "//": 6}, lambda: {b"a/b": 1, b"a\\b": 2, b"/": 3}, lambda: {"a.b": 1, ".": 2, "..": 3, "": 4}, lambda: {"data0": 1, "data1": 2, ("x",): 3, ("y", 1): 4, "data2": 5, "data3": 6},
         lambda: {("x",): 1, "data0": 2, "data1": 3}, lambda: {b"\xff": 1, "data0": 2, b"\xfe": 3}, lambda: {"\x00": 1, "a\x00b": 2, b"\x00": 3}, lambda: {(1, (2, "x")): {"n": (1,)}, ((),): 5},
         lambda: {"hickle_types_table": 1, "data": 2, "type": 3, "base_type": 4, "key_idx": 5}, lambda: {float("inf"): 1, float("-inf"): 2, 1e-300: 3, -0.5: 4}, lambda: {0.1: 1, 0.1 + 1e-17: 2, 0.30000000000000004: 3, 0.3: 4},
         lambda: {1 + 2j: 1, 1 - 2j: 2, complex(0, -1): 3, complex(-0.0, 2): 4}, lambda: {10 ** 40: 1, -10 ** 40: 2, 2 ** 64: 3, 2 ** 63: 4}, lambda: {np.float32(0.1): 1, 0.1: 2}, lambda: {np.int64(1): "np", 2: "py"},
         lambda: {gen.Color.RED: 1, gen.Color.BLUE: 2}, lambda: {gen.Hashed(1): 1, gen.Hashed(2): 2, "x": gen.Hashed(3)}, lambda: {frozenset((1,)): 1}, lambda: {int: 1, str: 2, gen.Point: 3}, lambda: {gen.MyStr("a"): 1, "b": 2, gen.MyInt(3): 4, gen.MyFloat(0.5): 5, gen.MyBytes(b"q"): 6},
         lambda: {"é": 1, "e\u0301": 2, "É": 3, "\U0001f600": 4}, lambda: {"a": 1, "A": 2, "a ": 3, " a": 4}, lambda: {'"': 1, "'": 2, '"a': 3, 'a"': 4, '"a"': 5}, lambda: {b'"': 1, b"'": 2, b'b"': 3, 'b"': 4},
         lambda: {"k" * 1000: 1, "k" * 1001: 2}, lambda: {"x": None, "y": [], "z": (), "w": set(), "v": {}, "u": ""}, lambda: {"x": {"y": {"z": {"w": {}}}}}, lambda: {1: {1: {1: {1: "x"}}}}, lambda: {(1, 2): [1, 2], (2, 1): [2, 1]},
         lambda: {k: j for j, k in enumerate(KEYPOOL)}, lambda: {k: [k] for k in reversed(KEYPOOL)}, lambda: collections.OrderedDict((k, j) for j, k in enumerate(sorted(map(str, range(30))))), lambda: [{"a": 1}, {"a": 2}, {"b": {"a": 3}}],
         lambda: {"arr": np.arange(3), 2: np.array("s"), (3,): np.zeros((0,))}, lambda: {b"a": {b"b": {b"c": b"d"}}}, lambda: {"a\nb": 1, "a\tb": 2, "\r": 3}, lambda: {-1: 1, 1: 2, 0: 3, -2: 4}, lambda: {1.0: 1, 2.5: 2, -0.0: 3}, lambda: {"1": 1, 1: 2, "01": 3, "1.0": 4, "+1": 5},
         lambda: {(1.5, 2): 3, (1, 2.5): 4}, lambda: {(): ()}, lambda: {None: None}, lambda: {gen.Pair(1, 2): gen.Pair(3, 4)}, lambda: {(True, 1): 1, (None, "x"): 2}, lambda: {"%": 1, "{}": 2, "{0}": 3, "\\x41": 4}]
    return C[i % len(C)]()


NDICT = 62


def twice(job, work):
    """P14: the dumped object is left alone, load changes nothing and can be repeated whatever happens to its result"""
    obj, exp, warn = build(job)
    before = capture(obj)
    path = os.path.join(work, "f.hkl")
    rec = dict(id="", out="ok", exp=["ok"], after=[], strict=True, ident=job["g"] not in ("dict", "dictspecial", "keypair", "opaque", "opaquespecial", "mixed"), warn=[], warned=[], facts=[])
    def content():
        with open(path, "rb") as f:
            return f.read()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                hickle.dump(obj, path, mode="w")
                done = True
            except Exception:
                done = False
            if capture(obj) != before:
                rec["after"] = before
            if not done:
                return dict(rec, orig=[], back=[]) if rec["after"] else dict(out="skip")
            data = content()
            try:
                one = hickle.load(path)
            except Exception:
                return dict(rec, orig=[], back=[]) if rec["after"] else dict(out="skip")
            rec["orig"] = capture(one)
            first = labels.mutables(one)
            rec["facts"].append(["file-changed-by-load", content() == data])
            labels.vandalise(one)
            try:
                two = hickle.load(path)
            except Exception as e:
                return dict(rec, out="load-error", back=[], msg=repr(e)[:300])
            rec["back"] = capture(two)
            rec["facts"].append(["file-changed-by-load", content() == data])
            rec["facts"].append(["loads-share-objects", not (first.keys() & labels.mutables(two).keys())])
            labels.vandalise(two)
            if capture(obj) != before:
                rec["facts"].append(["dumped-object-shared-with-loaded-one", False])
    finally:
        if os.path.exists(path):
            os.unlink(path)
    return rec


def outcome(job, work):
    if job.get("twice"):
        return twice(job, work)
    obj, exp, warn = build(job)
    rec = dict(id="", out="ok", exp=exp, orig=[] if job["g"] == "unstorable" else capture(obj), after=[], back=[], strict=False, ident=True, warn=warn, warned=[], facts=[])
    rec["ident"] = job["g"] not in ("dict", "dictspecial", "keypair", "opaque", "opaquespecial", "mixed")
    path = os.path.join(work, "f.hkl")
    if job.get("target") == "mem":
        path = io.BytesIO()
    kwargs = {}
    if "opt" in job:
        kwargs = dict(OPTIONS[job["opt"]])
    given = dict(kwargs)
    try:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            if "opt" in job:
                # reference: the same object without options
                ref = os.path.join(work, "ref.hkl")
                try:
                    hickle.dump(obj, ref, mode="w")
                    rec["orig"] = capture(hickle.load(ref))
                    rec["strict"] = True
                except Exception as e:
                    return dict(out="skip")
            try:
                hickle.dump(obj, path, mode="w", **kwargs)
            except Exception as e:
                rec["out"], rec["msg"] = "dump-error", repr(e)[:300]
            else:
                try:
                    back = hickle.load(path)
                except Exception as e:
                    rec["out"], rec["msg"] = "load-error", repr(e)[:300]
                else:
                    rec["back"] = capture(back)
        rec["warned"] = sorted({w.category.__name__ for w in got})
        if kwargs != given:
            rec["facts"].append(["options-modified", False])
        if "opt" not in job and job["g"] != "unstorable":
            after = capture(obj)
            if after != rec["orig"]:
                rec["after"] = after
    finally:
        if isinstance(path, str) and os.path.exists(path):
            os.unlink(path)
    return rec


def main():
    fin, fout, work = sys.argv[1:4]
    signal.signal(signal.SIGALRM, on_alarm)
    with open(fout, "a") as out:
        for line in open(fin):
            job = json.loads(line)
            signal.alarm(100)
            try:
                rec = outcome(job, work)
            except Hung:
                rec = dict(out="timeout")
            finally:
                signal.alarm(0)
            out.write(json.dumps(rec) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
