"""Faults raised by the storage library: the k-th call of one of its entry points raises."""
import os, resource, sys
import h5py
from h5py._hl import attrs as _attrs

WRITES = [(h5py.Group, "create_dataset"), (h5py.Group, "create_group"), (h5py.Group, "require_group"), (h5py.Group, "__setitem__"), (h5py.Dataset, "__setitem__"),
          (_attrs.AttributeManager, "__setitem__"), (_attrs.AttributeManager, "create"), (_attrs.AttributeManager, "modify")]
READS = [(h5py.Dataset, "__getitem__"), (h5py.Group, "__getitem__"), (h5py.Group, "get"), (_attrs.AttributeManager, "__getitem__"), (_attrs.AttributeManager, "get")]


FLUSH = [(h5py.File, "flush")]
EVERYTHING = WRITES + READS + FLUSH + [(h5py.File, "__init__"), (h5py.File, "close")]


class Injected(OSError):
    pass


def strike(exc):
    """raises exc; None: the process dies"""
    if exc is None:
        os._exit(57)
    raise exc


class Interposer:
    """with Interposer(k, exc, WRITES) as f: ...; f.hit tells whether the fault was raised.
    Only outermost calls count (h5py calls itself)."""

    def __init__(self, k, exc, points, after=False):
        self.k, self.exc, self.points, self.after = k, exc, points, after
        self.count, self.hit, self.depth, self.saved = 0, False, 0, []

    def wrap(self, fn):
        def call(*a, **kw):
            if self.depth:
                return fn(*a, **kw)
            self.count += 1
            mine = self.count == self.k
            self.depth += 1
            try:
                if mine and not self.after:
                    self.hit = True
                    strike(self.exc)
                r = fn(*a, **kw)
                if mine:
                    self.hit = True
                    strike(self.exc)
                return r
            finally:
                self.depth -= 1
        return call

    def __enter__(self):
        for cls, name in self.points:
            own = name in cls.__dict__
            fn = getattr(cls, name)
            self.saved.append((cls, name, own, fn))
            setattr(cls, name, self.wrap(fn))
        return self

    def __exit__(self, *_):
        for cls, name, own, fn in reversed(self.saved):
            if own:
                setattr(cls, name, fn)
            else:
                delattr(cls, name)
        self.saved = []


class LineFault:
    """raises when the k-th line of the package is about to be executed"""

    def __init__(self, k, exc, package):
        self.k, self.exc, self.package, self.count = k, exc, package + os.sep, 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package):
            return None
        if event == "line":
            self.count += 1
            if self.count == self.k:
                sys.settrace(None)
                strike(self.exc)
        return self.trace

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *_):
        sys.settrace(None)


class SizeLimit:
    """no file can grow beyond k bytes: real write errors below the storage library"""

    def __init__(self, k, names):
        self.k, self.names, self.count = k, names, 0

    def __enter__(self):
        if self.k:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.k, resource.RLIM_INFINITY))
        return self

    def __exit__(self, *_):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        self.count = max([os.path.getsize(n) for n in self.names if os.path.exists(n)] + [0])


class WriteFault:
    """the k-th write to the file object of the caller raises, and so do all later ones"""

    def __init__(self, k, exc):
        self.k, self.exc, self.count = k, exc, 0

    def attach(self, fobj):
        self.fobj = fobj

    def __enter__(self):
        write = self.fobj.write

        def call(*a):
            self.count += 1
            if self.k and self.count >= self.k:
                strike(self.exc)
            return write(*a)
        self.fobj.write = call
        return self

    def __exit__(self, *_):
        try:
            del self.fobj.write
        except AttributeError:
            pass
