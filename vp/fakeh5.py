"""Assumed contract of h5py (and of os.path.isfile for files it made).

A file is a tree of groups, datasets and attributes; a dataset or attribute
reads back the value it was given when written.  Values are snapshots, so a
later change of the written array changes nothing in the file.  The rest of
the behaviour stated here (what is rejected, which types come back) follows
the h5py documentation and is checked against the real h5py by selftest.py.
"""
import numpy as np
import os as _os
from . import arrays, shim, assumed
from .core import PATH, SI, SB, Unsupported
from .arrays import A, SR, asarr, deep_sym
from .shim import Shim, use


class HLObject:
    def __bool__(self):
        return True


def _frozen(x, attr=False):
    """the value stored for x"""
    if x is None:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(x, (str, bytes)):      # attributes read back as text, datasets as bytes
        if attr:
            return x if isinstance(x, str) else x.decode()
        return x.encode() if isinstance(x, str) else x
    if isinstance(x, (list, tuple)):
        if deep_sym(x):
            if any(e is None or isinstance(e, str) for e in x):
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            return asarr(x).copy()
        x = np.array(x)
    if isinstance(x, A):
        return x.copy()
    if isinstance(x, SB):
        raise Unsupported("symbolic truth value stored in a file")
    if isinstance(x, (SI, SR)):
        return x
    a = np.array(x)
    if a.dtype == object:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    return a


def _read(v):
    if isinstance(v, np.ndarray):
        return v.copy()[()]
    if isinstance(v, A):
        return v.copy()
    return v


class Box:
    """how the file is open at present; shared by everything in the file"""
    mode = "w"

    def writable(self):
        if self.mode == "r":
            raise OSError("Unable to synchronously write (no write intent on file)")


class Attrs:
    def __init__(self, box):
        self._d, self._box = {}, box

    def __setitem__(self, k, v):
        self._box.writable()
        self._d[k] = _frozen(v, True)

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError(f"Can't open attribute (can't locate attribute: '{k}')")
        return _read(self._d[k])

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(sorted(self._d))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self[k]) for k in self]

    def get(self, k, default=None):
        return self[k] if k in self else default


class Dataset(HLObject):
    def __init__(self, value, box):
        self._v, self._box = value, box
        self.attrs = Attrs(box)

    @property
    def shape(self):
        v = self._v
        return tuple(v.shape) if isinstance(v, (np.ndarray, A)) else ()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        v = self._v
        return v.size if isinstance(v, (np.ndarray, A)) else 1

    def __len__(self):
        return self._v.shape[0]

    def __getitem__(self, key):
        v = self._v
        if not isinstance(v, (np.ndarray, A)) or not v.ndim:
            if key == ():
                return _read(v)
            if key is Ellipsis:
                if isinstance(v, (A, SI, SR)):
                    raise Unsupported("zero-dimensional array of a symbolic value")
                return v.copy() if isinstance(v, np.ndarray) else np.array(v, dtype=object if isinstance(v, bytes) else None)
            raise ValueError("Illegal slicing argument for scalar dataspace")
        if isinstance(key, np.integer):
            key = int(key)
        return _read(v[key] if isinstance(v, A) else np.asarray(v[key]))

    def __setitem__(self, key, val):
        self._box.writable()
        self._v[key] = val


class Group(HLObject):
    def __init__(self, box):
        self._d, self._box = {}, box
        self.attrs = Attrs(box)

    def _walk(self, path, make=False):
        g = self
        parts = [p for p in path.split("/") if p]
        for p in parts[:-1]:
            if p not in g._d:
                if not make:
                    return None, parts[-1]
                g._d[p] = Group(self._box)
            g = g._d[p]
            if not isinstance(g, Group):
                if make:
                    raise ValueError("Unable to create object (not a group)")
                return None, parts[-1]
        return g, parts[-1]

    def _add(self, name, x):
        self._box.writable()
        g, last = self._walk(name, True)
        if last in g._d:
            raise ValueError(f"Unable to create dataset (name already exists: {name})")
        g._d[last] = x
        return x

    def create_group(self, name):
        return self._add(name, Group(self._box))

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is None:
            if shape is None:
                raise TypeError("One of data, shape or dtype must be specified")
            v = np.zeros(shape, dtype or np.float32)
        else:
            v = _frozen(data)
            if dtype is not None and isinstance(v, np.ndarray):
                v = v.astype(dtype)
        return self._add(name, Dataset(v, self._box))

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __contains__(self, path):
        g, last = self._walk(path)
        return g is not None and last in g._d

    def __getitem__(self, path):
        g, last = self._walk(path)
        if g is None or last not in g._d:
            raise KeyError(f"Unable to open object (object '{path}' doesn't exist)")
        return g._d[last]

    def get(self, path, default=None):
        return self[path] if path in self else default

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(sorted(self._d))

    def keys(self):
        return sorted(self._d)

    def values(self):
        return [self._d[k] for k in self]

    def items(self):
        return [(k, self._d[k]) for k in self]


def files():
    return PATH.memo.setdefault("files", {})


class File(Group):
    def __init__(self, name, mode="r", **k):
        use("h5py.File")
        fs = files()
        if mode not in ("r", "r+", "w", "w-", "x", "a"):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if mode in ("r", "r+") and name not in fs:
            raise FileNotFoundError(name)
        if mode in ("x", "w-") and name in fs:
            raise FileExistsError(name)
        if mode == "w" or name not in fs:
            box = Box()
            fs[name] = ({}, Attrs(box), box)
        self._d, self.attrs, self._box = fs[name]
        self._box.mode = mode
        self.filename, self.mode = name, mode

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def isfile(name):
    return name in files() or _os.path.isfile(name)


assumed.EXTRA["h5py"] = {"HLObject": HLObject, "Dataset": Dataset, "Group": Group, "File": File}
_path = Shim("os.path", _os.path, {"isfile": isfile, "exists": lambda n: n in files() or _os.path.exists(n)})
assumed.EXTRA["os"] = {"path": _path}
