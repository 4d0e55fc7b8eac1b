"""Stand-in for h5py (not installed here): files are kept in memory, with h5py's rules for the calls that the
configuration generators can make. FILES maps the absolute path to the tree of a closed file."""
import os
import numpy as np

FILES = {}
ORDER = []   # paths, in the order in which they were written


def string_dtype(*a, **k):
    return np.dtype(object)


class Attrs(dict):
    def create(self, name, data, shape=None, dtype=None):
        self[name] = data if dtype is None or isinstance(data, str) else np.asarray(data, dtype=dtype)

    modify = create


class Dataset:
    def __init__(self, a):
        self.a = a
        self.attrs = Attrs()

    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)
    size = property(lambda s: s.a.size)
    ndim = property(lambda s: s.a.ndim)

    def __getitem__(self, k):
        return self.a[k]

    def __setitem__(self, k, v):
        self.a[k] = v

    def __len__(self):
        return len(self.a)

    def __array__(self, *a, **k):
        return np.array(self.a)


class Group:
    def __init__(self):
        self.attrs = Attrs()
        self.items_ = {}

    def _walk(self, path, make):
        g, parts = self, [p for p in path.split("/") if p]
        for p in parts[:-1]:
            if p not in g.items_:
                if not make:
                    raise KeyError(path)
                g.items_[p] = Group()
            g = g.items_[p]
        return g, parts[-1]

    def create_group(self, name, **k):
        g, n = self._walk(str(name), True)
        if n in g.items_:
            raise ValueError("Unable to create group (name already exists)")
        g.items_[n] = Group()
        return g.items_[n]

    def require_group(self, name):
        g, n = self._walk(str(name), True)
        return g.items_.setdefault(n, Group())

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        g, n = self._walk(str(name), True)
        if n in g.items_:
            raise ValueError("Unable to create dataset (name already exists)")
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        if data is None:
            a = np.zeros(shape, dtype=dtype or "f4")
        else:
            a = np.array(data, dtype=dtype)
            if a.dtype == object:
                raise TypeError("Object dtype has no native HDF5 equivalent")
            if shape is not None:
                if int(np.prod(shape)) != a.size:
                    raise ValueError("Shape tuple is incompatible with data")
                a = a.reshape(shape)
        g.items_[n] = Dataset(a)
        return g.items_[n]

    def __setitem__(self, name, v):
        if isinstance(v, (Group, Dataset)):
            g, n = self._walk(str(name), True)
            g.items_[n] = v
        else:
            self.create_dataset(name, data=v)

    def __getitem__(self, name):
        g, n = self._walk(str(name), False)
        return g.items_[n]

    def __contains__(self, name):
        try:
            g, n = self._walk(str(name), False)
        except KeyError:
            return False
        return n in g.items_

    def __delitem__(self, name):
        g, n = self._walk(str(name), False)
        del g.items_[n]

    def keys(self):
        return self.items_.keys()

    def items(self):
        return self.items_.items()

    def get(self, n, d=None):
        return self[n] if n in self else d


class File(Group):
    def __init__(self, name, mode="r", **k):
        Group.__init__(self)
        self.path, self.mode, self.open_ = os.path.abspath(str(name)), mode, True
        self.filename = str(name)
        if mode in ("r", "r+", "a") and (mode != "a" or self.path in FILES):
            if self.path not in FILES:
                raise FileNotFoundError(self.path)
            self.attrs, self.items_ = FILES[self.path].attrs, FILES[self.path].items_
        if mode in ("w-", "x") and self.path in FILES:
            raise FileExistsError(self.path)

    def close(self):
        if self.open_ and self.mode != "r":
            FILES[self.path] = self
            ORDER.append(self.path)
        self.open_ = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
