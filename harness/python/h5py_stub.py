"""A stand-in for h5py: groups, datasets, attributes, hard links and references, with what h5py does to types.

A file is written out as bytes when it is closed, so that nothing can be shared between what was saved and what is loaded.
Groups list their members in order of names, as HDF5 does by default.
"""
import os
import pickle
import sys
import types

import numpy as np


class _String:
    """The dtype of strings of any length."""


def string_dtype(encoding='utf-8', length=None):
    assert length is None and encoding in ('utf-8', 'ascii')
    return _String


def _as_attribute(value):
    if isinstance(value, (str, Reference)):
        return value
    if isinstance(value, bytes):
        return np.bytes_(value)
    a = np.array(value)
    if a.dtype.kind == 'U':
        a = a.astype(object)
    elif a.dtype.kind == 'O' and not all(isinstance(x, (str, Reference)) for x in a.ravel()):
        raise TypeError(f'Object dtype {a.dtype!r} has no native HDF5 equivalent')
    elif a.dtype.kind in 'mM':
        raise TypeError(f'No conversion path for dtype: {a.dtype!r}')
    return a if a.ndim else a[()]


class Attributes(dict):
    def __setitem__(self, key, value):
        assert isinstance(key, str)
        super().__setitem__(key, _as_attribute(value))

    def __getitem__(self, key):
        value = super().__getitem__(key)
        return value.copy() if isinstance(value, np.ndarray) else value

    def get(self, key, default=None):
        return self[key] if key in self else default


class Reference:
    def __init__(self, target):
        self.target = target


class _Object:
    def __init__(self):
        self.attrs = Attributes()

    @property
    def ref(self):
        return Reference(self)

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class Dataset(_Object):
    def __init__(self, shape, dtype, data=None):
        super().__init__()
        self.text = dtype is _String
        if self.text:
            self._data = np.full(shape, '', dtype=object)
            if data is not None:
                self._data[...] = data
        else:
            a = np.array(data, dtype=dtype, order='C') if data is not None else np.zeros(shape, dtype)
            if a.dtype.kind in 'OmMU':
                raise TypeError(f'No conversion path for dtype: {a.dtype!r}')
            self._data = a

    @property
    def shape(self):
        return self._data.shape

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def size(self):
        return self._data.size

    @property
    def ndim(self):
        return self._data.ndim

    def __len__(self):
        return len(self._data)

    def __getitem__(self, key):
        out = self._data[key]
        if self.text:
            if isinstance(out, str):
                return out.encode('utf-8')
            return np.array([x.encode('utf-8') for x in out.ravel()], dtype=object).reshape(out.shape)
        return out.copy() if isinstance(out, np.ndarray) else out

    def __setitem__(self, key, value):
        if self.text and isinstance(value, bytes):
            value = value.decode('utf-8')
        if self.text and not isinstance(value, str) and not all(isinstance(x, str) for x in np.ravel(value)):
            raise TypeError("Can't implicitly convert non-string objects to strings")
        self._data[key] = value

    def __array__(self, dtype=None, copy=None):
        out = self[()]
        return np.asarray(out, dtype=dtype)

    def read_direct(self, dest):
        if dest.size == 0 or not dest.flags['C_CONTIGUOUS'] or not dest.flags['WRITEABLE']:
            raise TypeError('Array must be C-contiguous and writeable')
        if dest.shape != self.shape:
            raise TypeError("Can't broadcast")
        if dest.dtype.kind in 'mMOU':
            raise TypeError(f'No conversion path for dtype: {dest.dtype!r}')
        dest[...] = self._data


class Group(_Object):
    def __init__(self):
        super().__init__()
        self._members = {}

    def _find(self, name, create=False):
        """(group, last part of the path)"""
        if not isinstance(name, str):
            raise TypeError(f'Accessing a group is done with bytes or str, not {type(name)}')
        parts = [p for p in name.split('/') if p not in ('', '.')]
        if not parts:
            raise ValueError('Unable to synchronously create (no name)')
        group = self
        for p in parts[:-1]:
            if create and p not in group._members:
                group._members[p] = Group()
            group = group._members[p]
        return group, parts[-1]

    def _put(self, name, value):
        group, last = self._find(name, create=True)
        if last in group._members:
            raise ValueError('Unable to synchronously create (name already exists)')
        if not last.isascii():
            last.encode('utf-8')
        group._members[last] = value
        return value

    def create_group(self, name):
        return self._put(name, Group())

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        if data is not None and dtype is None and isinstance(data, str):
            return self._put(name, Dataset((), _String, data))
        if data is not None and dtype is None and isinstance(data, bytes):
            return self._put(name, Dataset((), None, np.bytes_(data)))
        if shape is not None:
            shape = tuple(int(n) for n in shape)
        return self._put(name, Dataset(shape, dtype, data))

    def __getitem__(self, name):
        if isinstance(name, Reference):
            return name.target
        group, last = self._find(name)
        if last not in group._members:
            raise KeyError(f"Unable to synchronously open object (object '{name}' doesn't exist)")
        return group._members[last]

    def __setitem__(self, name, value):
        if isinstance(value, _Object):
            self._put(name, value)  # a hard link
        else:
            self.create_dataset(name, data=value)

    def __delitem__(self, name):
        group, last = self._find(name)
        del group._members[last]

    def __contains__(self, name):
        try:
            self[name]
        except (KeyError, AttributeError):
            return False
        return True

    def __len__(self):
        return len(self._members)

    def keys(self):
        return sorted(self._members, key=lambda k: k.encode('utf-8'))

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return [self._members[k] for k in self.keys()]

    def items(self):
        return [(k, self._members[k]) for k in self.keys()]

    def get(self, name, default=None):
        return self[name] if name in self else default


class File(Group):
    def __init__(self, name, mode='r'):
        super().__init__()
        self._name, self._mode = name, mode
        if mode == 'r':
            if isinstance(name, (str, os.PathLike)):
                with open(name, 'rb') as f:
                    data = f.read()
            else:
                name.seek(0)
                data = name.read()
            self._members, attrs = pickle.loads(data)
            self.attrs.update(attrs)
        else:
            assert mode == 'w'

    def __enter__(self):
        return self

    def __exit__(self, kind, *_):
        if self._mode == 'w':
            data = pickle.dumps((self._members, dict(self.attrs)))
            if isinstance(self._name, (str, os.PathLike)):
                with open(self._name, 'wb') as f:
                    f.write(data)
            else:
                self._name.seek(0)
                self._name.truncate()
                self._name.write(data)
        self._mode = None

    def reopened(self):
        """This file as it is once it has been written and opened again."""
        out = File.__new__(File)
        Group.__init__(out)
        members, attrs = pickle.loads(pickle.dumps((self._members, dict(self.attrs))))
        out._members = members
        out.attrs.update(attrs)
        out._mode = 'r'
        return out


def install():
    m = types.ModuleType('h5py')
    for k in (File, Group, Dataset, Reference, string_dtype):
        setattr(m, k.__name__, k)
    sys.modules['h5py'] = m
    return m
