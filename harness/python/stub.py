"""Stand-ins for the compiled part of scipp, so that the Python layer under test
(REPO/src/scipp) runs without it. Values are symbolic terms: a variable is its
dims and how it was computed, so equality of terms is equality of computations.
"""
import collections.abc
import importlib
import importlib.machinery
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


class DimensionError(RuntimeError):
    pass


class VariableError(RuntimeError):
    pass


class Variable:
    """Dims, term, and for binned variables the layout of the bins in their buffer."""

    def __init__(self, dims, term, layout=None):
        self.dims, self.term, self.layout = tuple(dims), term, layout

    @property
    def bins(self):
        return None if self.layout is None else object()

    def copy(self, deep=True):
        return Variable(self.dims, self.term, self.layout and 'compact')

    def rename_dims(self, names):
        return Variable([names.get(d, d) for d in self.dims], self.term, self.layout)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def sizes(self):
        return dict.fromkeys(self.dims, 2)

    @property
    def shape(self):
        return (2,) * len(self.dims)

    def key(self):
        return self.dims, self.term, self.layout is not None

    def __repr__(self):
        return f'{self.term}{list(self.dims)}' + ('*' if self.layout else '')


class Coords(collections.abc.MutableMapping):
    def __init__(self, accept):
        self._items, self._accept = {}, accept

    def __iter__(self):
        return iter(tuple(self._items))

    def __len__(self):
        return len(self._items)

    def __getitem__(self, name):
        return self._items[name][0]

    def __delitem__(self, name):
        del self._items[name]

    def __setitem__(self, name, var):
        self._accept(var)
        self._items[name] = (var, True)

    def set_aligned(self, name, aligned):
        self._items[name] = (self._items[name][0], aligned)

    def copy(self, accept=None):
        out = Coords(accept or self._accept)
        out._items = dict(self._items)
        return out

    def state(self):
        return {k: (v.key(), a) for k, (v, a) in self._items.items()}


class Binned:
    """Data of a binned array: layout and event coords of the shared buffer."""

    def __init__(self, layout, items):
        self.layout, self.items = layout, items

    def copy(self):
        return Binned('compact', {k: (v.copy(), a) for k, (v, a) in self.items.items()})


class BinsView:
    def __init__(self, data):
        self.coords = Coords(self._accept)
        self.coords._items = data.items  # the view writes through to the buffer
        self._data = data

    def _accept(self, var):
        if var.layout != self._data.layout:
            raise DimensionError('bin indices or length of the buffer do not match')

    @property
    def constituents(self):
        return {'layout': self._data.layout, 'items': dict(self._data.items)}


class DataArray:
    def __init__(self, data=None, dims=(), coords=None):
        self.data, self.dims = data, tuple(dims)
        if isinstance(data, Variable):
            self.dims, self.data = data.dims, data.term
        self.coords = Coords(lambda var: None)
        for name, var in (coords._items.items() if isinstance(coords, Coords) else ()):
            self.coords._items[name] = var

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def sizes(self):
        return dict.fromkeys(self.dims, 2)

    @property
    def shape(self):
        return (2,) * len(self.dims)

    def assign_coords(self, coords=None, /, **kwargs):
        out = self.copy(deep=False)
        for name, var in {**(coords or {}), **kwargs}.items():
            out.coords[name] = var
        return out

    def drop_coords(self, *names):
        out = self.copy(deep=False)
        for name in names:
            for n in (name,) if isinstance(name, str) else name:
                del out.coords[n]
        return out

    @property
    def bins(self):
        return BinsView(self.data) if isinstance(self.data, Binned) else None

    def copy(self, deep=True):
        assert not deep
        out = DataArray(self.data, self.dims)
        out.coords = self.coords.copy()
        return out

    def rename_dims(self, names):
        dims = [names.get(d, d) for d in self.dims]
        if len(set(dims)) != len(dims):
            raise DimensionError('duplicate dimension')
        out = self.copy(deep=False)
        out.dims = tuple(dims)
        out.coords._items = {k: (v.rename_dims(names), a) for k, (v, a) in out.coords._items.items()}
        if isinstance(self.data, Binned):
            out.data = Binned(self.data.layout,
                              {k: (v.rename_dims(names), a) for k, (v, a) in self.data.items.items()})
        return out

    def state(self):
        events = None
        if isinstance(self.data, Binned):
            events = {k: (v.key(), a) for k, (v, a) in self.data.items.items()}
        return self.dims, self.coords.state(), events


class Dataset(dict):
    def __init__(self, data=None, coords=None):
        super().__init__(data or {})
        self.coords = coords

    @property
    def sizes(self):
        return dict.fromkeys(self.dims, 2)


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        cls = type(name, (), {})
        setattr(self, name, cls)
        return cls


def module(name, kind=_Module, **attributes):
    m = kind(name)
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    m.__dict__.update(attributes)
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(sys.modules[parent], child, m)
    return m


def package(name, **attributes):
    m = module(name, types.ModuleType, **attributes)
    m.__path__ = [os.path.join(REPO, 'src', *name.split('.'))]
    m.__spec__.submodule_search_locations = m.__path__
    return m


class Logger:
    def __init__(self):
        self.count = 0

    def info(self, _):
        self.count += 1


logger = Logger()


def bins(layout, items):
    return Binned(layout, items)


def empty(sizes):
    return Variable(sizes, 'empty')


def transform_coords():
    """The real scipp.coords, on stand-ins of its dependencies."""
    package('scipp')
    package('scipp.utils')
    module('scipp.core', DataArray=DataArray, Dataset=Dataset, DimensionError=DimensionError,
           VariableError=VariableError, Variable=Variable, bins=bins, empty=empty)
    module('scipp.logging', get_logger=lambda: logger)
    return importlib.import_module('scipp.coords.transform_coords').transform_coords


def data_group():
    """The real scipp.core.data_group, on stand-ins of its dependencies."""
    package('scipp')
    package('scipp.core')
    package('scipp._scipp')
    module('scipp._scipp.core')
    module('scipp.core.cpp_classes', DimensionError=DimensionError)
    module('scipp.core.bins', Bins=type('Bins', (), {}))
    return importlib.import_module('scipp.core.data_group')
