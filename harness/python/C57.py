# interpreter: _scipp
"""C57: what is saved to a file, or serialized, is what is loaded."""
import os
import tempfile
from io import BytesIO

from C54 import dims_for, draw_numbers, draw_shape, gen_variable
from h5py_stub import install
from pbt import check, main
from real import ERRORS, np, sc, show, var

h5py = install()

from scipp.serialization import deserialize, serialize  # noqa: E402

RULE = 'a case counts if at least two elements, or two items, were saved and loaded'

REFUSED = (*ERRORS, sc.DTypeError, sc.DimensionError, NotImplementedError)
UNITS = ['m', 'one', None, 'K', 'counts', 'm/s', '1/angstrom', 'deg', 'us', 'kg*m^2/s^3', 'mm']
KEYS = ['x', 'y', 'c0', 'a/b', '/', '.', 'a.b', 'ä', '長さ', 'with space', 'value-0', 'elem_000_x', '&#47;', 'μ', "'", '..',
        'data', 'name', 'name/', 'A', 'a', 'zz']


def gen_quaternion(g, shape):
    n = int(np.prod(shape, dtype=int))
    a = np.array([[g.integer(-3, 3) for _ in range(4)] for _ in range(n)], dtype=float).reshape(n, 4)
    a[:, 3] += 0.5
    return (a / np.linalg.norm(a, axis=1, keepdims=True)).reshape(*shape, 4)


def gen_leaf(g, dims, shape):
    """A variable with elements of any dtype that is not made of other variables."""
    kind = g.pick(['plain', 'plain', 'plain', 'unit', 'rotation', 'translation', 'affine'])
    if kind == 'plain':
        return gen_variable(g, dims, shape)
    if kind == 'unit':
        dtype = g.pick(['float64', 'float32', 'int64', 'int32', 'bool'])
        a = draw_numbers(g, shape, dtype)
        return var(dims, a, unit=g.pick(UNITS), variances=np.abs(a) if dtype[0] == 'f' and g.boolean(0.3) else None)
    if kind == 'rotation':
        a = gen_quaternion(g, shape)
        return sc.spatial.rotations(dims=dims, values=a) if shape else sc.spatial.rotation(value=a)
    if kind == 'translation':
        a = draw_numbers(g, (*shape, 3), 'float64')
        return sc.spatial.translations(dims=dims, values=a, unit='m') if shape else \
            sc.spatial.translation(value=a, unit='m')
    a = np.zeros((*shape, 4, 4))
    a[..., :3, :] = draw_numbers(g, (*shape, 3, 4), 'float64')
    a[..., 3, 3] = 1
    return sc.spatial.affine_transforms(dims=dims, values=a, unit='m') if shape else \
        sc.spatial.affine_transform(value=a, unit='m')


def gen_events(g, n):
    """A table, or column, of n events."""
    kind = g.pick(['variable', 'array', 'array', 'dataset'])
    t = gen_leaf(g, ['event'], (n,))
    if kind == 'variable':
        return t
    coords = {k: gen_leaf(g, ['event'], (n,)) for k in g.subset(['x', 'y'], 0.6)}
    masks = {'m': var(['event'], draw_numbers(g, (n,), 'bool'), unit=None)} if kind == 'array' and g.boolean(0.3) else {}
    if kind == 'array':
        out = sc.DataArray(t, coords=coords, masks=masks, name=g.pick(['', 'events']))
    else:
        out = sc.Dataset({'a': t, 'b': gen_leaf(g, ['event'], (n,))}, coords=coords)
    for k in coords:
        if g.boolean(0.2):
            out.coords.set_aligned(k, False)
    return out


def gen_binned(g, dims, shape):
    """Bins in any order, with unused events between them."""
    count = int(np.prod(shape, dtype=int))
    begin, end, at = np.zeros(count, dtype='int64'), np.zeros(count, dtype='int64'), g.integer(0, 2)
    gaps = g.boolean()
    for k in g.permutation(range(count)):
        n = g.integer(0, 3)
        begin[k], end[k] = at, at + n
        at += n + (g.integer(0, 3) if gaps else 0)
    events = gen_events(g, at + g.integer(0, 4 if gaps else 0))
    return sc.bins(data=events, dim='event', begin=var(dims, begin.reshape(shape), unit=None, dtype='int64'),
                   end=var(dims, end.reshape(shape), unit=None, dtype='int64'))


def gen_nested(g, dims, shape):
    """Elements that are variables, data arrays or datasets."""
    make = {'variable': lambda: gen_leaf(g, *small(g)), 'array': lambda: gen_array(g, *small(g), depth=2),
            'dataset': lambda: gen_dataset(g, *small(g), depth=2)}[g.pick(['variable', 'array', 'dataset'])]
    if not shape:
        return sc.scalar(make())
    n = int(np.prod(shape, dtype=int))
    flat = sc.concat([sc.scalar(make()) for _ in range(n + 1)], 'all')['all', :n]
    return flat.fold('all', sizes=dict(zip(dims, shape, strict=True)))


def small(g):
    shape = draw_shape(g, 2)[:2]
    return dims_for(shape), shape


def gen_column(g, dims, shape, depth, binned=True):
    kind = g.pick(['leaf', 'leaf', 'leaf', 'nested'] + ['binned'] * binned) if depth < 2 else 'leaf'
    if kind == 'nested' and np.prod(shape, dtype=int) > 6:
        kind = 'leaf'
    v = {'leaf': gen_leaf, 'binned': gen_binned, 'nested': gen_nested}[kind](g, dims, shape)
    return v


def layout(g, dims, shape, make):
    """make(dims, shape), possibly as a slice or transpose of something larger."""
    how = g.pick(['plain', 'plain', 'slice', 'transpose', 'broadcast', 'step'])
    if not dims or how == 'plain':
        return make(dims, shape)
    i = g.draw(len(dims) - 1)
    if how == 'slice':
        before, after = g.draw(2), g.draw(2)
        s = tuple(n + before + after if k == i else n for k, n in enumerate(shape))
        return make(dims, s)[dims[i], before:before + shape[i]]
    if how == 'step':
        s = tuple(n * 2 if k == i else n for k, n in enumerate(shape))
        try:
            return make(dims, s)[dims[i], ::2]
        except REFUSED:
            return make(dims, shape)
    order = g.permutation(range(len(dims)))
    if how == 'transpose':
        v = make([dims[k] for k in order], tuple(shape[k] for k in order))
        return v.transpose(dims)
    v = make([d for k, d in enumerate(dims) if k != i], tuple(n for k, n in enumerate(shape) if k != i))
    try:
        return sc.broadcast(v, sizes=dict(zip(dims, shape, strict=True)))
    except REFUSED:
        return make(dims, shape)


def gen_any_variable(g, dims, shape, depth=0):
    return layout(g, dims, shape, lambda d, s: gen_column(g, d, s, depth))


def add_coords(g, x, dims, shape, depth):
    for k in g.subset(KEYS, 0.1):
        d = g.subset(dims, 0.6)
        s = [dict(zip(dims, shape, strict=True))[e] for e in d]
        if s and g.boolean(0.3):
            s[0] += 1
        x.coords[k] = layout(g, d, tuple(s), lambda d, s: gen_column(g, d, s, depth + 1, binned=False))
        if g.boolean(0.3):
            x.coords.set_aligned(k, False)


def add_masks(g, x, dims, shape):
    for k in g.subset(KEYS, 0.04):
        d = g.subset(dims, 0.6)
        x.masks[k] = layout(g, d, tuple(dict(zip(dims, shape, strict=True))[e] for e in d),
                            lambda d, s: var(d, draw_numbers(g, s, 'bool'), unit=None))


def gen_array(g, dims, shape, depth=0):
    da = sc.DataArray(gen_any_variable(g, dims, shape, depth), name=g.pick(['', 'name', 'a/b', 'ä']))
    add_coords(g, da, dims, shape, depth)
    add_masks(g, da, dims, shape)
    return da


def gen_dataset(g, dims, shape, depth=0):
    names = g.subset(KEYS, 0.1)
    if not names:
        names = ['only']
    ds = sc.Dataset({k: gen_any_variable(g, dims, shape, depth) for k in names})
    add_coords(g, ds, dims, shape, depth)
    for k in names:
        if g.boolean(0.3):
            add_masks(g, ds[k], dims, shape)
    return ds


def gen_plain(g):
    """An object that is not scipp's."""
    kind = g.draw(11)
    n = g.integer(-5, 10**6)
    return [n, float(n) / 3, g.boolean(), g.pick(['', 'text', 'ä/b', 'x' * 50]), g.pick([b'raw', b'a\0b']), np.int64(n),
            np.int32(n), np.float32(n / 3), np.float64(n / 7), np.bool_(g.boolean()), np.uint64(abs(n)),
            np.uint32(abs(n))][kind]


def gen_group(g, depth=0):
    out = {}
    for k in g.subset(KEYS, 0.15):
        kind = g.pick(['thing', 'thing', 'plain', 'numpy', 'group'])
        if kind == 'group':
            out[k] = gen_group(g, depth + 1) if depth < 2 else sc.DataGroup()
        elif kind == 'plain':
            out[k] = gen_plain(g)
        elif kind == 'numpy':
            out[k] = draw_numbers(g, (g.integer(1, 3), *draw_shape(g, 2)[:2]), g.pick(['float64', 'int64', 'bool', 'int32', 'float32', 'uint8']))
        else:
            out[k] = gen_thing(g, 1)
    return sc.DataGroup(out)


def gen_thing(g, depth=0):
    dims, shape = small(g)
    return {'variable': gen_any_variable, 'array': gen_array, 'dataset': gen_dataset}[
        g.pick(['variable', 'array', 'array', 'dataset'])](g, dims, shape, depth)


def same(path, a, b):
    """None, or where the two differ."""
    if type(a) is not type(b):
        return f'{path}: type {type(a)} {type(b)}'
    if isinstance(a, (sc.DataGroup, dict)):
        if list(a) != list(b):
            return f'{path}: keys {list(a)} {list(b)}'
        return next((r for k in a if (r := same(f'{path}[{k}]', a[k], b[k]))), None)
    if isinstance(a, np.ndarray):
        ok = a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
        return None if ok else f'{path}: {a} {b}'
    if isinstance(a, sc.Variable):
        if a.dims != b.dims or a.shape != b.shape or a.unit != b.unit or a.dtype != b.dtype:
            return f'{path}: {a.sizes} {a.unit} {a.dtype}, {b.sizes} {b.unit} {b.dtype}'
        if a.aligned != b.aligned:
            return f'{path}: aligned {a.aligned} {b.aligned}'
        if a.bins is not None:
            ca, cb = a.bins.constituents, b.bins.constituents
            if ca['dim'] != cb['dim']:
                return f'{path}: dim of events'
            if not sc.identical(a.bins.size(), b.bins.size()):
                return f'{path}: sizes of bins'
            return same(f'{path}.events', a.copy().bins.constituents['data'], b.copy().bins.constituents['data'])
        if a.ndim == 0 and isinstance(a.value, (sc.Variable, sc.DataArray, sc.Dataset)):
            return same(f'{path}.value', a.value, b.value)
        if str(a.dtype) in ('Variable', 'DataArray', 'Dataset'):
            return next((r for k, (p, q) in enumerate(zip(a.values, b.values, strict=True))
                         if (r := same(f'{path}.values[{k}]', p, q))), None)
        return None if sc.identical(a, b, equal_nan=True) else f'{path}: {show(a)} {show(b)}'
    if isinstance(a, sc.Dataset):
        if list(a) != list(b) or set(a.coords) != set(b.coords):
            return f'{path}: keys {list(a)} {list(b)} {list(a.coords)} {list(b.coords)}'
        if dict(a.sizes) != dict(b.sizes):
            return f'{path}: sizes {a.sizes} {b.sizes}'
        for k in a.coords:
            if r := same(f'{path}.coords[{k}]', a.coords[k], b.coords[k]):
                return r
        return next((r for k in a if (r := same(f'{path}[{k}]', a[k], b[k]))), None)
    if isinstance(a, sc.DataArray):
        if a.name != b.name:
            return f'{path}: name {a.name} {b.name}'
        if r := same(f'{path}.data', a.data, b.data):
            return r
        for d, e, what in ((a.coords, b.coords, 'coords'), (a.masks, b.masks, 'masks')):
            if set(d) != set(e):
                return f'{path}.{what}: {list(d)} {list(e)}'
            for k in d:
                if r := same(f'{path}.{what}[{k}]', d[k], e[k]):
                    return r
        return None
    return None if a == b else f'{path}: {a!r} {b!r}'


def size_of(x):
    if isinstance(x, (sc.Variable, sc.DataArray)):
        n = int(np.prod(x.shape, dtype=int))
        return n if n != 1 or x.ndim or isinstance(x, sc.Variable) else 1 + len(x.coords)
    return len(x) + (len(x.coords) if isinstance(x, sc.Dataset) else 0)


def through(g, x):
    """x, saved and loaded again in one of the ways there are."""
    how = g.pick(['bytes', 'serialize', 'group', 'nested group', 'path'])
    g.note(how)
    if how == 'serialize':
        return deserialize(*serialize(x))
    if how == 'bytes':
        f = BytesIO()
        sc.io.save_hdf5(x, f)
        return sc.io.load_hdf5(BytesIO(f.getvalue()))
    if how == 'path':
        fd, name = tempfile.mkstemp(suffix='.h5')
        os.close(fd)
        try:
            if isinstance(x, sc.DataGroup) or not g.boolean():
                sc.io.save_hdf5(x, name)
            else:
                x.save_hdf5(name)
            return sc.io.load_hdf5(name)
        finally:
            os.unlink(name)
    f = h5py.File(BytesIO(), 'w')
    where = f if how == 'group' else f.create_group('outer').create_group('inner')
    sc.io.save_hdf5(x, where)
    back = f.reopened()
    return sc.io.load_hdf5(back if how == 'group' else back['outer/inner'])


def round_trip(make):
    def law(g):
        x = make(g)
        g.note(show(x))
        g.nontrivial(size_of(x) > 1)
        before = x.copy()
        y = through(g, x)
        wrong = same('', x, y)
        check('file', wrong is None, wrong, lambda: show(y))
        check('file: input changed', same('', x, before) is None)
    return law


def variables(g):
    dims, shape = small(g)
    return gen_any_variable(g, dims, shape)


def arrays(g):
    return gen_array(g, *small(g))


def datasets(g):
    return gen_dataset(g, *small(g))


def many(g):
    """Several objects in one file, some of which are linked or replaced, do not disturb each other."""
    f = h5py.File(BytesIO(), 'w')
    things = {}
    for k in range(g.integer(2, 5)):
        x = gen_thing(g, 1) if g.boolean(0.7) else gen_group(g, 1)
        things[f'g{k}'] = x
        sc.io.save_hdf5(x, f.create_group(f'g{k}'))
        if things and g.boolean(0.2):
            gone = g.pick(sorted(things))
            del f[gone], things[gone]
    back = f.reopened()
    g.nontrivial(len(things) > 1)
    g.note(str({k: show(x) for k, x in things.items()}))
    for k in g.permutation(sorted(things)):
        wrong = same(k, things[k], sc.io.load_hdf5(back[k]))
        check('many', wrong is None, wrong)


LAWS = {
    'variables': (2500, 60000, round_trip(variables)),
    'arrays': (1500, 40000, round_trip(arrays)),
    'datasets': (1000, 25000, round_trip(datasets)),
    'groups': (800, 20000, round_trip(gen_group)),
    'many': (300, 8000, many),
}

if __name__ == '__main__':
    main('C57', RULE, LAWS)
