# interpreter: _scipp
"""C60: identical, assert_identical and assert_allclose tell objects apart exactly if they differ."""
import C57
from C58 import numbers
from pbt import Discard, check, main
from real import arr, np, sc, show, var

from scipp.testing import assert_allclose, assert_identical

RULE = 'a case counts if the objects have at least two elements'


def has_nan(x):
    """Whether identical is to be asked to treat NaN as equal."""
    if isinstance(x, sc.Variable):
        if x.bins is not None:
            return has_nan(x.bins.constituents['data'])
        if x.dtype in (sc.DType.float64, sc.DType.float32):
            return bool(np.isnan(arr(x)).any()) or (x.variances is not None if x.ndim else x.variance is not None) and \
                bool(np.isnan(x.variances if x.ndim else x.variance).any())
        return str(x.dtype) not in ('int64', 'int32', 'bool', 'string')
    parts = [*x.coords.values()]
    parts += [i.data for i in x.values()] if isinstance(x, sc.Dataset) else [x.data]
    return any(has_nan(p) for p in parts)


def changed_variable(g, v):
    """(copy of v that may differ, what differs or False)"""
    v = v.copy()
    kinds = ['unit', 'rename', 'transpose', 'dtype', 'value', 'variance', 'no variance', 'shape', 'none', 'none']
    kind = g.pick(kinds)
    if v.bins is not None:
        kind = g.pick(['events', 'moved', 'none', 'rename', 'transpose'])
    if kind == 'unit':
        if str(v.dtype) in ('bool', 'string', 'datetime64') or v.unit is None:
            return v, False
        v.unit = 'kg' if v.unit != sc.Unit('kg') else 'm'
        return v, kind
    if kind == 'rename':
        if not v.dims:
            return v, False
        return v.rename_dims({v.dims[0]: 'renamed'}), kind
    if kind == 'transpose':
        return v.transpose(), kind if len(v.dims) > 1 else False
    if kind == 'dtype':
        if str(v.dtype) not in ('float64', 'int64'):
            return v, False
        return v.to(dtype={'float64': 'float32', 'int64': 'int32'}[str(v.dtype)]), kind
    if kind == 'shape':
        if not v.dims or v.shape[0] < 1:
            return v, False
        return v[v.dims[0], :-1].copy(), kind
    if kind in ('value', 'variance'):
        if str(v.dtype) not in ('float64', 'float32', 'int64', 'int32', 'bool') or \
                int(np.prod(v.shape, dtype=int)) == 0:
            return v, False
        if kind == 'variance' and (v.variances if v.ndim else v.variance) is None:
            return v, False
        a = np.array(arr(v) if kind == 'value' else v.variances if v.ndim else v.variance)
        k = g.draw(a.size - 1)
        old = a.flat[k]
        a.flat[k] = (not old) if a.dtype.kind == 'b' else 3 if old == 0 or not np.isfinite(old) else -old
        if kind == 'value':
            if v.ndim:
                v.values = a
            else:
                v.value = a[()]
        elif v.ndim:
            v.variances = a
        else:
            v.variance = a[()]
        return v, kind
    if kind == 'no variance':
        if str(v.dtype) not in ('float64', 'float32'):
            return v, False
        had = (v.variances if v.ndim else v.variance) is not None
        if had:
            return sc.values(v), 'variances'
        if v.ndim:
            v.variances = np.ones(v.shape)
        else:
            v.variance = 1.0
        return v, 'variances'
    if kind == 'moved':  # the same events, in other bins
        v = v.copy()
        c = v.bins.constituents
        sizes = arr(v.bins.size()).ravel().copy()
        k = [i for i in range(len(sizes) - 1) if sizes[i] > 0]
        if not k:
            return v, False
        k = g.pick(k)
        sizes[k] -= 1
        sizes[k + 1] += 1
        end = np.cumsum(sizes)
        order = v.dims
        return sc.bins(data=c['data'], dim=c['dim'], begin=var(v.sizes, (end - sizes).reshape(v.shape), unit=None),
                       end=var(v.sizes, end.reshape(v.shape), unit=None)).transpose(order), kind
    if kind == 'events':
        if not int(np.prod(v.shape, dtype=int)):
            return v, False
        v = v.copy()
        c = v.bins.constituents
        data, diff = changed(g, c['data'], keep_dims=True)
        if data is None:
            return v, False
        return sc.bins(data=data, dim=c['dim'], begin=c['begin'], end=c['end']), diff
    return v, False


def changed(g, x, keep_dims=False):
    """(copy of x that may differ, what differs or False)"""
    if isinstance(x, sc.Variable):
        v, diff = changed_variable(g, x)
        if keep_dims and v.dims != x.dims or keep_dims and v.shape != x.shape:
            return None, False
        return v, diff
    kind = g.pick(['data', 'coord', 'flag', 'drop', 'add', 'mask', 'order'])
    y = x.copy()
    if isinstance(x, sc.Dataset):
        name = g.pick(list(x)) if len(x) else None
        if name is None and kind in ('data', 'mask'):
            return y, False
        if kind in ('data', 'mask'):
            item = sc.DataArray(x[name].data.copy(), masks={k: m.copy() for k, m in x[name].masks.items()})
            item, diff = changed(g, item, keep_dims=True)
            if item is None or dict(item.sizes) != dict(x.sizes) or set(item.coords):
                return None, False
            y[name] = item
            return y, diff
        if kind == 'drop' and g.boolean() and len(x) > 1:
            del y[name]
            return y, kind
    if kind == 'data':
        if isinstance(x, sc.Dataset):
            return y, False
        v, diff = changed_variable(g, x.data)
        if set(v.dims) != set(x.dims) or dict(v.sizes) != dict(x.sizes) or v.dims != x.dims and keep_dims:
            return None, False
        if diff in ('unit', 'dtype', 'variances'):
            diff = f'{diff} of the data'
        return sc.DataArray(v, coords={k: c for k, c in y.coords.items()}, masks={k: c for k, c in y.masks.items()}), diff
    if kind in ('coord', 'flag', 'drop', 'order'):
        if not len(x.coords):
            return y, False
        k = g.pick(list(x.coords))
        if kind == 'flag':
            y.coords.set_aligned(k, not x.coords[k].aligned)
            return y, kind
        if kind == 'drop':
            del y.coords[k]
            return y, kind
        if kind == 'order':  # the order of a dict does not matter
            c = y.coords.pop(k)
            y.coords[k] = c
            y.coords.set_aligned(k, x.coords[k].aligned)
            return y, False
        v, diff = changed_variable(g, x.coords[k])
        if dict(v.sizes) != dict(x.coords[k].sizes):
            return None, False
        y.coords[k] = v
        y.coords.set_aligned(k, x.coords[k].aligned)
        return y, diff
    if kind == 'add':
        y.coords['added'] = sc.scalar(1.0)
        return y, kind
    if isinstance(x, sc.DataArray):
        if not len(x.masks):
            y.masks['added'] = sc.scalar(False)
            return y, kind
        k = g.pick(list(x.masks))
        v, diff = changed_variable(g, x.masks[k])
        if dict(v.sizes) != dict(x.masks[k].sizes):
            return None, False
        y.masks[k] = v
        return y, diff
    return y, False


def nested(x):
    if isinstance(x, sc.Variable):
        return str(x.dtype) in ('Variable', 'DataArray', 'Dataset') or x.bins is not None and nested(
            x.bins.constituents['data'])
    parts = [*x.coords.values()]
    parts += [i.data for i in x.values()] if isinstance(x, sc.Dataset) else [x.data]
    return any(nested(p) for p in parts)


def without_items(x):
    """Whether there is a dataset without items but with coords in x."""
    if isinstance(x, sc.Variable):
        return x.bins is not None and without_items(x.bins.constituents['data'])
    if isinstance(x, sc.Dataset):
        return not len(x) or any(without_items(i.data) for i in x.values())
    return without_items(x.data)


def bins_of_datasets(x):
    if isinstance(x, sc.Variable):
        return x.bins is not None and isinstance(x.bins.constituents['data'], sc.Dataset)
    parts = [*x.coords.values(), *x.masks.values()] if isinstance(x, sc.DataArray) else [*x.coords.values(), *x.values()]
    return any(bins_of_datasets(p) for p in parts) or isinstance(x, sc.DataArray) and bins_of_datasets(x.data)


def not_noticed(function, differs, x):
    """Name of the failure if function accepts x and something that differs: known ones by what they do not look at."""
    if differs in ('transpose', 'moved', 'unit of the data', 'dtype of the data', 'variances of the data'):
        return f'{function} ignores {differs}'
    if differs and without_items(x):
        return f'{function} ignores datasets without items'
    return f'{function}: passed'


def asserts(function, differs, x, y, *args, **kwargs):
    """function raises AssertionError exactly if x and y differ."""
    a, b = args or (x, y)
    try:
        function(a, b, **kwargs)
    except AssertionError:
        check(f'{function.__name__}: raised', differs)
    except (AttributeError, TypeError) as e:
        if isinstance(e, AttributeError) and bins_of_datasets(x):
            check(f'{function.__name__} fails for bins of datasets', False, repr(e))
        if isinstance(e, TypeError) and differs == 'variances of the data':
            check(f'{function.__name__} fails for {differs}', False, repr(e))
        raise
    else:
        check(not_noticed(function.__name__, differs, x), not differs)


def equality(g):
    """Two objects are identical exactly if nothing about them differs; assert_identical raises exactly if they are not."""
    x = C57.gen_thing(g)
    if nested(x):
        raise Discard
    if isinstance(x, sc.Dataset) and g.boolean(0.1):
        x = sc.Dataset(coords=x.coords)
    y, differs = changed(g, x)
    if y is None:
        raise Discard
    g.note(f'{show(x)}\n{show(y)}\ndiffers: {differs}')
    g.nontrivial(C57.size_of(x) > 1)
    if g.boolean():
        x, y = y, x
    check('identical', sc.identical(x, y, equal_nan=True) == (not differs))
    check('identical: itself', sc.identical(x, x, equal_nan=True) and sc.identical(x, x.copy(), equal_nan=True))
    if not has_nan(x) and not has_nan(y):
        check('identical: without NaN', sc.identical(x, y) == (not differs))
    asserts(assert_identical, differs, x, y)
    group = g.boolean(0.3)
    if group:
        a, b = sc.DataGroup({'i': x, 'j': 1}), sc.DataGroup({'j': 1, 'i': y})
        check('identical: groups', sc.identical(a, b, equal_nan=True) == (not differs))
        asserts(assert_identical, differs, x, y, a, b)


def closeness(g):
    """assert_allclose raises exactly if an element differs by more than the tolerance or anything else differs."""
    shape = [g.integer(1, 3) for _ in range(g.draw(2))]
    dims = ['x', 'y'][:len(shape)]
    a = numbers(g, shape, 'float64', -40, 40)
    b = a.copy()
    k = g.draw(max(a.size - 1, 0))
    d = g.pick([0.0, 0.01, 0.1, 1.0])
    b.flat[k] += d
    rtol = g.pick([None, 0.001, 0.05])
    atol = g.pick([None, 0.05, 0.5])
    variances = g.boolean(0.3)
    va, vb = (np.abs(a) + 1, np.abs(a) + 1) if variances else (None, None)
    dv = g.pick([0.0, 1.0]) if variances else 0.0
    if variances:
        vb = vb + dv
    x, y = var(dict(zip(dims, shape, strict=True)), a, unit='m', variances=va), \
        var(dict(zip(dims, shape, strict=True)), b, unit='m', variances=vb)
    array = g.boolean(0.4)
    if array:
        x, y = sc.DataArray(x, coords={'c': sc.scalar(1.0)}), sc.DataArray(y, coords={'c': sc.scalar(1.0)})
    kw = {}
    if rtol is not None:
        kw['rtol'] = sc.scalar(rtol)
    if atol is not None:
        kw['atol'] = sc.scalar(atol * 1000, unit='mm') if g.boolean() else sc.scalar(atol, unit='m')
    other = g.pick(['none', 'none', 'none', 'unit', 'coord', 'variances', 'transpose'])
    differs = other if other != 'none' else False
    if array and other in ('unit', 'variances'):
        differs = f'{other} of the data'
    if other == 'unit':
        y.unit = 's'
    elif other == 'coord':
        if not array:
            return
        y.coords['c'] = sc.scalar(2.0)
    elif other == 'variances':
        if variances:
            y = sc.values(y)
        else:
            y = y.copy()
            if y.ndim:
                y.variances = np.ones(shape)
            else:
                y.variance = 1.0
    elif other == 'transpose':
        differs = len(dims) > 1 and other
        y = y.transpose()
    g.note(f'{show(x)}\n{show(y)}\n{kw} {other}')
    g.nontrivial(a.size > 1)
    limit = (atol or 0.0) + (1e-7 if rtol is None else rtol) * abs(b.flat[k])
    if abs(d - limit) < 1e-9:
        raise Discard
    far = d > limit
    if variances:
        limits = (atol or 0.0) + (1e-7 if rtol is None else rtol) * vb
        if np.any(np.abs(limits - dv) < 1e-9):
            raise Discard
        far = far or np.any(dv > limits)
    asserts(assert_allclose, differs or ('value' if far else False), x, y, **kw)


LAWS = {
    'equality': (12000, 250000, equality),
    'closeness': (3000, 80000, closeness),
}

if __name__ == '__main__':
    main('C60', RULE, LAWS)
