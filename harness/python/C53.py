# interpreter: _scipp
"""C53: indexing in Python, by position, by condition and by label, selects exactly the elements named."""
from pbt import Discard, check, main
from real import ERRORS, arr, at, content, indices, np, sc, show, var

RULE = ('a case counts if the object has at least two elements and an index was applied, '
        'other than one that selects everything')

NUMBERS = ['float64', 'float32', 'int64', 'int32', 'bool', 'datetime64', 'string']


def fresh(g, dims, shape, dtype=None, variances=True):
    """A variable with distinct values (if its type allows), made by one of several layouts."""
    dtype = dtype or g.pick(NUMBERS)
    n = int(np.prod(shape, dtype=int))
    start = g.draw(20)
    if dtype == 'string':
        if not dims:
            return sc.scalar(f's{start}')
        v = sc.array(dims=['all'], values=[f's{start + k}' for k in range(n + 1)])['all', :n]
        return v.fold('all', sizes=dict(zip(dims, shape, strict=True)))
    if dtype == 'bool':
        return var(dims, np.array([g.boolean() for _ in range(n)], dtype=bool).reshape(shape), unit=None)
    v = (start + np.arange(n)).reshape(shape)
    if dtype == 'datetime64':
        return var(dims, np.datetime64('2024-01-01', 's') + v, unit='s')
    v = v.astype(dtype)
    return var(dims, v, unit=g.pick(['m', 'one', None]) if 'int' in dtype else 'm',
               variances=v + 0.5 if variances and dtype.startswith('float') and g.boolean(0.4) else None)


def layout(g, v):
    """The same content in another layout of memory."""
    kind = g.draw(3)
    if kind == 1 and v.ndim > 1:
        order = g.permutation(v.dims)
        return v.transpose(order).copy().transpose(v.dims)
    if kind == 2 and v.ndim > 0:
        d = g.pick(v.dims)
        if v.sizes[d] > 0:
            return sc.concat([v[d, :1], v, v[d, :1]], d)[d, 1:-1]
    if kind == 3 and v.ndim > 0:
        d = g.pick(v.dims)
        if v.sizes[d] > 0:
            pairs = sc.concat([v, v], 'pair')
            return pairs['pair', g.draw(1)].transpose(v.dims)
    return v


def gen_binned(g, dims, shape):
    n = g.length(0, 12)
    t = sc.DataArray(sc.arange('event', float(n), unit='counts'), coords={'id': sc.arange('event', n)})
    volume = int(np.prod(shape, dtype=int))
    cuts = sorted(g.draw(n) for _ in range(2 * volume))
    pairs = g.permutation([(cuts[2 * k], cuts[2 * k + 1]) for k in range(volume)])
    begin = np.array([p[0] for p in pairs], dtype='int64').reshape(shape)
    end = np.array([p[1] for p in pairs], dtype='int64').reshape(shape)
    return sc.bins(data=t, dim='event', begin=var(dims, begin, unit=None, dtype='int64'),
                   end=var(dims, end, unit=None, dtype='int64'))


def gen_sizes(g, low=0, least=0):
    dims = g.permutation(['x', 'y', 'z'])[: g.integer(least, 3)]
    return {d: g.length(low, 5) for d in dims}


def metadata(g, da, edges=True):
    for k in range(g.draw(3)):
        dims = g.permutation(g.subset(da.dims, 0.6))
        shape = [da.sizes[d] for d in dims]
        if edges and dims and g.boolean(0.4):
            shape[g.draw(len(dims) - 1)] += 1
        name = g.pick([*dims, f'c{k}']) if len(dims) == 1 else f'c{k}'
        da.coords[name] = layout(g, fresh(g, dims, tuple(shape)))
        if g.boolean(0.2):
            da.coords.set_aligned(name, False)
    for k in range(g.draw(2)):
        if not hasattr(da, 'masks'):
            break
        dims = g.permutation(g.subset(da.dims, 0.6))
        da.masks[f'm{k}'] = layout(g, fresh(g, dims, tuple(da.sizes[d] for d in dims), 'bool'))
    return da


def gen_object(g, low=0, least=0, edges=True, kinds=('variable', 'array', 'binned', 'dataset', 'binned variable')):
    sizes = gen_sizes(g, low, least)
    dims, shape = tuple(sizes), tuple(sizes.values())
    kind = g.pick(kinds)
    if kind == 'variable':
        return layout(g, fresh(g, dims, shape))
    if kind == 'binned variable':
        return gen_binned(g, dims, shape)
    if kind == 'dataset':
        items = {}
        for k in range(g.integer(1, 3)):
            data = gen_binned(g, dims, shape) if g.boolean(0.2) else layout(g, fresh(g, dims, shape))
            items[f'd{k}'] = sc.DataArray(data)
        ds = sc.Dataset(items)
        for k in range(g.draw(1)):
            some = g.permutation(g.subset(dims, 0.6))
            ds['d0'].masks['m'] = fresh(g, some, tuple(sizes[d] for d in some), 'bool')
        return metadata(g, ds, edges)
    data = gen_binned(g, dims, shape) if kind == 'binned' else layout(g, fresh(g, dims, shape))
    return metadata(g, sc.DataArray(data, name='name'), edges)


# --- the model: plain arrays -------------------------------------------------------------------

def plain(v):
    """A variable as (dims, values, variances, unit, dtype)."""
    if v.bins is not None:
        out = np.empty(v.shape, dtype=object)
        for where in indices(v.sizes):
            c = content(v, where)
            ids = c.coords['id'].values if isinstance(c, sc.DataArray) else c.values
            out[tuple(where.values())] = (tuple(ids), tuple(c.values))
        return v.dims, out, None, None, v.dtype
    variances = None if v.variances is None else np.array(v.variance if v.ndim == 0 else v.variances)
    return v.dims, np.array(arr(v)), variances, v.unit, v.dtype


def same(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return all(x == y for x, y in zip(a.ravel(), b.ravel(), strict=True))
    return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))


def equal(p, q):
    return p[0] == q[0] and same(p[1], q[1]) and (p[2] is None) == (q[2] is None) and \
        (p[2] is None or same(p[2], q[2])) and p[3] == q[3] and p[4] == q[4]


def parts(x):
    """All variables of an object, by a key that says where they are."""
    if isinstance(x, sc.Variable):
        return {('data', '', True): plain(x)}
    out = {('coord', k, c.aligned): plain(c) for k, c in x.coords.items()}
    if isinstance(x, sc.Dataset):
        for name, item in x.items():
            out['data', name, True] = plain(item.data)
            for k, m in item.masks.items():
                out['mask', f'{name}/{k}', True] = plain(m)
        return out
    out['data', '', True] = plain(x.data)
    for k, m in x.masks.items():
        out['mask', k, True] = plain(m)
    return out


def take(p, dim, which, drop):
    dims, values, variances, *rest = p
    axis = dims.index(dim)

    def pick(a):
        a = np.take(a, which, axis=axis)
        return a.squeeze(axis) if drop else a

    return (tuple(d for d in dims if not (drop and d == dim)), pick(values),
            None if variances is None else pick(variances), *rest)


def expected(x, dim, size, which, kind):
    """What indexing must give: kind is point, range or list; which lists the positions."""
    out = {}
    for (part, name, aligned), p in parts(x).items():
        if dim not in p[0]:
            out[part, name, aligned] = p
            continue
        n = p[1].shape[p[0].index(dim)]
        if n == size:
            if part == 'coord' and kind == 'point':
                # a coord of the dim that is gone does not take part in matching any more
                aligned = False if p[0] == (dim,) else (aligned if p[0][-1] != dim and name != dim else None)
            out[part, name, aligned] = take(p, dim, which, kind == 'point')
        elif kind != 'list':
            first = which[0] if len(which) else None
            if first is None:
                out[part, name, aligned] = None
                continue
            if kind == 'point':
                aligned = False if len(p[0]) == 1 else None
            out[part, name, aligned] = take(p, dim, [*which, which[-1] + 1], False)
    return out


def compare(label, got, want, *what):
    got = dict(got)
    for (part, name, aligned), p in want.items():
        keys = [k for k in got if k[:2] == (part, name)]
        check(f'{label} [{part} {"lost" if not keys else ""}]', len(keys) == 1, part, name, *what)
        q = got.pop(keys[0])
        if p is not None:
            check(f'{label} [{part}]', equal(q, p), part, name, '\nexpected', p, '\ngot', q, *what)
        if aligned is not None:
            check(f'{label} [alignment]', keys[0][2] == aligned, part, name, 'expected', aligned, *what)
    check(f'{label} [extra]', not got, list(got), *what)


def gen_position(g, size):
    """An index, and the positions it names; None if it is not a valid one."""
    kind = g.pick(['point', 'range', 'step', 'list', 'condition'])
    if kind == 'point':
        i = g.integer(-size - 1, size)
        return i, kind, ([i % size] if -size <= i < size else None)
    if kind in ('range', 'step'):
        bound = [None if g.boolean(0.25) else g.integer(-size - 2, size + 2) for _ in range(2)]
        index = slice(*bound) if kind == 'range' else slice(*bound, g.pick([1, 2, 3, -1]))
        which = list(range(size))[index]
        if kind == 'step' and index.step == 1:
            kind = 'range'
        return index, kind, (None if kind == 'step' and index.step < 0 else which)
    if kind == 'list':
        which = [g.integer(-size, size - 1) for _ in range(g.length(0, 6))] if size else []
        if g.boolean(0.1):
            return [*which, size], kind, None
        if g.boolean(0.1):
            return [-size - 1, *which], kind, None
        return which, kind, [i % size for i in which]
    mask = [g.boolean(0.5) for _ in range(size)]
    return np.array(mask, dtype=bool), kind, [k for k, m in enumerate(mask) if m]


def dims_of(x):
    return dict(x.sizes)


def edges_along(x, dim, size):
    return any(dim in p[0] and p[1].shape[p[0].index(dim)] == size + 1 for p in parts(x).values())


def positions(g):
    """Every form of positional index names the elements it names in a list."""
    x = gen_object(g, least=1)
    sizes = dims_of(x)
    dim = g.pick(list(sizes))
    size = sizes[dim]
    index, kind, which = gen_position(g, size)
    implicit = len(sizes) == 1 and g.boolean(0.5)
    g.note(f'{show(x)}\n{dim} {index}{" implicit" if implicit else ""}')
    before = parts(x)
    if kind == 'condition':
        key = sc.array(dims=[dim], values=index)
    else:
        key = index if implicit else (dim, index)
    g.nontrivial(len(before['data', next(n for p, n, _ in before if p == 'data'), True][1].ravel()) > 1
                 and which != list(range(size)))
    try:
        got = x[key]
    except ERRORS as e:
        wrong = which is None or (kind == 'step' and edges_along(x, dim, size))
        check('positions: refused', wrong, kind, repr(e))
        check('positions: input changed by failure', list(before) == list(parts(x)))
        return
    check('positions: invalid index accepted', which is not None, kind, lambda: show(got))
    if kind == 'step' and edges_along(x, dim, size) and which:
        check('positions: edges with step', which == list(range(which[0], which[0] + len(which))), lambda: show(got))
    name = {'point': 'point', 'range': 'range', 'step': 'range'}.get(kind, 'list')
    compare('positions', parts(got), expected(x, dim, size, which, name), lambda: show(got))
    check('positions: type', type(got) is type(x))
    if isinstance(x, sc.DataArray):
        check('positions: name', got.name == x.name)
    compare('positions: input', parts(x), before)


def iteration(g):
    """1-D objects iterate over their elements; a Dataset and a dict of metadata over their names."""
    x = gen_object(g, least=1, kinds=['variable', 'array', 'binned', 'binned variable'])
    sizes = dims_of(x)
    dim = list(sizes)[0]
    g.note(show(x))
    check('iteration: len', len(x) == sizes[dim])
    if len(sizes) != 1:
        raise Discard
    g.nontrivial(sizes[dim] > 1)
    seen = list(x)
    check('iteration: count', len(seen) == sizes[dim])
    for i, item in enumerate(seen):
        compare('iteration', parts(item), parts(x[dim, i]))
    if isinstance(x, sc.Variable):
        return
    for d in (x.coords, x.masks):
        check('iteration: names', list(d) == list(d.keys()) and len(d) == len(list(d.values())))
        for k, v in d.items():
            check('iteration: item', k in d and sc.identical(d[k], v))
        check('iteration: absent', 'no such' not in d)


# --- labels ------------------------------------------------------------------------------------

def gen_labels(g, n, dtype):
    """n labels: sorted up or down, with repeats, or in any order; and all the values worth asking for."""
    grid = sorted(g.integer(0, 9) for _ in range(n)) if g.boolean(0.4) else \
        sorted(g.permutation(range(max(10, n)))[:n])
    order = g.pick(['up', 'up', 'down', 'any'])
    grid = grid[::-1] if order == 'down' else g.permutation(grid) if order == 'any' else grid
    return np.array(grid, dtype='int64'), order


def encode(k, dtype):
    """Number k, which may be a multiple of 1/2, as a label."""
    if dtype == 'string':
        return f'l{2 * k:03.0f}'
    if dtype == 'datetime64':
        return np.datetime64('2024-01-01', 's') + int(2 * k)
    return np.dtype(dtype).type(k if dtype.startswith('float') else 2 * k)


def label_var(k, dtype, unit):
    return sc.scalar(encode(k, dtype), unit=unit) if dtype != 'string' else sc.scalar(encode(k, dtype))


def with_labels(g, dtype):
    """An object with a coord for selection by label along one of its dims."""
    x = gen_object(g, least=1, edges=False, kinds=['array', 'binned', 'dataset'])
    dim = g.pick(list(x.sizes))
    n = x.sizes[dim]
    edges = g.boolean(0.4)
    grid, order = gen_labels(g, n + edges, dtype)
    unit = {'string': None, 'datetime64': 's'}.get(dtype, 'm')
    values = np.array([encode(k, dtype) for k in grid], dtype=str if dtype == 'string' and len(grid) else None)
    if len(grid) == 0:
        values = values.astype({'string': 'U1', 'datetime64': 'datetime64[s]'}.get(dtype, dtype))
    name = dim if g.boolean(0.7) else 'label'
    for k in [k for k in x.coords if k == name]:
        del x.coords[k]
    x.coords[name] = layout(g, sc.array(dims=[dim], values=values, unit=unit))
    return x, dim, name, grid, edges, order, unit


def sorted_up(a):
    return all(a[k] <= a[k + 1] for k in range(len(a) - 1))


def monotonic(a):
    up, down = sorted_up(a), sorted_up(a[::-1])
    return len(a) == 1 or up != down


def find(grid, edges, begin, end=None, point=False):
    """The positions a label or an interval names; None if it names none."""
    n = len(grid) - edges
    if point and not edges:
        which = [k for k in range(n) if grid[k] == begin]
        return which if len(which) == 1 else None
    if not monotonic(grid):
        return None
    down = len(grid) > 1 and not sorted_up(grid)
    sign = -1 if down else 1
    c = [sign * v for v in grid]
    b, e = (None if v is None else sign * v for v in (begin, end))
    if point:
        which = [k for k in range(n) if c[k] <= b < c[k + 1]]
        return which if which else None
    if edges:
        return [k for k in range(n) if (b is None or c[k + 1] > b) and (e is None or c[k] < e)]
    return [k for k in range(n) if (b is None or c[k] >= b) and (e is None or c[k] < e)]


def gen_label(g, grid):
    if len(grid) and g.boolean(0.6):
        return float(g.pick(list(grid)))
    return g.integer(-2, 21) / 2


def label_key(g, dtype, unit, name, grid, edges):
    point = g.boolean(0.5)
    begin = gen_label(g, grid)
    if point:
        return (name, label_var(begin, dtype, unit)), find(grid, edges, begin, point=True), True, begin, None
    end = gen_label(g, grid)
    if len(grid) > 1 and (begin > end) == sorted_up(grid) and g.boolean(0.8):
        begin, end = end, begin
    begin, end = (None if g.boolean(0.2) else v for v in (begin, end))
    bounds = [None if v is None else label_var(v, dtype, unit) for v in (begin, end)]
    if begin is None and end is None:
        return (name, slice(None)), None, False, begin, end
    return (name, slice(*bounds)), find(grid, edges, begin, end), False, begin, end


def contrary(grid, begin, end):
    """Is an interval empty or given in the order opposite to that of the labels?"""
    if begin is None or end is None:
        return False
    return begin == end or len(grid) < 2 or (begin > end) == sorted_up(grid)


def labels(g):
    """A label selects the element or bin it names, an interval all that are in it or overlap with it."""
    dtype = g.pick(['float64', 'float64', 'float32', 'int64', 'int32', 'datetime64', 'string'])
    x, dim, name, grid, edges, order, unit = with_labels(g, dtype)
    key, which, point, begin, end = label_key(g, dtype, unit, name, grid, edges)
    n = x.sizes[dim]
    g.note(f'{show(x)}\n{key} {grid} {order}')
    if begin is None and end is None:
        which, valid = list(range(n)), name == dim
    else:
        valid = which is not None and not (dtype == 'string' and (not point or edges))
    g.nontrivial(n > 1 and valid and which != list(range(n)))
    try:
        got = x[key]
    except ERRORS as e:
        check('labels: refused', not valid or contrary(grid, begin, end), repr(e))
        return
    check('labels: accepted', valid, lambda: show(got))
    if not point and contrary(grid, begin, end):
        check('labels: contrary interval', len(grid) - edges < 2 or got.sizes[dim] <= edges, lambda: show(got))
        return
    compare('labels', parts(got), expected(x, dim, n, which, 'point' if point else 'range'), lambda: show(got))


def label_units(g):
    """A label in another unit or of another dtype is never taken for a number in the unit of the coord."""
    x, dim, name, grid, edges, order, unit = with_labels(g, 'float64')
    begin = gen_label(g, grid)
    other = g.pick(['mm', 's', 'one', None])
    value = sc.scalar(begin, unit=other)
    key = g.pick([value, slice(value, None), slice(None, value),
                  slice(value, sc.scalar(begin + 1, unit='m')), slice(sc.scalar(begin - 1, unit='m'), value)])
    g.note(f'{show(x)} {key}')
    g.nontrivial(x.sizes[dim] > 1)
    try:
        got = x[name, key]
    except ERRORS:
        return
    check('label units: accepted', False, lambda: show(got))


# --- assignment --------------------------------------------------------------------------------

def assign_positions(g):
    """Assignment to an index changes the elements named to the values given, and nothing else."""
    x = gen_object(g, least=1, low=1, kinds=['variable', 'array'])
    v = x if isinstance(x, sc.Variable) else x.data
    if v.bins is not None:
        raise Discard
    sizes = dims_of(x)
    dim = g.pick(list(sizes))
    size = sizes[dim]
    while True:
        index, kind, which = gen_position(g, size)
        if kind not in ('list', 'condition'):
            break
    names = [d for d in v.dims if d != dim or kind != 'point']
    shape = [sizes[d] if d != dim else len(which or []) for d in names]
    form = g.pick(['numpy', 'variable', 'broadcast', 'data array', 'wrong shape'])
    if form == 'broadcast':
        keep = g.subset(names, 0.5)
        shape = [n for d, n in zip(names, shape, strict=True) if d in keep]
        names = keep
    if form == 'variable':
        order = g.permutation(names)
        shape = [dict(zip(names, shape, strict=True))[d] for d in order]
        names = order
    if form == 'wrong shape':
        names, shape = [*names, 'w'], [*shape, g.integer(0, 2)]
    new = fresh(g, names, tuple(shape), str(v.dtype) if str(v.dtype) != 'DType' else None)
    if v.unit is not None and str(v.dtype) not in ('datetime64', 'bool', 'string'):
        new.unit = v.unit
    elif str(v.dtype) in ('int64', 'int32'):
        new.unit = None
    if (v.variances is None) != (new.variances is None):
        new = sc.values(new) if v.variances is None else sc.array(
            dims=new.dims, values=new.values, variances=new.values + 1.0, unit=v.unit, dtype=v.dtype) if new.ndim \
            else sc.scalar(new.value, variance=new.value + 1.0, unit=v.unit, dtype=v.dtype)
    wrong_unit = g.boolean(0.1) and v.unit == 'm'
    if wrong_unit:
        new.unit = 's'
    g.note(f'{show(x)}\n{dim} {index} = {show(new)} ({form})')
    before = parts(x)
    model = [None if a is None else a.copy() for a in plain(v)[1:3]]
    key = {d: slice(None) for d in v.dims}
    fits = which is not None
    edges = kind == 'step' and edges_along(x, dim, size)
    if fits:
        key[dim] = which[0] if kind == 'point' else slice(which[0], which[-1] + 1, index.step) if which else slice(0, 0)
        for a, b in zip(model, plain(new)[1:3], strict=True):
            if a is None:
                continue
            # bring new to the dims of the target
            target = [d for d in v.dims if d != dim or kind != 'point']
            if set(names) <= set(target):
                b = b.transpose([names.index(d) for d in target if d in names])
                b = b.reshape([1 if d not in names else b.shape[[t for t in target if t in names].index(d)]
                               for d in target])
                a[tuple(key[d] for d in v.dims)] = b
            else:
                fits = False
    what = new
    numpy_form = form == 'numpy' and str(v.dtype) not in ('datetime64', 'string')
    if numpy_form:
        what = new.values if new.ndim else np.asarray(new.value)
        fits = fits and v.variances is None
        wrong_unit = False
    if form == 'data array' and isinstance(x, sc.DataArray):
        what = sc.DataArray(new)
    g.nontrivial(fits and len(which) * v.ndim > 0 and v.shape != (1,))
    if edges or wrong_unit or (which is not None and not which):
        fits = None if not wrong_unit else False
    try:
        x[dim, index] = what
    except ERRORS as e:
        check('assign: refused', not fits, repr(e), form)
        compare('assign: failure changed input', parts(x), before)
        return
    check('assign: accepted', fits is not False, lambda: show(x), form)
    want = dict(before)
    name = ('data', '', True)
    want[name] = (want[name][0], *model, *want[name][3:])
    compare('assign', parts(x), want, form)


def assign_labels(g):
    """Assignment by label writes exactly what selection by this label reads."""
    dtype = g.pick(['float64', 'int64', 'datetime64'])
    x, dim, name, grid, edges, order, unit = with_labels(g, dtype)
    if isinstance(x, sc.Dataset) or x.bins is not None or str(x.dtype) in ('string', 'bool', 'datetime64'):
        raise Discard
    key, which, point, begin, end = label_key(g, dtype, unit, name, grid, edges)
    if which is None or contrary(grid, begin, end) or (begin is None and end is None):
        raise Discard
    g.note(f'{show(x)}\n{key}')
    g.nontrivial(x.sizes[dim] > 1 and which)
    before = parts(x)
    try:
        new = x[key].data * 0 - sc.scalar(1, unit=x.unit, dtype=x.dtype)
    except ERRORS:
        raise Discard from None
    new = new.to(dtype=x.dtype)
    x[key] = new if point else g.pick([new, sc.DataArray(new)])
    want = dict(before)
    d, values, variances, *rest = want['data', '', True]
    where = tuple(which if k == dim else slice(None) for k in d)
    values[where] = -1
    if variances is not None:
        variances[where] = 0
    compare('assign by label', parts(x), want)


def assign_metadata(g):
    """Assignment of a data array checks coords and sets the masks it has, or leaves all as it was."""
    sizes = {'x': g.integer(1, 4), 'y': g.integer(1, 3)}
    dims = g.permutation(list(sizes))

    def make(values):
        da = sc.DataArray(sc.array(dims=dims, values=values, unit='m'))
        return da

    x = make(np.arange(float(sizes['x'] * sizes['y'])).reshape([sizes[d] for d in dims]))
    x = metadata(g, x)
    dim = g.pick(dims)
    a = g.draw(sizes[dim] - 1)
    index = g.pick([a, slice(a, sizes[dim]), slice(0, a + 1), slice(None)])
    if g.boolean():
        index = slice(0, 1) if index == a and False else index
    new = x[dim, index].copy()
    new.data *= 0.0
    new.data -= 1.0 * sc.Unit('m')
    before = parts(x)
    change = g.pick(['nothing', 'drop coord', 'change coord', 'add coord', 'change mask', 'add mask', 'drop mask'])
    names = list(new.coords) if 'coord' in change else list(new.masks)
    bad = False
    if change.startswith('add'):
        if 'coord' in change:
            new.coords['new'] = sc.scalar(1.0)
        else:
            new.masks['new'] = sc.scalar(True)
        bad = True
    elif change != 'nothing':
        if not names:
            raise Discard
        name = g.pick(names)
        if change == 'drop coord':
            new = new.drop_coords(name)
        elif change == 'drop mask':
            new = new.drop_masks(name)
        elif change == 'change coord':
            c = new.coords[name]
            if str(c.dtype) == 'string' or c.values.size == 0 if c.ndim else str(c.dtype) == 'string':
                raise Discard
            aligned = c.aligned
            c = ~c if c.dtype == 'bool' else c + sc.scalar(1, unit=c.unit, dtype='int64')
            new.coords[name] = c.to(dtype=new.coords[name].dtype)
            new.coords.set_aligned(name, aligned)
            bad = aligned
        elif change == 'change mask':
            new.masks[name] = ~new.masks[name]
            bad = dim not in x.masks[name].dims
    g.note(f'{show(x)}\n{dim} {index} = {show(new)} ({change})')
    g.nontrivial(sizes['x'] * sizes['y'] > 1)
    want = dict(before)
    whole = slice(index, index + 1) if isinstance(index, int) else index
    try:
        x[dim, index] = new
    except ERRORS as e:
        check('assign metadata: refused', bad, change, repr(e))
        compare('assign metadata: failure changed input', parts(x), before)
        return
    check('assign metadata: accepted', not bad, change, lambda: show(x))
    for key, (d, values, variances, *rest) in before.items():
        where = tuple(whole if k == dim else slice(None) for k in d)
        if key[0] == 'data':
            values = values.copy()
            values[where] = -1
        if change == 'change mask' and key[0] == 'mask' and key[1] == name:
            values = values.copy()
            values[where] = ~values[where]
        want[key] = (d, values, variances, *rest)
    compare('assign metadata', parts(x), want, change)


def history(g):
    """Any history of selections and writes through them does what it does to views of one numpy array."""
    sizes = gen_sizes(g, 1, 1)
    n = int(np.prod(list(sizes.values())))
    a = np.arange(float(n)).reshape(list(sizes.values()))
    whole = sc.array(dims=list(sizes), values=a, unit='m')
    order = g.permutation(list(sizes))
    if g.boolean(0.5):
        whole = whole.transpose(order).copy()
        a = a.transpose([list(sizes).index(d) for d in order]).copy()
    if g.boolean(0.4):
        top = sc.DataArray(whole)
        pool = [(top.data, a)]
    else:
        pool = [(whole, a)]
    g.note(show(whole))
    writes = 0
    for _ in range(g.length(2, 12)):
        v, m = g.pick(pool)
        op = g.pick(['slice', 'slice', 'transpose', 'write', 'write', 'add', 'numpy', 'from', 'values', 'copy', 'rename'])
        dim = g.pick(v.dims) if v.ndim else None
        if op == 'slice' and dim:
            size = v.sizes[dim]
            index = g.integer(-size, size - 1) if size and g.boolean(0.3) else \
                slice(*(None if g.boolean(0.3) else g.integer(-size, size) for _ in range(2)), g.pick([None, 1, 2]))
            g.note(f'slice {dim} {index}')
            pool.append((v[dim, index], m[(*(index if d == dim else slice(None) for d in v.dims), ...)]))
        elif op == 'transpose' and v.ndim:
            new = g.permutation(v.dims)
            g.note(f'transpose {v.dims} to {new}')
            pool.append((v.transpose(new), m.transpose([v.dims.index(d) for d in new])))
        elif op == 'rename' and dim:
            g.note(f'rename {dim}')
            pool.append((v.rename_dims({dim: dim + "'"}), m))
        elif op == 'copy':
            g.note('copy')
            pool.append((v.copy(), m.copy()))
        elif op == 'write':
            value = float(g.integer(100, 999))
            g.note(f'write {v.sizes} {value}')
            if dim and g.boolean(0.5):
                i = slice(g.draw(v.sizes[dim]), None)
                v[dim, i] = sc.scalar(value, unit='m')
                m[tuple(i if d == dim else slice(None) for d in v.dims)] = value
            else:
                v[...] = sc.scalar(value, unit='m')
                m[...] = value
            writes += 1
        elif op == 'add':
            g.note(f'add {v.sizes}')
            v += sc.scalar(1.0, unit='m')
            m += 1.0
            writes += 1
        elif op == 'numpy' and v.ndim:
            g.note(f'through numpy {v.sizes}')
            w = v.values
            w[...] = w * 2
            m[...] = m * 2
            writes += 1
        elif op in ('from', 'values'):
            other = [(w, k) for w, k in pool if (op == 'values' and w.sizes == v.sizes) or (op == 'from' and
                      set(w.dims) <= set(v.dims) and all(v.sizes[d] == w.sizes[d] for d in w.dims))]
            w, k = g.pick(other) if other else (v, m)
            if op == 'from':
                g.note(f'{v.dims} from {w.dims}')
                source = k.transpose([w.dims.index(d) for d in v.dims if d in w.dims])
                source = source.reshape([w.sizes.get(d, 1) if d in w.dims else 1 for d in v.dims]).copy()
                v[...] = w
                m[...] = source
            elif w.dims == v.dims and v.ndim:
                g.note(f'values {v.dims} from values {w.dims}')
                v.values = w.values
                m[...] = k.copy()
            writes += 1
        for v, m in pool:
            check('history', v.shape == m.shape and np.array_equal(arr(v), m), '\n', show(v), 'expected', m)
    g.nontrivial(writes and len(pool) > 1 and n > 1)


def random_part(g, a, shape):
    """A random view of an array of at least this shape that has exactly this shape."""
    part = []
    for n, k in zip(a.shape, shape, strict=True):
        step = g.pick([1, 1, 1, 2, -1])
        if k < 2:
            start = g.draw(n - k)
            part.append(slice(start, start + k))
            continue
        if step == 2 and 2 * k - 1 > n:
            step = 1
        length = abs(step) * (k - 1) + 1
        low = g.draw(n - length)
        if step > 0:
            part.append(slice(low, low + length, step))
        else:
            part.append(slice(low + length - 1, low - 1 if low else None, -1))
    return a[tuple(part)]


def overlap(g):
    """Assignment of an array that shares memory with the target works as if it were copied first."""
    ndim = g.integer(1, 3)
    shape = tuple(g.integer(2, 5) for _ in range(ndim))
    dims = ['x', 'y', 'z'][:ndim]
    a = np.arange(float(np.prod(shape))).reshape(shape)
    variances = a + 100.0
    v = sc.array(dims=dims, values=a, variances=variances, unit='m')
    what = g.pick(['values', 'variances', 'set'])
    if what == 'set':
        v.variances = None
    order = g.permutation(range(ndim))
    target, m = v.transpose([dims[k] for k in order]), (variances if what == 'variances' else a).transpose(order)
    for d in target.dims:
        n = target.sizes[d]
        low = g.draw(n - 1)
        index = slice(low, g.integer(low + 1, n), g.pick([1, 1, 2]))
        m = m[tuple(index if k == d else slice(None) for k in target.dims)]
        target = target[d, index]
    source = v.variances if what == 'variances' else v.values
    second = g.permutation(range(ndim))
    source = source.transpose(second)
    if any(n < k for n, k in zip(source.shape, m.shape, strict=True)):
        raise Discard
    source = random_part(g, source, m.shape)
    g.note(f'{shape}\ntarget {m.ravel()} {m.shape}\n'
           f'source {source.tolist()}')
    g.nontrivial(source.size > 2)
    m[...] = source
    if what == 'values':
        target.values = source
    elif what == 'variances':
        target.variances = source
    else:
        target[...] = source
    check('overlap', np.array_equal(v.values, a), 'expected', a, 'got', v.values)
    if what != 'set':
        check('overlap: variances', np.array_equal(v.variances, variances), 'expected', variances, 'got', v.variances)


# --- lookup ------------------------------------------------------------------------------------

def lookups(g):
    """A lookup table gives the value of the bin, of the point before, or of the nearest point."""
    mode = g.pick(['bins', 'previous', 'nearest'])
    cdtype = g.pick(['float64', 'float64', 'int64', 'datetime64'])
    fdtype = g.pick(['float64', 'float32', 'int64', 'int32', 'bool', 'datetime64'])
    n = g.length(0, 7)
    even = g.boolean(0.3)
    k = n + (mode == 'bins')
    if even:
        grid = [2 * i + 1 for i in range(k)]
    else:
        grid = sorted(g.permutation(range(max(k, 14)))[:k])
    scale = g.pick([1, 1, 7, 10**9]) if cdtype != 'float64' else g.pick([1, 0.5, 2**-10, 1e9])

    def where(values):
        if cdtype == 'datetime64':
            return (np.datetime64('2024-01-01', 'ns') + (np.array(values) * scale).astype('int64'))
        return (np.array(values, dtype='float64') * scale).astype(cdtype)

    extra = g.integer(1, 2) if g.boolean(0.3) else None
    shape = (n,) if extra is None else (extra, n)
    dims = ['x'] if extra is None else ['y', 'x']
    f = np.array([g.draw(3) for _ in range(n * (extra or 1))]).reshape(shape)
    if fdtype == 'datetime64':
        data = sc.array(dims=dims, values=np.datetime64('2020-01-01', 's') + f.astype('int64'), unit='s')
    else:
        data = sc.array(dims=dims, values=f.astype(fdtype), unit=None if fdtype == 'bool' else 'K')
    if extra is not None and g.boolean(0.5):
        data = data.transpose(['x', 'y']).copy()
    func = sc.DataArray(data, coords={'x': sc.array(dims=['x'], values=where(grid), unit='ns' if cdtype == 'datetime64'
                                                    else 'm')})
    masks = np.zeros(n, dtype=bool)
    if g.boolean(0.3):
        masks = np.array([g.boolean(0.3) for _ in range(n)], dtype=bool)
        func.masks['m'] = sc.array(dims=['x'], values=masks)
    if g.boolean(0.2):
        func.coords['other'] = sc.scalar(3.0)
    fill = None
    if g.boolean(0.4):
        fill = sc.scalar(np.datetime64('1999-01-01', 's')) if fdtype == 'datetime64' else \
            sc.scalar(np.dtype(fdtype).type(g.draw(1) if fdtype == 'bool' else 99), unit=data.unit)
    asked = [g.integer(-2, 30) / 2 for _ in range(g.length(0, 12))]
    if cdtype != 'float64':
        asked = [float(a) if scale % 2 == 0 else float(int(a)) for a in asked]
    points = where(asked) if asked else where([0.0])[:0]
    unit = 'ns' if cdtype == 'datetime64' else 'm'
    pdims = ['p']
    if extra is not None:
        points = np.array([points] * extra).reshape(extra, len(asked))
        pdims = ['y', 'p']
    x = sc.array(dims=pdims, values=points, unit=unit, dtype='datetime64' if cdtype == 'datetime64' else None)
    g.note(f'{show(func)} {func.coords["x"].values} {data.values} masked {masks}\n{mode} {points} fill {fill}')
    g.nontrivial(n > 1 and len(asked) > 1)
    before = parts(func)
    try:
        table = sc.lookup(func, 'x' if extra is not None else g.pick(['x', None]),
                          mode=None if mode == 'bins' else mode, fill_value=fill)
        got = table(x) if g.boolean() else table[x]
    except ERRORS as e:
        check('lookup: refused', n == 0 or fdtype == 'datetime64', mode, repr(e))
        return
    finally:
        compare('lookup: input', parts(func), before)
    if fill is None:
        blank = np.nan if fdtype.startswith('float') else np.datetime64(0, 's') if fdtype == 'datetime64' else 0
    else:
        blank = fill.value
    c = where(grid) if grid else where([0.0])[:0]
    half = (lambda a, b: 2 * (int(a) - int(b))) if cdtype != 'float64' else (lambda a, b: a - b)
    for at_ in indices(got.sizes):
        p = at(x, at_)
        i = None
        if mode == 'bins':
            hit = [j for j in range(n) if c[j] <= p < c[j + 1]]
            i = hit[0] if hit else None
        elif mode == 'previous':
            hit = [j for j in range(n) if c[j] <= p]
            i = hit[-1] if hit else None
        elif n:
            if cdtype == 'datetime64':
                d = [abs(int((p - q).astype('int64'))) for q in c]
            else:
                d = [abs(half(p, q)) for q in c]
            near = [j for j in range(n) if d[j] == min(d)]
            if len(near) > 1:  # as near to both
                value = at(got, at_)
                ok = [blank if masks[j] else at(func.data, {**at_, 'x': j}) for j in near]
                check('lookup [tie]', any(value == o or (value != value and o != o) for o in ok), p, value, ok)
                continue
            i = near[0]
        want = blank if i is None or masks[i] else at(func.data, {**at_, 'x': i})
        value = at(got, at_)
        check(f'lookup [{mode}]', value == want or (value != value and want != want), 'at', p, 'expected', want, 'got',
              value)
    check('lookup: unit', got.unit == func.unit and got.dtype == func.dtype)


def scaling(g):
    """Events times or over a lookup table: each by the value at its own coord, 0 outside; all else is kept."""
    n = g.length(0, 12)
    w = np.array([float(g.integer(1, 9)) for _ in range(n)])
    dtype = g.pick(['float64', 'float64', 'float32', 'int64'])
    t = sc.DataArray(sc.array(dims=['event'], values=w.astype(dtype), unit='counts',
                              variances=w / 2 if dtype == 'float64' and g.boolean(0.4) else None),
                     coords={'id': sc.arange('event', n)})
    pos = np.array([g.integer(-2, 20) / 2 for _ in range(n)])
    t.coords['x'] = sc.array(dims=['event'], values=pos, unit='m')
    size = g.integer(1, 3)
    cuts = sorted(g.draw(n) for _ in range(2 * size))
    begin, end = np.array(cuts[::2], dtype='int64'), np.array(cuts[1::2], dtype='int64')
    x = sc.DataArray(sc.bins(data=t, dim='event', begin=sc.array(dims=['i'], values=begin, unit=None),
                             end=sc.array(dims=['i'], values=end, unit=None)))
    k = g.integer(1, 5)
    grid = [2 * i for i in range(k + 1)] if g.boolean(0.4) else sorted(g.permutation(range(10))[: k + 1])
    ftype = g.pick(['float64', 'float32', 'int64', 'bool']) if dtype != 'int64' else 'float64'
    fs = np.array([g.integer(1, 4) for _ in range(k)]).astype(ftype)
    data = sc.array(dims=['x'], values=fs, unit=None if ftype == 'bool' else g.pick(['one', 's']))
    func = sc.DataArray(data, coords={'x': sc.array(dims=['x'], values=np.array(grid, dtype=float), unit='m')})
    masks = np.zeros(k, dtype=bool)
    if g.boolean(0.3) and ftype != 'bool':
        masks = np.array([g.boolean(0.3) for _ in range(k)])
        func.masks['m'] = sc.array(dims=['x'], values=masks)
    op = g.pick(['*', '/', '*=', '/='])
    g.note(f'{show(x)} {pos} {w} {begin} {end}\n{op} {grid} {fs} {masks}')
    before = [content(x, {'i': i}).copy() for i in range(size)]
    y = x.copy()
    try:
        table = sc.lookup(func, 'x')
        if op == '*':
            y = x.bins * table
        elif op == '/':
            y = x.bins / table
        elif op == '*=':
            y.bins *= table
        else:
            y.bins /= table
    except ERRORS as e:
        check('scaling: refused', ftype == 'bool' or dtype == 'int64' or dtype != ftype, dtype, ftype, repr(e))
        return
    used = 0
    for i in range(size):
        got, was = content(y, {'i': i}), before[i]
        check('scaling: input', sc.identical(content(x, {'i': i}), was))
        check('scaling: coords', sc.identical(got.coords['x'], was.coords['x'])
              and sc.identical(got.coords['id'], was.coords['id']))
        for r in range(was.sizes['event']):
            p = was.coords['x'].values[r]
            hit = [j for j in range(k) if grid[j] <= p < grid[j + 1] and not masks[j]]
            f = float(fs[hit[0]]) if hit else 0.0
            if hit and '/' in op:
                f = 1 / f
            used += bool(hit)
            check('scaling', np.isclose(got.values[r], was.values[r] * f, rtol=1e-5), op, p, f, was.values[r], got.values[r])
            if was.variances is not None:
                check('scaling: variance', np.isclose(got.variances[r], was.variances[r] * f * f, rtol=1e-5))
        check('scaling: unit', got.unit == (was.unit / data.unit if '/' in op and data.unit else
                                            was.unit * data.unit if data.unit else was.unit))
    g.nontrivial(used > 1)


LAWS = {
    'positions': (6000, 150000, positions),
    'iteration': (1000, 20000, iteration),
    'labels': (6000, 150000, labels),
    'label_units': (300, 5000, label_units),
    'assign_positions': (4000, 100000, assign_positions),
    'assign_labels': (1500, 40000, assign_labels),
    'assign_metadata': (2500, 60000, assign_metadata),
    'history': (12000, 300000, history),
    'overlap': (5000, 100000, overlap),
    'lookups': (4000, 100000, lookups),
    'scaling': (1500, 40000, scaling),
}

if __name__ == '__main__':
    main('C53', RULE, LAWS)
