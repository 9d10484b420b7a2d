# interpreter: _scipp
"""C52: bin, group, hist and their relatives account for every event exactly once."""

from pbt import Discard, check, main
from real import ERRORS, arr, at, close, content, indices, np, sc, show, var

RULE = ('a case counts if at least three events enter and some output bin holds an event '
        'while another event is masked, out of range or in another output bin')

COORDS = {  # event coords: how to draw them
    'x': ['float64', 'float64', 'float32', 'int64', 'datetime64'],
    'y': ['float64', 'int32', 'int64'],
    'l': ['int64', 'int32', 'string'],
}
UNITS = {'x': 'm', 'y': None, 'l': None}


def draw_values(g, name, dtype, n):
    """Few distinct values, so that events share bins and hit edges."""
    if dtype == 'string':
        return np.array([g.pick(['a', 'b', 'c', 'dd']) for _ in range(n)]) if n else np.array([], dtype=str)
    v = np.array([g.draw(9) for _ in range(n)], dtype='float64')
    scale, offset = g.pick([(1, 0), (1, 0), (0.5, -2), (1, 16777216), (1000, 2**40), (0.1, 0)])
    v = v * scale + offset
    if dtype == 'datetime64':
        return np.datetime64('2023-05-01T12:00:00.000000077', 'ns') + v.astype('int64')
    if dtype == 'int32':
        v = v % 2**26
    if dtype.startswith('float') and g.boolean(0.15):
        for k in range(n):
            if g.boolean(0.2):
                v[k] = np.nan
    return v.astype(dtype)


def coord(g, name, dims, shape, dtype):
    n = int(np.prod(shape, dtype=int))
    v = draw_values(g, name, dtype, n).reshape(shape)
    unit = UNITS[name[0]] if dtype not in ('string', 'datetime64') else ('ns' if dtype == 'datetime64' else None)
    if unit is None and dtype not in ('string', 'datetime64'):
        unit = 'one'
    if not dims:
        return sc.scalar(v[()], unit=unit) if dtype != 'string' else sc.scalar(str(v[()]))
    return sc.array(dims=dims, values=v, unit=unit)


def gen_table(g, n, names, row='row', nan_weights=False):
    w = np.array([float(g.integer(1, 9)) for _ in range(n)])
    if nan_weights:
        for k in range(n):
            if g.boolean(0.2):
                w[k] = np.nan
    variances = np.abs(w) / 2 if g.boolean(0.5) else None
    t = sc.DataArray(sc.array(dims=[row], values=w, variances=variances, unit='counts'))
    t.coords['id'] = sc.arange(row, n)
    for name in names:
        t.coords[name] = coord(g, name, [row], (n,), g.pick(COORDS[name]))
    if g.boolean(0.3):
        t.masks['me'] = sc.array(dims=[row], values=np.array([g.boolean(0.3) for _ in range(n)], dtype=bool))
    return t


class Events:
    """The model: one record per event."""

    def __init__(self):
        self.sizes, self.rows, self.masks = {}, [], {}
        # rows: (position, {coord: value}, weight, variance, masked)


def gen_binned(g, nan_weights=False):
    """Binned data with bins in any order in their buffer, and its events."""
    names = g.subset(['x', 'y', 'l'], 0.6)
    dims = g.permutation(['i', 'j'])[: g.draw(2)]
    sizes = {d: g.integer(1, 3) for d in dims}
    n = g.length(0, 24)
    t = gen_table(g, n, names, 'event', nan_weights)
    volume = int(np.prod(list(sizes.values()), dtype=int))
    cuts = sorted(g.draw(n) for _ in range(2 * volume))
    pairs = g.permutation([(cuts[2 * k], cuts[2 * k + 1]) for k in range(volume)])
    shape = tuple(sizes.values())
    begin = np.array([p[0] for p in pairs], dtype='int64').reshape(shape)
    end = np.array([p[1] for p in pairs], dtype='int64').reshape(shape)
    data = sc.bins(data=t, dim='event', begin=var(dims, begin, unit=None, dtype='int64'),
                   end=var(dims, end, unit=None, dtype='int64'))
    da = sc.DataArray(data)
    for name in ['a', 'b']:
        ds = g.subset(dims, 0.7)
        if ds and g.boolean(0.6):
            kind = g.pick(['float64', 'int64', 'float32'] if name == 'a' else ['int64', 'string'][: 3 - len(ds)])
            da.coords[name] = coord(g, {'a': 'x', 'b': 'l'}[name], ds, tuple(sizes[d] for d in ds), kind)
    for k in range(g.draw(2)):
        ds = g.permutation(g.subset(dims, 0.6))
        shape = tuple(sizes[d] for d in ds)
        m = np.array([g.boolean(0.35) for _ in range(int(np.prod(shape, dtype=int)))], dtype=bool).reshape(shape)
        da.masks[f'm{k}'] = var(ds, m, unit=None)
    return da


def model(da):
    e = Events()
    e.sizes = dict(da.sizes) if da.bins is not None else {}
    e.masks = {k: m for k, m in da.masks.items()} if da.bins is not None else {}
    for where in indices(e.sizes):
        t = content(da, where) if da.bins is not None else da
        cs = {k: arr(c) for k, c in t.coords.items()}
        w, v = t.values, t.variances if t.variances is not None else t.values * 0
        m = np.zeros(len(w), dtype=bool)
        for x in t.masks.values():
            m = m | x.values
        for r in range(len(w)):
            row = {k: c[r] for k, c in cs.items()}
            for k, c in da.coords.items():
                if da.bins is not None and k not in row and set(c.dims) <= set(e.sizes) and \
                        all(c.sizes[d] == e.sizes[d] for d in c.dims):
                    row[k] = at(c, where)
            e.rows.append((where, row, w[r], v[r], bool(m[r])))
    return e


def gen_arg(g, name, c):
    """A binning argument of one coord: explicit edges, a count or a width."""
    kind = g.pick(['edges', 'count', 'count', 'step'])
    if kind == 'step' and str(c.dtype) == 'datetime64':
        kind = 'count'  # not supported
    if kind == 'count':
        return g.integer(1, 4), kind
    dtype = str(c.dtype)
    v = arr(c).ravel()
    if kind == 'step':
        unit = c.unit
        lo, hi = np.nanmin(v) if len(v) else 0, np.nanmax(v) if len(v) else 0
        width = (float(hi) - float(lo)) / g.integer(1, 4)
        if dtype.startswith('int'):
            return sc.scalar(max(1, int(width)), unit=unit, dtype=dtype), kind
        if not width < 1e300:
            width = 1.0
        top = np.abs(np.array([lo, hi, 1], dtype=dtype))
        width = max(width, 16 * float(np.spacing(top[top == top].max())))
        return sc.scalar(width, unit=unit, dtype=dtype), kind
    keep = v[~np.isnan(v)] if dtype.startswith('float') else v
    if len(keep) == 0:
        keep = np.zeros(1, dtype=v.dtype)
    e = sorted(keep[g.draw(len(keep) - 1)] for _ in range(g.integer(1, 4)))
    e.append(e[-1] + type(e[-1])(1) if dtype != 'datetime64' else e[-1] + np.timedelta64(3, 'ns'))
    e = np.array(e, dtype=v.dtype)
    return sc.array(dims=[name], values=e, unit=c.unit), kind


def gen_groups(g, name, c):
    v = list(dict.fromkeys((arr(c).ravel()).tolist()))
    if g.boolean(0.5) or not v:
        return name, 'unique'
    k = g.permutation(v)[: g.integer(1, len(v))]
    if str(c.dtype) == 'string':
        k = k + ['zz'] if g.boolean(0.3) and 'zz' not in k else k
        return sc.array(dims=[name], values=k), 'groups'
    return sc.array(dims=[name], values=np.array(k, dtype=str(c.dtype)), unit=c.unit), 'groups'


def is_edges(da, name):
    return name in da.coords and name in da.dims and da.coords.is_edges(name, name)


def all_values(da, name, op='bin'):
    """What automatic edges or groups derive from."""
    event = da.bins is not None and name in da.bins.coords
    if event and (op == 'group' or name not in da.coords):
        c = da.bins.coords[name]
        return c.copy().bins.constituents['data']
    return da.coords[name]


def bin_of(edges, v):
    if v != v:
        return None
    k = int(np.searchsorted(edges, v, side='right')) - 1
    return k if 0 <= k < len(edges) - 1 else None


def check_auto(name, kind, arg, edges, values, extended):
    """Automatic edges: as many as asked, sorted, and every finite event inside."""
    e = edges.values
    check('edges-sorted', (e[:-1] <= e[1:]).all(), name, e)
    v = arr(values).ravel()
    if v.dtype.kind == 'f':
        v = v[~np.isnan(v)]
    if kind == 'count':
        check('edges-count', len(e) == arg + 1, name, len(e), arg)
    check('edges-unit', edges.unit == values.unit, name, edges.unit, values.unit)
    if len(v):
        check('edges-cover', e[0] <= v.min() and (v.max() < e[-1] or
              (v.max() == e[-1] and not extended)), name, kind, 'edges', e, 'of', v.min(), v.max())


def expected(e, keys, erased):
    """{position: [rows]} of the output; None: hidden by an output mask."""
    out = {}
    gone = erased | set(keys)
    hidden = {k: m for k, m in e.masks.items() if set(m.dims) & gone}
    for row in e.rows:
        where = row[0]
        if any(bool(at(m, where)) for m in hidden.values()):
            continue
        to = {d: k for d, k in where.items() if d not in erased}
        for name, find in keys.items():
            k = find(row[1][name])
            if k is None:
                break
            to[name] = k
        else:
            out.setdefault(frozenset(to.items()), []).append(row)
    return out


def compare(out, e, want, erased, keys, total):
    kept = {k: m for k, m in e.masks.items() if not (set(m.dims) & (erased | set(keys)))}
    if out.bins is not None or kept:
        check('masks', set(kept) <= set(out.masks), list(out.masks), list(kept))
    want_dims = {d for d in e.sizes if d not in erased} | set(keys)
    check('dims', set(out.dims) == want_dims, out.sizes, 'expected', want_dims)
    for d in want_dims - set(keys):
        check('size', out.sizes[d] == e.sizes[d], d, out.sizes)
    for d in keys:
        check('size', out.sizes[d] == keys[d].size, d, out.sizes)
    full = 0
    for where in indices(dict(out.sizes)):
        rows = want.get(frozenset(where.items()), [])
        full += bool(rows)
        if any(bool(at(m, where)) for m in kept.values()):
            continue
        if total is None:
            t = content(out, where)
            ids = sorted(t.coords['id'].values.tolist())
            check('content', ids == sorted(int(r[1]['id']) for r in rows),
                  'bin', where, 'holds events', ids, 'instead of', sorted(int(r[1]['id']) for r in rows))
            got = sorted(zip(t.coords['id'].values.tolist(), np.nan_to_num(t.values, nan=-1).tolist(),
                             (t.variances if t.variances is not None else t.values * 0).tolist(), strict=True))
            check('weights', [x[1] for x in got] ==
                  [np.nan_to_num(r[2], nan=-1) for r in sorted(rows, key=lambda r: r[1]['id'])], where, got)
            masked = np.zeros(len(ids), dtype=bool)
            for m in t.masks.values():
                masked = masked | m.values
            check('event-masks', dict(zip(t.coords['id'].values.tolist(), masked.tolist(), strict=True)) ==
                  {int(r[1]['id']): r[4] for r in rows}, where)
        else:
            rows = [r for r in rows if not r[4]]
            if total == 'nan':
                rows = [r for r in rows if r[2] == r[2]]
            check('sum', close(at(out.data, where), sum(r[2] for r in rows)), 'bin', where, 'is',
                  at(out.data, where), 'instead of', sum(r[2] for r in rows))
            if out.variances is not None:
                v = out.variances[tuple(where[d] for d in out.dims)]
                check('variance', close(v, sum(r[3] for r in rows)), where, v, sum(r[3] for r in rows))
    return full


class By:
    """Where a value goes along an output dim."""

    def __init__(self, c, groups):
        self.values, self.groups = arr(c), groups
        self.size = len(self.values) - (0 if groups else 1)

    def __call__(self, v):
        if not self.groups:
            return bin_of(self.values, v)
        k = [i for i, x in enumerate(self.values) if x == v]
        return k[0] if k else None


def run(g, da, op):
    """One call of op on data, against the events."""
    binned = da.bins is not None
    usable = [n for n in ('x', 'y', 'l', 'a', 'b')
              if (binned and n in da.bins.coords) or (n in da.coords and not is_edges(da, n))]
    kind = {n: str(all_values(da, n, 'group').dtype) for n in usable}
    if op == 'group':
        usable = [n for n in usable if not kind[n].startswith(('float', 'datetime'))]
    else:
        usable = [n for n in usable if kind[n] != 'string']
    names = g.permutation(usable)[: g.integer(1, 2)]
    if not names:
        raise Discard
    before = da.copy()
    args, kinds = {}, {}
    for n in names:
        c = all_values(da, n, op)
        args[n], kinds[n] = gen_groups(g, n, c) if op == 'group' else gen_arg(g, n, c)
        g.note(f'{n}: {kinds[n]} {args[n] if isinstance(args[n], int | str) else show(args[n])}')
    dim = None
    if binned and g.boolean(0.4):
        dim = tuple(d for d in g.subset(list(da.dims), 0.6) if d not in names)
        if len(dim) == 1 and g.boolean(0.5):
            dim = dim[0]
    g.note(f'{op} dim={dim} of {show(da)}')
    e = model(da)
    for r in e.rows[:30]:
        g.note(str((r[0], r[1], r[2], r[4])))
    if dim is None:
        erased = {d for n in names if binned and n in da.coords for d in da.coords[n].dims} - set(names)
    else:
        erased = {dim} if isinstance(dim, str) else set(dim)
    for n in names:
        v = arr(all_values(da, n, op)).ravel()
        if v.dtype.kind == 'f':
            v = v[~np.isnan(v)]
        if kinds[n] in ('count', 'step') and len(v) == 0:
            raise Discard  # no range
        if kinds[n] == 'step' and is_edges(da, n) and v.min() == v.max():
            raise Discard  # existing edges without extent
    try:
        if op == 'group':
            out = da.group(*args.values(), dim=dim)
        else:
            out = getattr(da, op)(args, dim=dim)
    except ERRORS as err:
        check('accepted', False, type(err).__name__, str(err)[:300])
    check('input', sc.identical(da, before, equal_nan=True), 'the input changed')
    keys = {}
    for n in names:
        c = out.coords[n]
        if kinds[n] in ('edges', 'groups'):
            check('coord', sc.identical(c, args[n]), show(c), show(args[n]))
        elif kinds[n] == 'unique':
            v = all_values(da, n, op)
            want = sorted(set(arr(v).ravel().tolist()))
            check('unique', list(c.values) == want, list(c.values), want)
        else:
            check_auto(n, kinds[n], args[n], c, all_values(da, n, op), not is_edges(da, n))
        keys[n] = By(c, op == 'group')
    want = expected(e, keys, erased)
    total = {'hist': 'sum', 'nanhist': 'nan'}.get(op)
    full = compare(out, e, want, erased, keys, total)
    g.nontrivial(len(e.rows) >= 3 and full >= 1 and (full > 1 or sum(map(len, want.values())) < len(e.rows)))
    return out


def law_table(g):
    op = g.pick(['bin', 'hist', 'group', 'nanhist'])
    run(g, gen_table(g, g.length(0, 24), g.subset(['x', 'y', 'l'], 0.7), 'row', op in ('nanhist', 'bin')), op)


def law_binned(g):
    op = g.pick(['bin', 'hist', 'group', 'nanhist'])
    run(g, gen_binned(g, op in ('nanhist', 'bin')), op)


def law_history(g):
    """Several operations in sequence; each one starts from the result of the last."""
    da = gen_table(g, g.length(0, 30), ['x', 'y', 'l'], 'row') if g.boolean() else gen_binned(g)
    for step in range(g.integer(2, 4)):
        op = g.pick(['bin', 'group', 'concat', 'hist', 'mask'])
        if da.bins is None and op in ('concat', 'mask'):
            raise Discard
        if op == 'mask':
            dims = g.subset(da.dims, 0.6)
            shape = tuple(da.sizes[d] for d in dims)
            m = np.array([g.boolean(0.3) for _ in range(int(np.prod(shape, dtype=int)))], dtype=bool).reshape(shape)
            da = da.assign_masks({f's{step}': var(dims, m, unit=None)})
        elif op == 'concat':
            da = concat(g, da)
        else:
            da = run(g, da, op)
            if op == 'hist':
                break


def concat(g, da):
    dim = g.pick([None, *da.dims])
    if g.boolean(0.3):
        dim = tuple(g.subset(da.dims))
    g.note(f'concat {dim} of {show(da)}')
    e = model(da)
    before = da.copy()
    erased = set(da.dims) if dim is None else {dim} if isinstance(dim, str) else set(dim)
    out = da.bins.concat(dim)
    check('input', sc.identical(da, before, equal_nan=True), 'the input changed')
    want = expected(e, {}, erased)
    full = compare(out, e, want, erased, {}, None)
    if da.masks == {} or not da.masks:
        plain = da.data.bins.concat(dim)
        check('concat-variable', sc.identical(plain, out.data, equal_nan=True))
    g.nontrivial(len(e.rows) >= 3 and full)
    return out


def law_variable(g):
    """A variable is a table of its own values."""
    dims = g.pick([['row'], ['row', 'col'], ['col', 'row']])
    shape = tuple(g.integer(1, 5) for _ in dims)
    v = coord(g, 'x', dims, shape, g.pick(COORDS['x']))
    values = arr(v).ravel()
    keep = values[~np.isnan(values)] if values.dtype.kind == 'f' else values
    if not len(keep):
        raise Discard
    arg, kind = gen_arg(g, 'x', v)
    op = g.pick(['hist', 'hist', 'bin', 'nanhist']) if len(dims) == 1 else 'hist'
    g.note(f'{op} {arg if isinstance(arg, int) else show(arg)} of {show(v)}')
    out = getattr(sc, op)(v, {'x': arg})
    edges = out.coords['x']
    if kind == 'edges':
        check('coord', sc.identical(edges, arg), show(edges))
    else:
        check_auto('x', kind, arg, edges, v, True)
    count = np.zeros(len(edges) - 1)
    for x in values:
        k = bin_of(edges.values, x)
        if k is not None:
            count[k] += 1
    check('dims', out.dims == ('x',), out.sizes)
    got = out.bins.size().values if op == 'bin' else out.values
    check('count', close(got, count), got, count)
    g.nontrivial(len(values) >= 3 and (count > 0).any() and (count < len(values)).all())


def law_dataset(g):
    """Each item of a dataset is histogrammed on its own, with common edges."""
    items = {}
    dtype = g.pick(COORDS['x'])
    for k in range(g.integer(1, 3)):
        n = g.integer(1, 8)
        t = gen_table(g, n, [], 'event')
        t.coords['x'] = coord(g, 'x', ['event'], (n,), dtype)
        if str(dtype).startswith('float') and not t.coords['x'].values.size:
            raise Discard
        cut = g.draw(n)
        items[f'item{k}'] = sc.DataArray(sc.bins(
            data=t, dim='event', begin=sc.array(dims=['i'], values=[0, cut], unit=None),
            end=sc.array(dims=['i'], values=[cut, n], unit=None)))
    ds = sc.Dataset(items)
    cs = [all_values(da, 'x') for da in items.values()]
    vs = np.concatenate([arr(c) for c in cs])
    if vs.dtype.kind == 'f' and np.isnan(vs).any():
        raise Discard  # automatic edges of datasets do not skip NaN
    arg, kind = gen_arg(g, 'x', sc.concat(cs, cs[0].dim))
    g.note(f'{kind} {arg if isinstance(arg, int) else show(arg)} of {show(ds)}')
    for da in items.values():
        g.note('; '.join(str((r[0], r[1]['x'], r[2])) for r in model(da).rows))
    out = ds.hist({'x': arg})
    edges = out.coords['x']
    if kind == 'edges':
        check('coord', sc.identical(edges, arg), show(edges))
    else:
        check_auto('x', kind, arg, edges, sc.concat(cs, cs[0].dim), True)
    check('items', set(out.keys()) == set(items), list(out.keys()))
    full = 0
    for k, da in items.items():
        e = model(da)
        full += compare(out[k], e, expected(e, {'x': By(edges, False)}, set()), set(), {'x': By(edges, False)}, 'sum')
    g.nontrivial(len(items) > 1 and full > 1)


def law_multi_dim(g):
    """Dense data of two dims: each slice along the other dim is a table."""
    dims = g.permutation(['row', 'col'])
    sizes = {'row': g.integer(1, 5), 'col': g.integer(1, 3)}
    shape = tuple(sizes[d] for d in dims)
    w = np.array([float(g.integer(1, 9)) for _ in range(int(np.prod(shape)))]).reshape(shape)
    da = sc.DataArray(sc.array(dims=dims, values=w, unit='counts', variances=w / 3 if g.boolean() else None))
    da.coords['x'] = coord(g, 'x', ['row'], (sizes['row'],), g.pick(COORDS['x']))
    for k in range(g.draw(2)):
        ds = g.subset(['row', 'col'], 0.6)
        n = tuple(sizes[d] for d in ds)
        m = np.array([g.boolean(0.3) for _ in range(int(np.prod(n, dtype=int)))], dtype=bool).reshape(n)
        da.masks[f'm{k}'] = var(ds, m, unit=None)
    v = arr(da.coords['x'])
    if not len(v[~np.isnan(v)] if v.dtype.kind == 'f' else v):
        raise Discard
    arg, kind = gen_arg(g, 'x', da.coords['x'])
    op = g.pick(['hist', 'bin', 'nanhist'])
    g.note(f'{op} {arg if isinstance(arg, int) else show(arg)} of {show(da)} {w.tolist()}')
    out = getattr(da, op)({'x': arg})
    edges = out.coords['x']
    if kind == 'edges':
        check('coord', sc.identical(edges, arg), show(edges))
    else:
        check_auto('x', kind, arg, edges, da.coords['x'], True)
    check('dims', set(out.dims) == {'col', 'x'}, out.sizes)
    res = out.bins.sum() if op == 'bin' else out
    full = 0
    for where in indices(dict(res.sizes)):
        if any(bool(at(m, where)) for m in res.masks.values()):
            continue
        rows = [r for r in range(sizes['row']) if bin_of(edges.values, v[r]) == where['x'] and
                not any(bool(at(m, {'row': r, 'col': where['col']})) for m in da.masks.values())]
        want = sum(at(da.data, {'row': r, 'col': where['col']}) for r in rows)
        full += bool(rows)
        check('sum', close(at(res.data, where), want), where, at(res.data, where), want)
    g.nontrivial(full > 1)


def law_ragged(g):
    """Edges that differ from row to row apply each to its own row."""
    da = gen_binned(g)
    names = [n for n in ('x', 'y') if n in da.bins.coords]
    if not names or not da.dims:
        raise Discard
    name, dim = g.pick(names), g.pick(list(da.dims))
    c = da.bins.coords[name].copy().bins.constituents['data']
    if str(c.dtype) != 'float64':
        raise Discard
    n = g.integer(1, 4)
    e = np.sort([[float(draw_values(g, name, 'float64', 1)[0]) for _ in range(n + 1)] for _ in range(da.sizes[dim])], axis=1)
    e = np.where(np.isnan(e), 0.0, e)
    e.sort(axis=1)
    edges = sc.array(dims=[dim, name], values=e, unit=c.unit)
    args = {name: edges}
    other = [m for m in names if m != name]
    second = None
    if other and g.boolean(0.4):
        m = other[0]
        k = da.bins.coords[m].copy().bins.constituents['data']
        if str(k.dtype) == 'float64':
            second = np.unique([float(x) for x in draw_values(g, m, 'float64', 4) if x == x] + [1.0, 2.0])
            args[m] = sc.array(dims=[m], values=second, unit=k.unit)
            args = {k: args[k] for k in g.permutation(list(args))}
    op = g.pick(['hist', 'bin', 'nanhist'])
    g.note(f'{op} {list(args)} {dim} {e.tolist()} of {show(da)}')
    try:
        out = getattr(da, op)(args)
    except ERRORS as ex:
        check('refused', False, repr(ex))
    check('dims', dict(out.sizes) == {**da.sizes, **{k: v.sizes[k] - 1 for k, v in args.items()}}, out.sizes)
    check('coord', sc.identical(out.coords[name], edges), show(out.coords[name]))
    res = out.bins.sum() if op == 'bin' else out
    full = 0
    records = model(da).rows
    for where in indices(dict(res.sizes)):
        if any(bool(at(m, where)) for m in res.masks.values()):
            continue
        rows = [r for r in records if all(r[0][d] == where[d] for d in da.dims) and not r[4]
                and bin_of(e[where[dim]], r[1][name]) == where[name]
                and (second is None or bin_of(second, r[1][other[0]]) == where[other[0]])]
        full += bool(rows)
        check('sum', close(at(res.data, where), sum(r[2] for r in rows)), where, at(res.data, where), rows)
        if out.bins is not None:
            ids = sorted(content(out, where).coords['id'].values.tolist())
            kept = [r for r in records if all(r[0][d] == where[d] for d in da.dims)
                    and bin_of(e[where[dim]], r[1][name]) == where[name]
                    and (second is None or bin_of(second, r[1][other[0]]) == where[other[0]])]
            check('events', ids == sorted(int(r[1]['id']) for r in kept), where, ids, kept)
    g.nontrivial(full > 1)


def law_select(g):
    """Events by label: a value, or an interval that is closed on the left."""
    da = gen_binned(g)
    name = g.pick(['x', 'y', 'l'])
    if name not in da.bins.coords:
        raise Discard
    c = da.bins.coords[name].copy().bins.constituents['data']
    values = arr(c)
    e = model(da)
    g.note(f'{name} of {show(da)}')
    g.note('; '.join(str((r[0], r[1][name])) for r in e.rows))
    if str(c.dtype) != 'string' and g.boolean(0.6):
        pick = values[~np.isnan(values)] if values.dtype.kind == 'f' else values
        if not len(pick):
            raise Discard
        ends = sorted(g.pick(list(pick)) for _ in range(2))
        lo, hi = (sc.scalar(x, unit=c.unit, dtype=c.dtype) for x in ends)
        if g.boolean(0.25):
            lo = None
        if g.boolean(0.25):
            hi = None
        if values.dtype.kind == 'f' and np.isnan(values).any() and (lo is None or hi is None):
            raise Discard
        g.note(f'from {show(lo)} to {show(hi)}')
        out = da.bins[name, lo:hi]
        ok = {id(r[1]): (lo is None or r[1][name] >= lo.value) and (hi is None or r[1][name] < hi.value)
              for r in e.rows}
    else:
        if not len(values) or values.dtype.kind == 'f':
            raise Discard
        x = g.pick(list(values))
        g.note(f'at {x}')
        out = da.bins[name, sc.scalar(x, unit=c.unit, dtype=c.dtype)]
        ok = {id(r[1]): r[1][name] == x for r in e.rows}
    want = {}
    for r in e.rows:
        if ok[id(r[1])]:
            want.setdefault(frozenset(r[0].items()), []).append(r)
    full = compare(out, e, want, set(), {}, None)
    g.nontrivial(full and sum(map(len, want.values())) < len(e.rows))


LAWS = {
    'table': (4000, 60000, law_table),
    'binned': (8000, 120000, law_binned),
    'history': (6000, 90000, law_history),
    'variable': (1500, 20000, law_variable),
    'dataset': (1500, 20000, law_dataset),
    'ragged': (1500, 20000, law_ragged),
    'multi_dim': (2000, 30000, law_multi_dim),
    'select': (3000, 40000, law_select),
}

if __name__ == '__main__':
    main('C52', RULE, LAWS)
