# interpreter: _scipp
"""C59: groupby, rebin, densities and merging of bins, from Python."""
import C57
from C58 import layout, numbers, points
from pbt import Discard, check, main
from real import ERRORS, arr, indices, np, sc, show, var

from scipp.core.domains import merge_equal_adjacent

RULE = 'a case counts if at least two elements were combined'

REFUSED = (*ERRORS, sc.DTypeError, sc.DimensionError, sc.UnitError, sc.VariancesError, sc.BinEdgeError, sc.CoordError)
OPS = {'sum': 'sum', 'nansum': 'nansum', 'mean': 'mean', 'min': 'min', 'max': 'max', 'nanmin': 'nanmin', 'nanmax': 'nanmax',
       'all': 'all', 'any': 'any'}


def gen_key(g, n):
    kind = g.pick(['float64', 'int64', 'string', 'datetime64', 'bool'])
    k = np.array([g.integer(0, 3) for _ in range(n)])
    if kind == 'string':
        return sc.array(dims=['d'], values=[f'g{i}' for i in k]), [f'g{i}' for i in k]
    if kind == 'datetime64':
        return sc.datetimes(dims=['d'], values=k, unit='s'), list(k)
    if kind == 'bool':
        return sc.array(dims=['d'], values=k > 1), list(k > 1)
    v = k * 0.5 if kind == 'float64' else k
    return sc.array(dims=['d'], values=v, unit='m', dtype=kind), list(v)


def gen_grouped(g):
    """(data array over 'd' and other dims, dims)"""
    n = g.integer(1, 8)
    dims = g.permutation(['d', *g.subset(['y', 'z'], 0.4)])
    sizes = {d: n if d == 'd' else g.integer(1, 3) for d in dims}
    a = numbers(g, list(sizes.values()), 'float64')
    if g.boolean(0.2):
        a.flat[g.draw(a.size - 1)] = np.nan
    da = sc.DataArray(layout(g, var(sizes, a, unit='K', variances=np.abs(a) if g.boolean(0.3) else None)))
    if g.boolean(0.4) and len(dims) > 1:
        other = [d for d in dims if d != 'd'][0]
        da.coords['keep'] = sc.array(dims=[other], values=np.arange(float(sizes[other])), unit='s')
    if g.boolean(0.4):
        s = {d: sizes[d] for d in g.subset(dims, 0.6)}
        da.masks['m'] = var(s, numbers(g, list(s.values())) > 6, unit=None)
    return da, n


def groupby(g):
    """Every group is reduced as if it had been selected on its own."""
    da, n = gen_grouped(g)
    key, values = gen_key(g, n)
    op = g.pick(list(OPS))
    if op in ('all', 'any'):
        da = sc.DataArray(da.data > sc.scalar(0.0, unit='K'), coords=da.coords, masks=da.masks) if da.variances is None \
            else sc.DataArray(sc.values(da.data) > sc.scalar(0.0, unit='K'), coords=da.coords, masks=da.masks)
    if 'min' in op or 'max' in op:
        da = sc.values(da)
    binned = str(key.dtype) in ('float64', 'int64') and g.boolean(0.4)
    data = da.assign_coords(key=key)
    dataset = g.boolean(0.25)
    if dataset:
        data = sc.Dataset({'a': data})
    name = 'key'
    if binned:
        edges = np.unique([float(g.integer(-1, 4)) * 0.5 for _ in range(g.integer(2, 5))])
        if len(edges) < 2:
            raise Discard
        if str(key.dtype) == 'int64':
            edges = np.unique(np.floor(edges * 2)).astype('int64')
        how = g.pick(['name', 'variable'])
        name = 'key' if how == 'name' else g.pick(['key', 'group'])
        bins = sc.array(dims=[name], values=edges, unit='m')
        before = data.copy()
        r = data.groupby('key', bins=bins) if how == 'name' and g.boolean() else \
            sc.groupby(data, 'key' if how == 'name' else key, bins=bins)
        groups = [[i for i, v in enumerate(values) if lo <= v < hi] for lo, hi in zip(edges[:-1], edges[1:], strict=True)]
        label = bins
    else:
        before = data.copy()
        r = data.groupby('key') if g.boolean() else sc.groupby(data, 'key')
        distinct = sorted(set(values))
        groups = [[i for i, v in enumerate(values) if v == u] for u in distinct]
        if str(key.dtype) == 'string':
            label = sc.array(dims=['key'], values=distinct)
        elif str(key.dtype) == 'datetime64':
            label = sc.datetimes(dims=['key'], values=distinct, unit='s')
        else:
            label = sc.array(dims=['key'], values=distinct, unit=key.unit, dtype=key.dtype)
    g.note(f'{op} groups {groups}\n{show(data)}')
    r = getattr(r, op)('d')
    g.nontrivial(da.size > 1)
    check('groupby: input', sc.identical(data, before, equal_nan=True))
    if dataset:
        check('groupby: items', list(r) == ['a'])
        r = r['a']
    check('groupby: dims', set(r.dims) == {name, *da.dims} - {'d'}, r.dims)
    check('groupby: size', r.sizes[name] == len(groups), r.sizes)
    check('groupby: coord', sc.identical(r.coords[name], label), lambda: show(r))
    check('groupby: kept coord', ('keep' in r.coords) == ('keep' in da.coords))
    check('groupby: masks', set(r.masks) == {k for k, m in da.masks.items() if 'd' not in m.dims}, list(r.masks))
    for k, members in enumerate(groups):
        if not members:
            if op in ('sum', 'nansum'):
                check('groupby: empty group', np.all(arr(r[name, k].data) == 0))
            continue
        selected = sc.concat([da['d', i:i + 1] for i in members], 'd') if len(members) > 1 else da['d', members[0]:members[0] + 1]
        want = getattr(selected, op)('d')
        got = r[name, k].data
        if got.dims != want.dims:
            got = got.transpose(want.dims)
        check(f'groupby: {op}: unit', got.unit == want.unit)
        empty = 'm' in selected.masks and 'd' in selected.masks['m'].dims
        if empty and op not in ('sum', 'nansum', 'mean', 'all', 'any'):
            continue  # extrema of groups without any element
        same = np.allclose(np.asarray(arr(got), dtype=float), np.asarray(arr(want.data), dtype=float), equal_nan=True)
        check(f'groupby: {op}', same, k, lambda: f'{show(got)} {show(want)}')
        if want.data.variances is not None or want.data.variance is not None if want.ndim == 0 else \
                want.data.variances is not None:
            a = np.asarray(got.variance if got.ndim == 0 else got.variances)
            b = np.asarray(want.data.variance if want.ndim == 0 else want.data.variances)
            check(f'groupby: {op}: variances', np.allclose(a, b, equal_nan=True), k)


def groupby_events(g):
    """concat of binned data: the events of the bins of a group, in order."""
    n = g.integer(1, 6)
    other = g.boolean()
    dims, shape = (['d', 'y'], (n, g.integer(1, 3))) if other else (['d'], (n,))
    if other and g.boolean():
        dims, shape = dims[::-1], shape[::-1]
    data = C57.gen_binned(g, dims, shape)
    if not isinstance(data.bins.constituents['data'], sc.DataArray):
        raise Discard
    key, values = gen_key(g, n)
    da = sc.DataArray(data, coords={'key': key})
    distinct = sorted(set(values))
    g.note(show(da))
    before = da.copy()
    try:
        r = da.groupby('key').concat('d')
    except (sc.DTypeError, RuntimeError, TypeError) as e:
        if 'dtype' in str(e).lower():  # not all types of events can be concatenated
            raise Discard from None
        raise
    g.nontrivial(n > 1)
    check('groupby: input', C57.same('', before, da) is None)
    check('groupby: dims', set(r.dims) == {'key', *dims} - {'d'} and r.sizes['key'] == len(distinct))
    for k, u in enumerate(distinct):
        members = [i for i, v in enumerate(values) if v == u]
        for where in indices({d: s for d, s in zip(dims, shape, strict=True) if d != 'd'}):
            got = r['key', k]
            parts = [da['d', i] for i in members]
            for d, i in where.items():
                got = got[d, i]
                parts = [p[d, i] for p in parts]
            parts = [p.value for p in parts if p.value.sizes['event']]
            got = got.value
            check('groupby: events', got.sizes['event'] == sum(p.sizes['event'] for p in parts))
            if parts:
                want = sc.concat(parts, 'event')
                wrong = C57.same('', want.data, got.data)
                check('groupby: events', wrong is None, wrong)
                for c in want.coords:
                    wrong = C57.same(c, sc.DataArray(want.coords[c]).data, got.coords[c])
                    check('groupby: event coords', wrong is None or 'aligned' in wrong, wrong)


# --- histograms --------------------------------------------------------------------------------

def gen_histogram(g, most=3):
    dims = g.permutation(['x', 'y', 'z'])[:g.integer(1, most)]
    sizes = {d: g.integer(1, 5) for d in dims}
    a = np.abs(numbers(g, list(sizes.values()))) * 4
    da = sc.DataArray(layout(g, var(sizes, a, unit='counts', variances=a + 1.0 if g.boolean(0.3) else None)))
    for d in dims:
        e = points(g, sizes[d] + 1)
        if g.boolean(0.2):
            e = e[::-1].copy()
        da.coords[d] = layout(g, sc.array(dims=[d], values=e, unit='m'))
    for k in range(g.draw(2)):
        s = {d: sizes[d] for d in g.subset(dims, 0.5)}
        da.coords[f'c{k}'] = var(s, numbers(g, list(s.values())), unit='s')
    if g.boolean(0.3):
        s = {d: sizes[d] for d in g.subset(dims, 0.5)}
        da.masks['m'] = var(s, numbers(g, list(s.values())) > 5, unit=None)
    return da


def densities(g):
    """A density is the counts divided by the width of the bin; back is the inverse."""
    da = gen_histogram(g)
    for d in da.dims:
        if da.coords[d][d, 0].value > da.coords[d][d, -1].value:
            raise Discard
    dim = g.pick(da.dims)
    g.note(f'{dim}\n{show(da)}')
    before = da.copy()
    dataset = g.boolean(0.2) and not da.masks
    r = sc.counts_to_density(sc.Dataset({'a': da}), dim)['a'] if dataset else sc.counts_to_density(da, dim)
    g.nontrivial(da.size > 1)
    check('density: input', sc.identical(da, before))
    check('density: unit', r.unit == sc.Unit('counts/m'), r.unit)
    check('density: dims', r.dims == da.dims and set(r.coords) == set(da.coords) and set(r.masks) == set(da.masks))
    e = da.coords[dim].values
    width = e[1:] - e[:-1]
    shape = [-1 if d == dim else 1 for d in da.dims]
    check('density: values', np.allclose(r.values, da.values / width.reshape(shape)), lambda: show(r))
    if da.variances is not None:
        check('density: variances', np.allclose(r.variances, da.variances / (width.reshape(shape) ** 2)))
    back = sc.density_to_counts(r, dim)
    check('density: back', back.unit == da.unit and np.allclose(back.values, da.values))
    for k in da.coords:
        check('density: coords', sc.identical(back.coords[k], da.coords[k]), k)


def overlap(a, b):
    """Fraction of every bin of a that is in every bin of b."""
    lo = np.maximum.outer(np.minimum(a[:-1], a[1:]), np.minimum(b[:-1], b[1:]))
    hi = np.minimum.outer(np.maximum(a[:-1], a[1:]), np.maximum(b[:-1], b[1:]))
    return np.maximum(hi - lo, 0.0) / np.abs(a[1:] - a[:-1])[:, None]


def rebin(g):
    """Every bin is distributed over the new ones in proportion to the overlap."""
    da = gen_histogram(g)
    names = g.subset(da.dims, 0.6) or [da.dims[0]]
    args, edges = {}, {}
    for d in names:
        e = da.coords[d].values
        descending = len(e) > 1 and e[0] > e[-1]
        how = g.pick(['edges', 'count', 'width'])
        if how == 'edges' or descending:
            new = e.min() - 1 + np.cumsum([g.integer(0, 4) * 0.5 + 0.25 for _ in range(g.integer(2, 5))])
            if descending:
                new = new[::-1].copy()
            args[d] = sc.array(dims=[d], values=new, unit='m')
        elif how == 'count':
            args[d] = g.integer(1, 5)
            new = np.linspace(e[0], e[-1], args[d] + 1)
            new[-1] = np.nextafter(new[-1], np.inf)
        else:
            width = g.pick([0.25, 0.5, 1.0, 3.0])
            args[d] = sc.scalar(width, unit='m')
            new = None
        edges[d] = new
    args = {d: args[d] for d in g.permutation(args)}
    g.note(f'{args}\n{show(da)}')
    before = da.copy()
    r = da.rebin(args) if g.boolean() else sc.rebin(da, **args)
    g.nontrivial(da.size > 1)
    check('rebin: input', sc.identical(da, before))
    check('rebin: dims', set(r.dims) == set(da.dims) and r.unit == da.unit, r.dims)
    want, variances = da.values.copy(), da.variances
    for k, m in da.masks.items():  # applied if they depend on a dim that is rebinned, kept otherwise
        if set(m.dims) & set(args):
            check('rebin: mask', k not in r.masks)
            off = np.broadcast_to(np.asarray(m.transpose([d for d in da.dims if d in m.dims]).values).reshape(
                [da.sizes[d] if d in m.dims else 1 for d in da.dims]), da.shape)
            want = np.where(off, 0.0, want)
            variances = None if variances is None else np.where(off, 0.0, variances)
        else:
            check('rebin: kept mask', k in r.masks and sc.identical(r.masks[k], m))
    for d in args:
        axis = da.dims.index(d)
        got = r.coords[d].values
        if edges[d] is None:
            check('rebin: width', np.allclose(np.diff(got), args[d].value) and got[0] == da.coords[d].values[0] and
                  got[-1] >= da.coords[d].values[-1], got)
        else:
            check('rebin: edges', np.allclose(got, edges[d], rtol=1e-12, atol=1e-12), got, edges[d])
        m = overlap(da.coords[d].values, got)
        want = np.moveaxis(np.tensordot(np.moveaxis(want, axis, -1), m, axes=1), -1, axis)
        if variances is not None:
            variances = np.moveaxis(np.tensordot(np.moveaxis(variances, axis, -1), m, axes=1), -1, axis)
    r2 = r.transpose(da.dims)
    check('rebin: values', np.allclose(r2.values, want), lambda: f'{show(r)} {want}')
    if variances is not None:
        check('rebin: variances', np.allclose(r2.variances, variances), lambda: f'{show(r)} {variances}')
    for k, c in da.coords.items():
        if k in args:
            continue
        if set(c.dims) & set(args):
            check('rebin: dropped coord', k not in r.coords, k)
        else:
            check('rebin: kept coord', k in r.coords and sc.identical(r.coords[k], c), k)


def merge_adjacent(g):
    """Neighbouring bins of equal values become one."""
    n = g.integer(1, 9)
    a = np.array([g.integer(0, 2) for _ in range(n)], dtype=g.pick(['float64', 'int64']))
    e = points(g, n + 1)
    da = sc.DataArray(sc.array(dims=['x'], values=a, unit='K'), coords={'x': sc.array(dims=['x'], values=e, unit='m')})
    g.note(show(da))
    before = da.copy()
    r = merge_equal_adjacent(da)
    g.nontrivial(n > 1)
    check('merge: input', sc.identical(da, before))
    values, edges = [], [e[0]]
    for k in range(n):
        if not values or values[-1] != a[k]:
            values.append(a[k])
            edges.append(e[k + 1])
        else:
            edges[-1] = e[k + 1]
    check('merge: values', list(r.values) == values and r.unit == da.unit and r.dtype == da.dtype, r.values, values)
    check('merge: edges', list(r.coords['x'].values) == edges and list(r.coords) == ['x'], r.coords['x'].values, edges)


LAWS = {
    'groupby': (5000, 120000, groupby),
    'groupby_events': (1500, 40000, groupby_events),
    'densities': (1200, 30000, densities),
    'rebin': (4000, 100000, rebin),
    'merge_adjacent': (800, 20000, merge_adjacent),
}

if __name__ == '__main__':
    main('C59', RULE, LAWS)
