# interpreter: _scipp
"""C58: functions of scipy applied to labelled data: integration, interpolation, filters, fits."""
import math

import scipy.integrate
import scipy.interpolate
import scipy.ndimage
import scipy.signal
from pbt import Discard, check, main
from real import ERRORS, arr, at, close, indices, np, sc, show, var

from scipp.scipy.integrate import simpson, trapezoid
from scipp.scipy.interpolate import interp1d
from scipp.scipy.ndimage import (gaussian_filter, generic_filter, maximum_filter, median_filter, minimum_filter,
                                 percentile_filter, rank_filter)
from scipp.scipy.optimize import curve_fit as curve_fit_1d
from scipp.scipy.signal import butter, sosfiltfilt

RULE = 'a case counts if the result has at least two elements or came from at least two'

REFUSED = (*ERRORS, sc.DTypeError, sc.DimensionError, sc.UnitError, sc.VariancesError, sc.BinEdgeError, sc.CoordError)


def numbers(g, shape, dtype='float64', low=-20, high=20):
    n = int(np.prod(shape, dtype=int))
    a = np.array([g.integer(low, high) for _ in range(n)], dtype=dtype)
    return (a if a.dtype.kind == 'i' else a * 0.5).reshape(shape)


def points(g, n, regular=None):
    """Strictly increasing positions."""
    if g.boolean(0.4) if regular is None else regular:
        return g.integer(-5, 5) + g.pick([0.5, 1.0, 0.25, 2.0]) * np.arange(n)
    return g.integer(-5, 5) + np.cumsum([0.5 * g.integer(1, 6) for _ in range(n)])


def layout(g, v):
    """The same variable with another layout of memory."""
    if v.ndim == 0:
        return v
    how = g.pick(['plain', 'transpose', 'slice'])
    if how == 'transpose':
        return v.transpose(g.permutation(v.dims)).copy().transpose(v.dims)
    if how == 'slice':
        d = g.pick(v.dims)
        return sc.concat([v[d, :1], v, v[d, :1]], d)[d, 1:-1] if v.sizes[d] else v
    return v


def gen_array(g, n=(2, 8), dtype='float64', masks=True, regular=None, unit=None, most=3):
    """(data array with coord along the dim, the dim)"""
    dims = g.permutation(['x', 'y', 'z'])[:g.integer(1, most)]
    dim = g.pick(dims)
    sizes = {d: g.integer(*n) if d == dim else g.integer(1, 3) for d in dims}
    unit = unit or g.pick(['K', 'counts', 'one'])
    da = sc.DataArray(layout(g, var(sizes, numbers(g, list(sizes.values()), dtype), unit=unit)), name='name')
    da.coords[dim] = layout(g, sc.array(dims=[dim], values=points(g, sizes[dim], regular), unit='m'))
    for k in range(g.draw(3)):
        s = {d: sizes[d] for d in g.subset(dims, 0.5)}
        if s and g.boolean(0.2):
            s[next(iter(s))] += 1
        da.coords[f'c{k}'] = var(s, numbers(g, list(s.values())), unit='s')
        if g.boolean(0.3):
            da.coords.set_aligned(f'c{k}', False)
    if masks:
        for k in range(g.draw(2)):
            s = {d: sizes[d] for d in g.subset([d for d in dims if d != dim] or dims, 0.6) if d != dim}
            da.masks[f'm{k}'] = var(s, numbers(g, list(s.values())) > 0, unit=None)
    return da, dim


def lines(a, dim):
    """(position without the dim, values along the dim) for all lines."""
    others = {d: n for d, n in a.sizes.items() if d != dim}
    axis = a.dims.index(dim)
    v = np.moveaxis(arr(a), axis, -1)
    for where in indices(others):
        yield where, v[tuple(where.values())]


def check_observers(label, da, r, dim, keep=False, drop_masks=False):
    """Coords and masks that do not depend on the dim are kept, masks as copies."""
    coords = {k: c for k, c in da.coords.items() if keep or dim not in c.dims}
    extra = {dim} if label.startswith('interp') else set()
    check(f'{label}: coords', set(r.coords) - extra == set(coords) - extra, list(r.coords), list(coords))
    for k in set(coords) - extra:
        check(f'{label}: coord', sc.identical(r.coords[k], coords[k]) and r.coords[k].aligned == coords[k].aligned, k)
    masks = {k: m for k, m in da.masks.items() if dim not in m.dims}
    check(f'{label}: masks', set(r.masks) == set(masks), list(r.masks))
    for k, m in masks.items():
        check(f'{label}: mask', sc.identical(r.masks[k], m), k)
        if m.ndim:
            check(f'{label}: mask shared', not np.shares_memory(r.masks[k].values, m.values), k)


def refused(g, label, f, da, dim):
    """Calls that must be refused."""
    how = g.pick(['variances', 'edges', 'mask', 'axis'])
    x, kw = da.copy(), {}
    if how == 'variances':
        x = x.to(dtype='float64')
        x.variances = np.ones(x.shape)
    elif how == 'edges':
        last = x.coords[dim][dim, -1:]
        x.coords[dim] = sc.concat([x.coords[dim], last + sc.scalar(1, unit=last.unit)], dim)
    elif how == 'mask':
        if label == 'interp':
            return
        x.masks['along'] = sc.zeros(sizes={dim: x.sizes[dim]}, dtype='bool')
    else:
        kw = {'axis': 0}
    try:
        f(x, dim, **kw)
    except REFUSED:
        return
    check(f'{label}: {how} accepted', False)


def integrate(g):
    """The trapezoidal rule by its definition, Simpson's as scipy's of every line."""
    da, dim = gen_array(g, dtype=g.pick(['float64', 'int64', 'float32']))
    f = g.pick([trapezoid, simpson])
    g.note(f'{f.__name__} {dim}\n{show(da)}')
    before = da.copy()
    r = f(da, dim)
    g.nontrivial(da.size > 1)
    check('integrate: dims', r.dims == tuple(d for d in da.dims if d != dim), r.dims)
    check('integrate: unit', r.unit == da.unit * sc.Unit('m'), r.unit)
    check('integrate: input', sc.identical(da, before))
    x = da.coords[dim].values
    for where, y in lines(da.data, dim):
        y = y.astype(float)
        want = sum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(x) - 1)) if f is trapezoid else \
            scipy.integrate.simpson(y, x=x)
        check(f'integrate: {f.__name__}', close(at(r.data, where), want, 1e-5 if da.dtype == 'float32' else 1e-9), where,
              at(r.data, where), want)
    check_observers('integrate', da, r, dim)
    refused(g, 'integrate', f, da, dim)
    try:
        f(da, dim, dx=1.0)
    except ValueError:
        return
    check('integrate: dx accepted', False)


def value_at(kind, x, y, p, fill):
    """A function known at the points, at p."""
    if math.isnan(p):
        return math.nan
    if not x[0] <= p <= x[-1]:
        return fill
    if kind == 'linear':
        return np.interp(p, x, y)
    if kind in ('previous', 'zero'):
        return y[np.searchsorted(x, p, side='right') - 1]
    if kind == 'next':
        return y[np.searchsorted(x, p, side='left')]
    d = np.abs(x - p)
    k = int(np.argmin(d))
    if kind == 'nearest-up' and k + 1 < len(x) and d[k + 1] == d[k]:
        k += 1
    return y[k]


def interpolate(g):
    """Interpolation by its definition at new points, or at midpoints of new edges."""
    dtype = g.pick(['float64', 'float64', 'float32', 'int64', 'int32'])
    da, dim = gen_array(g, n=(4, 8), dtype=dtype)
    kind = g.pick(['linear', 'linear', 'previous', 'next', 'nearest', 'nearest-up', 'zero', 'quadratic', 'cubic', 'slinear',
                   2])
    x = da.coords[dim].values
    integral = g.boolean(0.2)
    if integral:
        x = np.cumsum([g.integer(1, 4) for _ in x]) * 2
        da.coords[dim] = sc.array(dims=[dim], values=x, unit='m', dtype='int64')
    date = g.boolean(0.15)
    if date:
        x = np.cumsum([g.integer(1, 4) for _ in x]) * 2
        da.coords[dim] = sc.datetimes(dims=[dim], values=x, unit='s')
    masked = np.zeros(len(x), dtype=bool)
    if g.boolean(0.3):
        masked = np.array([g.boolean(0.3) for _ in x])
        if np.sum(~masked) < 4:
            raise Discard
        da.masks['along'] = sc.array(dims=[dim], values=masked)
    points_ = np.array([g.pick([float(g.pick(x)), float(x[0] + 0.25 * g.integer(-2, 4 * int(x[-1] - x[0]) + 2))])
                        for _ in range(g.integer(0, 6))])
    if integral or date:
        points_ = np.floor(points_).astype('int64')
    midpoints = g.boolean(0.3) and len(points_) > 1
    if midpoints:
        points_ = np.sort(points_)
    new = sc.datetimes(dims=[dim], values=points_, unit='s') if date else \
        sc.array(dims=[dim], values=points_, unit='m', dtype='int64' if integral else 'float64')
    kw, fill = {}, math.nan
    if g.boolean(0.3):
        kw['fill_value'] = fill = 7.5 if dtype[0] == 'f' else 7
    kw['bounds_error'] = False
    extra = g.boolean(0.2) and not date
    if extra:
        kw['fill_value'] = 'extrapolate'
    g.note(f'{kind} {kw} at {points_} midpoints={midpoints}\n{show(da)}')
    before = da.copy()
    f = interp1d(da, dim, kind=kind, **kw)
    r = f(new, midpoints=True) if midpoints else f(new)
    check('interp: input', sc.identical(da, before))
    g.nontrivial(len(points_) > 1)
    p = (points_[1:] + points_[:-1]) / 2 if midpoints else points_
    check('interp: dims', r.dims == da.dims and r.sizes[dim] == len(p), r.sizes)
    check('interp: unit', r.unit == da.unit)
    check('interp: dim coord', sc.identical(r.coords[dim], new), lambda: show(r))
    check('interp: dtype', str(r.dtype) == ('float32' if dtype == 'float32' else 'float64'), r.dtype)
    xs = np.asarray(x, dtype=float)[~masked]
    got = dict((tuple(w.values()), v) for w, v in lines(r.data, dim))
    tol = 1e-4 if dtype == 'float32' else 1e-8
    for where, y in lines(da.data, dim):
        y = y.astype(float)[~masked]
        if kind in ('quadratic', 'cubic', 'slinear', 2) or extra:
            want = scipy.interpolate.interp1d(xs, y, kind=kind, bounds_error=False,
                                              fill_value='extrapolate' if extra else fill)(np.asarray(p, dtype=float))
        else:
            want = np.array([value_at(kind, xs, y, float(q), fill) for q in p])
        check(f'interp: {kind}', close(got[tuple(where.values())], want, tol), where, got[tuple(where.values())], want)
    check_observers('interp', da, r, dim)
    refused(g, 'interp', interp1d, da, dim)
    if not date:
        for bad in (sc.array(dims=[dim], values=[1.0], unit='s'), sc.array(dims=['other'], values=[1.0], unit='m')):
            try:
                f(bad)
            except REFUSED:
                continue
            check('interp: points accepted', False, bad)


FILTERS = {'maximum': (maximum_filter, scipy.ndimage.maximum_filter, {}),
           'minimum': (minimum_filter, scipy.ndimage.minimum_filter, {}),
           'median': (median_filter, scipy.ndimage.median_filter, {}),
           'percentile': (percentile_filter, scipy.ndimage.percentile_filter, {'percentile': 80}),
           'rank': (rank_filter, scipy.ndimage.rank_filter, {'rank': 0}),
           'generic': (generic_filter, scipy.ndimage.generic_filter, {'function': np.sum})}


def filters(g):
    """scipy's filter of the values, with sizes in the order of dims, however given."""
    dims = g.permutation(['x', 'y', 'z'])[:g.integer(1, 3)]
    sizes = {d: g.integer(3, 5) for d in dims}
    data = layout(g, var(sizes, numbers(g, list(sizes.values()), g.pick(['float64', 'float32', 'int64'])), unit='K'))
    steps = {d: g.pick([0.25, 0.5, 1.0, 2.0]) for d in dims}
    array = g.boolean(0.7)
    x = sc.DataArray(data, coords={d: sc.array(dims=[d], values=g.integer(-3, 3) + steps[d] * np.arange(sizes[d]),
                                               unit='m') for d in dims}) if array else data
    mode = g.pick([{}, {'mode': 'nearest'}, {'mode': 'constant', 'cval': 2.0}, {'mode': 'wrap'}])

    def spell(amounts):
        """A number of elements per dim, as an argument."""
        how = g.pick(['mapping', 'mapping', 'coords'])
        if len(set(amounts.values())) == 1 and g.boolean():
            return next(iter(amounts.values()))
        order = g.permutation(dims)
        if how == 'coords' and array:
            return {d: sc.scalar(amounts[d] * steps[d], unit='m') if g.boolean(0.7) else amounts[d] for d in order}
        return {d: amounts[d] for d in order}

    before = x.copy()
    kind = g.pick([*FILTERS, 'gaussian', 'gaussian'])
    if kind == 'gaussian':
        sigma = {d: g.pick([0.5, 1.0, 1.5, 2.0]) for d in dims}
        order = {d: g.draw(2) for d in dims}
        a, b = spell(sigma), spell(order) if g.boolean() else None
        if isinstance(b, dict):
            b = {d: order[d] for d in b}
        kw = dict(mode) if b is None else dict(mode, order=b)
        g.note(f'gaussian sigma={a} {kw}\n{show(x)}')
        r = gaussian_filter(x, sigma=a, **kw)
        want = np.empty_like(data.values)
        scipy.ndimage.gaussian_filter(np.ascontiguousarray(data.values), sigma=[sigma[d] for d in dims], output=want,
                                      order=0 if b is None else [order[d] for d in dims], **mode)
    else:
        f, direct, kw = FILTERS[kind]
        size = {d: g.integer(1, 3) for d in dims}
        origin = {d: g.draw((size[d] - 1) // 2) for d in dims}
        kw = dict(kw, **mode)
        if g.boolean():
            kw['origin'] = spell(origin)
        else:
            origin = dict.fromkeys(dims, 0)
        shape = [size[d] for d in dims]
        if g.boolean(0.4):
            fp = numbers(g, shape) > 0
            fp.flat[g.draw(fp.size - 1)] = True
            footprint = var(size, fp, unit=None).transpose(g.permutation(dims))
            if g.boolean():
                footprint = footprint.copy()
            args = {'footprint': footprint}
        else:
            fp = np.ones(shape, dtype=bool)
            args = {'size': spell(size)}
        g.note(f'{kind} {args} {kw}\n{show(x)}')
        r = f(x, **args, **kw)
        want = np.empty_like(data.values)
        direct(np.ascontiguousarray(data.values), footprint=fp, origin=[origin[d] for d in dims], output=want,
               **{k: v for k, v in kw.items() if k != 'origin'})
    g.nontrivial(data.size > 1)
    check('filter: input', sc.identical(x, before))
    check('filter: type', type(r) is type(x) and r.dims == x.dims and r.unit == x.unit and r.dtype == x.dtype)
    check(f'filter: {kind}', close(arr(r.data if array else r), want, 1e-6), lambda: f'{show(r)} {want}')
    if array:
        check('filter: coords', set(r.coords) == set(x.coords) and
              all(sc.identical(r.coords[d], x.coords[d]) for d in dims))
    bad = g.pick(['variances', 'masks', 'output', 'dims', 'irregular', 'both'])
    y, kw = x.copy(), {'size': 2}
    if bad == 'variances':
        if str(y.dtype)[0] != 'f':
            return
        y.variances = np.ones(y.shape)
    elif bad == 'masks':
        if not array:
            return
        y.masks['m'] = sc.scalar(False)
    elif bad == 'output':
        kw['output'] = None
    elif bad == 'dims':
        kw['size'] = {d: 2 for d in dims[1:]}
    elif bad == 'both':
        kw['footprint'] = sc.ones(sizes={d: 1 for d in dims}, dtype='bool')
    else:
        if not array:
            return
        d = g.pick(dims)
        y.coords[d] = sc.array(dims=[d], values=np.arange(sizes[d]) ** 2.0, unit='m')
        kw['size'] = {e: sc.scalar(2.0, unit='m') for e in dims}
    try:
        median_filter(y, **kw)
    except REFUSED:
        return
    check(f'filter: {bad} accepted', False)


def signals(g):
    """scipy's filter along the axis of the dim, with the sampling frequency of the coord."""
    da, dim = gen_array(g, n=(40, 60), regular=True, most=2)
    n = da.sizes[dim]
    x = da.coords[dim].values
    fs = (n - 1) / (x[-1] - x[0])
    order = g.integer(1, 3)
    kw = g.pick([{}, {'btype': 'high'}, {'btype': 'band'}])
    wn = fs * (np.array([0.1, 0.3]) if kw.get('btype') == 'band' else g.integer(1, 9) / 20)
    scale = g.pick([1.0, 1000.0])
    unit = '1/m' if scale == 1.0 else '1/km'
    w = sc.array(dims=['w'], values=wn * scale, unit=unit) if np.ndim(wn) else sc.scalar(wn * scale, unit=unit)
    g.note(f'butter N={order} Wn={w} {kw} along {dim}\n{show(da)}')
    s = butter(da.coords[dim], N=order, Wn=w, **kw)
    want_sos = scipy.signal.butter(N=order, Wn=wn, fs=fs, output='sos', **kw)
    check('signal: sos', close(s.sos, want_sos, 1e-6), s.sos, want_sos)
    before = da.copy()
    r = s.filtfilt(da, dim) if g.boolean() else sosfiltfilt(da, dim, sos=s)
    g.nontrivial(True)
    check('signal: input', sc.identical(da, before))
    check('signal: dims', r.dims == da.dims and r.unit == da.unit)
    got = dict((tuple(w.values()), v) for w, v in lines(r.data, dim))
    for where, y in lines(da.data, dim):
        check('signal: values', close(got[tuple(where.values())], scipy.signal.sosfiltfilt(want_sos, y), 1e-6), where)
    check_observers('signal', da, r, dim, keep=True)
    plain = sosfiltfilt(da.data, dim, sos=s)
    check('signal: variable', sc.identical(plain.data, r.data) and set(plain.coords) == {dim})
    other = da.copy()
    other.coords[dim] = other.coords[dim] * 2.0
    for bad in (lambda: sosfiltfilt(other, dim, sos=s), lambda: butter(da.coords[dim], N=1, Wn=sc.scalar(1.0, unit='s'))):
        try:
            bad()
        except REFUSED:
            continue
        check('signal: accepted', False)


# --- fits: of linear models, whose solution is known -------------------------------------------

def solution(columns, y, sigma):
    """Parameters and covariance of the least-squares problem."""
    w = np.ones_like(y) if sigma is None else 1 / sigma
    m = columns * w[:, None]
    popt = np.linalg.lstsq(m, y * w, rcond=None)[0]
    inv = np.linalg.inv(m.T @ m)
    n, k = m.shape
    if n > k:
        inv = inv * (np.sum((m @ popt - y * w) ** 2) / (n - k))
    return popt, inv


def fit_close(a, b, scale=1.0):
    return np.allclose(a, b, rtol=2e-4, atol=2e-4 * scale)


def linear(x, *, a, b):
    return a * x + b


def fit_1d(g):
    """A fit of a line is the solution of the normal equations, with units."""
    n = g.integer(4, 9)
    x = points(g, n)
    y = g.integer(-3, 3) * x + g.integer(-9, 9) + numbers(g, (n,)) * 0.1
    sigma = np.array([g.integer(1, 4) for _ in range(n)]) * 0.5 if g.boolean() else None
    da = sc.DataArray(sc.array(dims=['x'], values=y, variances=None if sigma is None else sigma**2, unit='K'),
                      coords={'x': sc.array(dims=['x'], values=x, unit='m')})
    keep = np.ones(n, dtype=bool)
    if g.boolean(0.4):
        keep = np.array([g.boolean(0.8) for _ in range(n)])
        if keep.sum() < 4:
            raise Discard
        da.masks['m'] = sc.array(dims=['x'], values=~keep)
    p0 = {'a': sc.scalar(1.0, unit='K/m'), 'b': sc.scalar(2.0, unit='K')}
    p0 = {k: p0[k] for k in g.permutation(p0)}
    absolute = g.boolean(0.3) and sigma is not None
    bounds = None
    if g.boolean(0.3):
        bounds = {'a': (sc.scalar(-1e7, unit='mK/m'), sc.scalar(1e7, unit='mK/m'))}
    g.note(f'{show(da)} {p0} {bounds}')
    before = da.copy()
    popt, pcov = curve_fit_1d(linear, da, p0=p0, bounds=bounds, **({'absolute_sigma': True} if absolute else {}))
    g.nontrivial(True)
    check('fit: input', sc.identical(da, before))
    s = None if sigma is None else sigma[keep]
    want, cov = solution(np.stack([x, np.ones(n)], axis=1)[keep], y[keep], s)
    if absolute:
        m = np.stack([x, np.ones(n)], axis=1)[keep] / s[:, None]
        cov = np.linalg.inv(m.T @ m)
    scale = 1 + np.abs(y).max()
    if np.abs(want).min() < 1e-3:
        raise Discard  # the optimizer's steps are relative to the parameters
    names = ['a', 'b']
    check('fit: names', set(popt) == {'a', 'b'} and set(pcov) == {'a', 'b'})
    for i, k in enumerate(names):
        check('fit: unit', popt[k].unit == p0[k].unit, popt[k])
        check('fit: parameter', fit_close(popt[k].value, want[i], scale), k, popt[k], want)
        check('fit: variance', fit_close(popt[k].variance, cov[i, i], abs(cov).max() + 1e-6), k, popt[k], cov)
        for j, m in enumerate(names):
            check('fit: unit of covariance', pcov[k][m].unit == p0[k].unit * p0[m].unit)
            check('fit: covariance', fit_close(pcov[k][m].value, cov[i, j], abs(cov).max() + 1e-6), k, m, pcov, cov)


def fit_nd(g):
    """A fit of a plane for every slice that is not reduced, with coords, masks and units."""
    dims = g.permutation(['x', 'y', 'z'])[:g.integer(1, 3)]
    sizes = {d: g.integer(3, 5) for d in dims}
    xs = {d: points(g, sizes[d]) for d in dims}
    fitted = g.subset(dims, 0.6) or [dims[0]]
    free = [d for d in dims if d not in fitted]
    reduced = g.subset(free, 0.5)
    over = [d for d in dims if d not in fitted and d not in reduced]
    values = numbers(g, list(sizes.values()))
    sigma = None
    if g.boolean():
        sigma = np.abs(numbers(g, list(sizes.values()))) + 0.5
    da = sc.DataArray(layout(g, var(sizes, values, unit='K', variances=None if sigma is None else sigma**2)))
    for d in g.permutation(dims):
        da.coords[d] = sc.array(dims=[d], values=xs[d], unit='m')
    if g.boolean(0.3):
        s = {d: sizes[d] for d in g.subset(dims, 0.6)}
        da.coords['extra'] = var(s, numbers(g, list(s.values())), unit='s')
    keep = np.ones(list(sizes.values()), dtype=bool)
    for k in range(g.draw(2)):
        s = {d: sizes[d] for d in dims if g.boolean()}
        m = np.array([g.boolean(0.2) for _ in range(int(np.prod(list(s.values()), dtype=int)))], dtype=bool)
        m = m.reshape(list(s.values()))
        da.masks[f'm{k}'] = var(s, m, unit=None)
        keep &= ~m.reshape([sizes[d] if d in s else 1 for d in dims])
    args = [f'p{d}' for d in fitted]
    names = {c: d for c, d in zip(args, fitted, strict=True)}
    numpy_f = g.boolean(0.4)
    order = g.permutation(names)

    def f2(**kw):
        out = kw['c']
        for arg in args:
            out = out + kw['s' + arg] * kw[arg]
        return out

    source = f"def f({', '.join(g.permutation(args))}, {', '.join(g.permutation(['s' + a for a in args] + ['c']))}):\n" + \
        '    return ' + ' + '.join([f's{a} * {a}' for a in args] + ['c'])
    scope = {}
    exec(source, scope)
    f = scope['f']
    p0 = {'s' + a: sc.scalar(1.0, unit='K/m') for a in args} | {'c': sc.scalar(0.5, unit='K')}
    if over and g.boolean(0.3):  # initial values may depend on the slice
        p0['c'] = sc.array(dims=[over[0]], values=np.arange(float(sizes[over[0]])), unit='K')
    p0 = {k: p0[k] for k in g.permutation(p0)}
    bounds = {'c': (sc.scalar(-1e6, unit='K'), sc.scalar(1e9, unit='mK'))} if g.boolean(0.2) else None
    how = g.pick(['mapping', 'variables'])
    coords = {a: names[a] if how == 'mapping' else da.coords[names[a]] for a in order}
    g.note(f'{source}\n{coords} p0={p0} reduce={reduced} numpy={numpy_f} {bounds}\n{show(da)}')
    before = da.copy()
    from scipp import curve_fit
    enough = True
    inner = [d for d in dims if d not in over]
    for where in indices({d: sizes[d] for d in over}):
        k = keep[tuple(where[d] if d in where else slice(None) for d in dims)]
        if 0 < k.sum() < len(p0) + 2 and k.sum() >= len(p0):
            enough = False
        cols = [np.broadcast_to(xs[d].reshape([-1 if e == d else 1 for e in inner]), [sizes[e] for e in inner])[k]
                for d in fitted]
        if k.sum() >= len(p0) and np.linalg.matrix_rank(np.stack([*cols, np.ones(int(k.sum()))], axis=1)) < len(p0):
            enough = False
    if not enough:
        raise Discard
    popt, pcov = curve_fit(coords, f, da, p0=p0, bounds=bounds, reduce_dims=reduced, unsafe_numpy_f=numpy_f)
    g.nontrivial(True)
    check('fit: input', sc.identical(da, before))
    check('fit: names', set(popt) == set(p0) and set(pcov) == set(p0) and all(set(c) == set(p0) for c in pcov.values()))
    params = ['s' + a for a in args] + ['c']
    for k in params:
        r = popt[k]
        check('fit: dims', r.dims == tuple(over), k, r.dims, over)
        check('fit: unit', r.unit == p0[k].unit, k, r.unit)
        coords_ = {n for n, c in da.coords.items() if c.dims and set(c.dims) <= set(over)}
        check('fit: coords', set(r.coords) == coords_, set(r.coords), coords_)
        check('fit: coord', all(sc.identical(r.coords[n], da.coords[n]) for n in coords_))
        masks = {n for n, m in da.masks.items() if set(m.dims) <= set(over)}
        check('fit: masks', set(r.masks) == masks, set(r.masks), masks)
        check('fit: mask', all(sc.identical(r.masks[n], da.masks[n]) for n in masks))
        for m in params:
            check('fit: unit of covariance', pcov[k][m].unit == p0[k].unit * p0[m].unit)
            check('fit: dims of covariance', pcov[k][m].dims == tuple(over))
    for where in indices({d: sizes[d] for d in over}):
        k = keep[tuple(where[d] if d in where else slice(None) for d in dims)]
        got = np.array([float(at(popt[p].data, where)) for p in params])
        if k.sum() < len(params):
            check('fit: too few points', np.all(np.isnan(got)), where, got)
            continue
        y = values[tuple(where[d] if d in where else slice(None) for d in dims)][k]
        s = None if sigma is None else sigma[tuple(where[d] if d in where else slice(None) for d in dims)][k]
        cols = [np.broadcast_to(xs[d].reshape([-1 if e == d else 1 for e in inner]), [sizes[e] for e in inner])[k]
                for d in fitted]
        want, cov = solution(np.stack([*cols, np.ones(len(y))], axis=1), y, s)
        scale = 1 + np.abs(y).max()
        check('fit: parameters', fit_close(got, want, scale), where, got, want)
        if np.abs(want).min() < 1e-3:
            continue  # the optimizer's steps are relative to the parameters
        variances = [float((popt[p].variances if over else np.asarray(popt[p].variance))[
            tuple(where[d] for d in over)]) for p in params]
        check('fit: variances', fit_close(variances, np.diag(cov), abs(cov).max() + 1e-6), where, variances, np.diag(cov))
        for i, p in enumerate(params):
            for j, q in enumerate(params):
                check('fit: covariance', fit_close(float(at(pcov[p][q].data, where)), cov[i, j], abs(cov).max() + 1e-6), p, q)


LAWS = {
    'integrate': (800, 20000, integrate),
    'interpolate': (1500, 40000, interpolate),
    'filters': (1000, 25000, filters),
    'signals': (200, 5000, signals),
    'fit_1d': (500, 12000, fit_1d),
    'fit_nd': (500, 12000, fit_nd),
}

if __name__ == '__main__':
    main('C58', RULE, LAWS)
