# interpreter: _scipp
"""C54: data put into variables from Python is the data that comes out, and views stay views."""
import copy
import gc
import math

from pbt import Discard, check, main
from real import ERRORS, arr, np, sc, show, var

RULE = 'a case counts if at least two elements, or two items, were transferred'

SUPPORTED = ['float64', 'float32', 'int64', 'int32', 'bool']
DATES = ['s', 'ms', 'us', 'ns', 'm', 'h', 'D']
UNITS = {'m': 'min', 'D': 'D'}


def draw_shape(g, most=4, volume=200):
    ndim = g.draw(most)
    if most == 4 and g.boolean(0.03):
        ndim = g.integer(5, 7)
    shape = []
    for _ in range(ndim):
        n = g.integer(0 if g.boolean(0.1) else 1, 4)
        shape.append(n if np.prod(shape, dtype=int) * n <= volume else 1)
    return tuple(shape)


def draw_numbers(g, shape, dtype):
    n = int(np.prod(shape, dtype=int))
    kind = np.dtype(dtype).kind
    if kind == 'b':
        return np.array([g.boolean() for _ in range(n)], dtype=dtype).reshape(shape)
    start = g.integer(-5, 20)
    a = np.arange(start, start + n)
    if kind == 'f':
        a = a + g.pick([0.0, 0.25, 0.1])
        a = a * g.pick([1.0, 1.0, 1e6])
        if n and g.boolean(0.1):
            a[g.draw(n - 1)] = g.pick([np.nan, np.inf, -0.0])
    elif g.boolean(0.2) and np.dtype(dtype).itemsize == 8 and kind != 'M':
        a = a + g.pick([2**53, -2**60, 2**40])
    if kind == 'u':
        a = np.abs(a) % 200
    return a.astype(dtype).reshape(shape)


def numpy_layout(g, a):
    """The same elements with another layout of memory."""
    a = np.asarray(a)
    kind = g.draw(6)
    if kind == 1:
        return np.asfortranarray(a)
    if kind == 2 and a.ndim:
        axis = g.draw(a.ndim - 1)
        return np.flip(np.flip(a, axis).copy(), axis)
    if kind == 3 and a.ndim:
        axis = g.draw(a.ndim - 1)
        b = np.repeat(a, 2, axis=axis)
        return b[tuple(slice(None, None, 2) if k == axis else slice(None) for k in range(a.ndim))]
    if kind == 4:
        order = g.permutation(range(a.ndim))
        return a.transpose(order).copy().transpose(np.argsort(order) if order else None)
    if kind == 5 and a.ndim and a.dtype.kind in 'fib' and a.shape[0] > 0:
        return np.broadcast_to(a[:1], a.shape)
    if kind == 6:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


def fits(a, dtype):
    """True if numpy defines the result of converting the elements."""
    kind = np.dtype(dtype).kind
    if kind == 'f' or a.size == 0:
        return True
    if a.dtype.kind == 'f' and not np.all(np.isfinite(a)):
        return False
    if kind == 'b':
        return True
    info = np.iinfo(dtype)
    return bool(info.min <= a.min() and a.max() <= info.max)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and \
        bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fM'))


def dims_for(shape):
    return ['x', 'y', 'z', 'u', 'v', 'w', 'q'][: len(shape)]


def arrays(g):
    """A variable made from an array or nested lists has its elements, converted as numpy does, and is a copy."""
    shape = draw_shape(g)
    source = g.pick([*SUPPORTED, *SUPPORTED, '>f8', '>i4', 'int16', 'uint8', 'float16', 'uint64'])
    a = numpy_layout(g, draw_numbers(g, shape, source))
    shape = a.shape
    dtype = g.pick([None, None, *SUPPORTED])
    if dtype is not None and not fits(a, dtype):
        raise Discard
    kind = np.dtype(source).newbyteorder('=')
    supported = kind.name in SUPPORTED
    as_list = supported and not kind.name.endswith('32') and g.boolean(0.2) and a.size > 0 and a.ndim > 0
    target = dtype or (kind.name if supported else None)
    variances = None
    if (target or 'float64').startswith('float') and g.boolean(0.4):
        variances = numpy_layout(g, np.abs(draw_numbers(g, shape, target)))
        if variances.shape != shape:
            variances = None
    unit = g.pick(['m', 'default', None, 'one'])
    g.note(f'{source} {a.strides} to {dtype}, unit {unit}{" list" if as_list else ""}\n{a.tolist()} {variances}')
    g.nontrivial(a.size > 1)
    before = a.copy()
    args = {'values': a.tolist() if as_list else a, 'dtype': dtype}
    if variances is not None:
        args['variances'] = variances
    if unit != 'default':
        args['unit'] = unit
    try:
        v = sc.array(dims=dims_for(shape), **args) if shape else \
            sc.scalar(a[()], **{k: x for k, x in {**args, 'variance': None if variances is None else variances[()]
                                                 }.items() if k not in ('values', 'variances')})
    except ERRORS as e:
        large = a.ndim > 6 and (not a.flags.c_contiguous or (variances is not None and not variances.flags.c_contiguous))
        check('arrays: refused', not supported or large or source.startswith('>'), source, repr(e))
        return
    want = before.astype(target) if target else before
    check('arrays: dtype', target is None or str(v.dtype) == target, v.dtype, target)
    check('arrays: dims', v.dims == tuple(dims_for(shape)) and v.shape == shape)
    check('arrays: values', same(arr(v), want) if target else np.array_equal(arr(v), want), arr(v), want)
    check('arrays: variances', (v.variances is None) == (variances is None))
    if variances is not None:
        check('arrays: variances', same(v.variances if v.ndim else np.asarray(v.variance), variances))
    if unit == 'default':
        check('arrays: default unit', v.unit == (None if target == 'bool' else sc.Unit('one')), v.unit)
    else:
        check('arrays: unit', v.unit == (None if unit is None else sc.Unit(unit)))
    if a.ndim and not as_list and v.size:
        check('arrays: a copy', not np.shares_memory(v.values, a))
        v.values[...] = 0
        check('arrays: source changed', same(a, before))


def mismatch(g):
    """Sizes that do not fit the dims, or each other, are refused."""
    shape = draw_shape(g, 3)
    a = draw_numbers(g, shape, 'float64')
    other = draw_shape(g, 3)
    b = draw_numbers(g, other, 'float64')
    dims = dims_for(g.pick([shape, other, draw_shape(g, 3)]))
    g.note(f'{dims} {shape} {other}')
    g.nontrivial(a.size > 1)
    good = shape == other and len(dims) == len(shape) and shape
    try:
        v = sc.array(dims=dims, values=a, variances=b)
    except ERRORS:
        check('mismatch: refused', not good)
    else:
        check('mismatch: accepted', good or (not dims and a.ndim == 0 and b.ndim == 0), lambda: show(v))
    w = sc.zeros(dims=dims_for(other), shape=other, with_variances=True)
    for name in ['values', 'variances']:
        old = arr(w).copy()
        try:
            if w.ndim:
                setattr(w, name, a)
            else:
                break
        except ERRORS:
            check('mismatch: refused', shape != other)
            check('mismatch: changed by failure', same(arr(w), old))
        else:
            check('mismatch: values accepted', shape == other, shape, other)


def assignment(g):
    """values and variances can be set from any array; it is converted like numpy does; nothing else changes."""
    shape = draw_shape(g, 3)
    if not shape:
        raise Discard
    dtype = g.pick(SUPPORTED)
    whole_shape = tuple(n + g.draw(2) for n in shape)
    model = {'values': draw_numbers(g, whole_shape, dtype)}
    if dtype.startswith('float') and g.boolean():
        model['variances'] = np.abs(draw_numbers(g, whole_shape, dtype))
    w = sc.array(dims=dims_for(shape), unit='m', **model)
    order = g.permutation(w.dims)
    v = w.transpose(order)
    views = {k: a.transpose([w.dims.index(d) for d in order]) for k, a in model.items()}
    for d in order:
        n = shape[w.dims.index(d)]
        low = g.draw(v.sizes[d] - n)
        views = {k: a[tuple(slice(low, low + n) if e == d else slice(None) for e in order)] for k, a in views.items()}
        v = v[d, low:low + n]
    name = g.pick(list(model))
    source = g.pick(SUPPORTED)
    new = numpy_layout(g, draw_numbers(g, views[name].shape, source))
    if not fits(new, dtype):
        raise Discard
    g.note(f'{show(w)}\n{name} of {order} {v.sizes} = {source} {new.tolist()} {new.strides}')
    g.nontrivial(new.size > 1)
    holder = g.draw(2)
    target = v if holder == 0 else sc.DataArray(v) if holder == 1 else sc.DataArray(v, masks={'m': sc.scalar(True)})
    try:
        if g.boolean(0.2) and new.size:
            setattr(target, name, new.tolist())
        else:
            setattr(target, name, new)
    except ERRORS as e:
        check('assignment: refused', new.ndim > 6 and not new.flags.c_contiguous, repr(e))
        return
    views[name][...] = new.astype(dtype)
    check('assignment', same(w.values, model['values']), w.values, model['values'])
    if 'variances' in model:
        check('assignment: variances', same(w.variances, model['variances']), w.variances, model['variances'])


def scalars(g):
    """Scalars keep type and value; value and variance of 0-D slices can be read and set."""
    kind = g.pick(['float', 'int', 'bool', 'str', 'np', 'date', 'variable', 'object', 'array'])
    x = {'float': lambda: g.integer(-9, 9) / 4, 'int': lambda: g.integer(-2**62, 2**62), 'bool': g.boolean,
         'str': lambda: 's' * g.draw(30) + 'ü', 'np': lambda: draw_numbers(g, (), g.pick(SUPPORTED))[()],
         'date': lambda: np.datetime64(g.integer(-10**6, 10**6), g.pick(DATES)),
         'variable': lambda: sc.arange('r', float(g.draw(4)), unit='m'),
         'object': lambda: {'a': [1, 2, g.draw(9)]},
         'array': lambda: sc.DataArray(sc.arange('r', g.integer(0, 3)), coords={'r': sc.arange('r', 0)[0:0]}
                                       if False else {})}[kind]()
    g.note(f'{kind} {x!r}')
    g.nontrivial(True)
    v = sc.scalar(x)
    if kind in ('variable', 'array'):
        check('scalars: element', sc.identical(v.value, x))
    elif kind == 'object':
        check('scalars: object', v.value is x or v.value == x)
    else:
        check('scalars: value', v.value == x or (x != x and v.value != v.value), v.value)
        want = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'str': 'string', 'date': 'datetime64'}.get(
            kind, getattr(getattr(x, 'dtype', None), 'name', None))
        check('scalars: dtype', str(v.dtype) == want, v.dtype, want)
    check('scalars: default unit', v.unit == {
        'float': sc.Unit('one'), 'int': sc.Unit('one'),
        'np': None if str(v.dtype) == 'bool' else sc.Unit('one'),
        'date': sc.Unit(UNITS.get(np.datetime_data(x)[0], np.datetime_data(x)[0])) if kind == 'date' else None,
    }.get(kind), v.unit)
    for c in (v.copy(), copy.copy(v), copy.deepcopy(v)):
        check('scalars: copy', sc.identical(c, v, equal_nan=True) if kind not in ('object',) else c.value == x)
    if kind in ('float', 'int', 'np'):
        check('scalars: conversion', float(v) == float(x) or x != x if kind != 'int' else int(v) == x)
        n = g.integer(1, 4)
        w = sc.array(dims=['x'], values=np.array([x] * n), unit='m')
        i = g.draw(n - 1)
        y = g.integer(0, 5) if str(w.dtype) != 'bool' else True
        w['x', i].value = np.dtype(str(w.dtype)).type(y)
        want = np.array([x] * n)
        want[i] = y
        check('scalars: set value', np.array_equal(w.values, want, equal_nan=want.dtype.kind == 'f'))
    if kind == 'str':
        w = sc.array(dims=['x'], values=[x, 'b', x])
        check('scalars: strings', list(w.values) == [x, 'b', x])
        w['x', 1].value = x + 'c'
        check('scalars: set string', list(w.values) == [x, x + 'c', x] and w['x', 1].value == x + 'c')
        w.values = ['p', 'q' * 40, 'r']
        check('scalars: set strings', list(w.values) == ['p', 'q' * 40, 'r'])


def views(g):
    """Arrays got from a variable share its memory, write through unless read-only, and outlive it."""
    shape = draw_shape(g, 3)
    if not shape:
        raise Discard
    kind = g.pick(['float64', 'float32', 'int64', 'int32', 'bool', 'datetime64', 'vector'])
    if kind == 'datetime64':
        a = draw_numbers(g, shape, 'datetime64[s]')
        v = sc.array(dims=dims_for(shape), values=a, unit='s')
    elif kind == 'vector':
        a = draw_numbers(g, (*shape, 3), 'float64')
        v = sc.vectors(dims=dims_for(shape), values=a)
    else:
        a = draw_numbers(g, shape, kind)
        v = sc.array(dims=dims_for(shape), values=a, variances=np.abs(a) if kind[0] == 'f' and g.boolean() else None)
    readonly = False
    g.note(f'{show(v)}')
    root, model = v, a.copy()
    m = model
    tail = (slice(None),) if kind == 'vector' else ()
    for _ in range(g.draw(3)):
        op = g.pick(['slice', 'transpose', 'broadcast', 'point'])
        if op in ('slice', 'point') and v.ndim and 0 not in v.shape:
            d = g.pick(v.dims)
            n = v.sizes[d]
            i = g.draw(n - 1) if op == 'point' else slice(g.draw(n - 1), None, g.pick([1, 2]))
            m = m[(*(i if e == d else slice(None) for e in v.dims), ...)]
            v = v[d, i]
        elif op == 'transpose':
            order = g.permutation(v.dims)
            m = m.transpose([v.dims.index(d) for d in order] + ([v.ndim] if tail else []))
            v = v.transpose(order)
        elif op == 'broadcast' and 'b' not in v.dims:
            n = g.integer(1, 3)
            m = np.broadcast_to(m, (n, *m.shape)) if n > 1 else m[np.newaxis]
            v = v.broadcast(dims=['b', *v.dims], shape=[n, *v.shape])
            readonly = readonly or n != 1
        g.note(f'{op} to {v.sizes}')
    if v.ndim == 0:
        raise Discard
    if g.boolean(0.3):
        v = sc.DataArray(v)
        if g.boolean(0.3):
            v.coords['c'] = v.data.copy()
    w = v.values
    check('views: values', same(w, m), w, m)
    check('views: flags', w.size == 0 or w.flags.writeable != readonly, readonly)
    g.nontrivial(w.size > 1)
    if not readonly and w.size and 0 not in root.shape:
        where = tuple(g.draw(n - 1) for n in w.shape)
        new = {'bool': True, 'datetime64': np.datetime64(77, 's')}.get(kind, 77)
        w[where] = new
        m[where] = new
        check('views: write through', same(root.values, model), root.values, model)
        check('views: write through', same(v.values, m))
    if g.boolean(0.5):
        part = w[tuple(slice(0, max(1, n - 1)) for n in w.shape)]
        want = part.copy()
        del v, root, w
        gc.collect()
        trash = [sc.zeros(dims=['x'], shape=[max(1, want.size)], dtype='float64') + 9.0 * sc.Unit('one') for _ in range(5)]
        check('views: outlive', same(part, want), len(trash))


def strings(g):
    """Views of elements that are not numbers outlive their variable too."""
    n = g.length(1, 6)
    kind = g.pick(['string', 'object', 'variable', 'bins'])
    g.note(f'{kind} {n}')
    g.nontrivial(n > 1)
    if kind == 'string':
        want = ['s' * (7 * k % 40) + str(k) for k in range(n)]
        v = sc.array(dims=['x'], values=want)
    elif kind == 'object':
        want = [[k, {'k': k}] for k in range(n)]
        v = sc.concat([sc.scalar(x) for x in want], 'x')
    elif kind == 'variable':
        want = [sc.arange('r', float(k)) for k in range(n)]
        v = sc.concat([sc.scalar(x) for x in want], 'x')
    else:
        size = [g.draw(3) for _ in range(n)]
        t = sc.arange('e', float(sum(size)))
        end = np.cumsum(size)
        want = [sc.array(dims=['e'], values=np.arange(float(e - s), float(e))) for s, e in zip(size, end, strict=True)]
        v = sc.bins(data=t, dim='e', begin=sc.array(dims=['x'], values=end - size, unit=None),
                    end=sc.array(dims=['x'], values=end, unit=None))
    i = g.draw(n - 1)
    one = v['x', i].value
    elements = v.values
    from_view = v['x', i:].values
    del v
    gc.collect()
    trash = [sc.array(dims=['x'], values=['t' * 40] * 20) for _ in range(3)]

    def eq(a, b):
        return sc.identical(a, b) if isinstance(b, sc.Variable) else a == b

    check('strings: element', eq(one, want[i]), len(trash))
    check('strings: elements', len(elements) == n and all(eq(a, b) for a, b in zip(elements, want, strict=True)))
    check('strings: part', len(from_view) == n - i and all(eq(a, b) for a, b in zip(from_view, want[i:], strict=True)))
    check('strings: index', eq(elements[i], want[i]))


# --- creation ----------------------------------------------------------------------------------

def creation(g):
    """zeros, ones, full, empty and their likes have exactly the dims, dtype, unit and values asked for."""
    shape = draw_shape(g, 3)
    dims = dims_for(shape)
    dtype = g.pick([*SUPPORTED, 'datetime64', None])
    if dtype is not None and dtype == 'datetime64':
        unit = g.pick(['s', 'ns'])
    else:
        unit = g.pick(['m', None, 'default'])
    variances = (dtype is None or dtype[0] == 'f') and g.boolean(0.4)
    f = g.pick(['zeros', 'ones', 'full', 'empty', 'full variance'])
    args = {'dtype': dtype} if dtype else {}
    if unit != 'default':
        args['unit'] = unit
    by_sizes = g.boolean()
    args |= {'sizes': dict(zip(dims, shape, strict=True))} if by_sizes else {'dims': dims, 'shape': shape}
    g.note(f'{f} {args} {variances}')
    g.nontrivial(np.prod(shape, dtype=int) > 1)
    value = g.integer(0, 5)
    if dtype == 'bool':
        value = bool(value % 2)
    if f == 'ones' and dtype == 'datetime64':
        raise Discard
    if f == 'full variance':
        if not variances:
            raise Discard
        v = sc.full(value=float(value), variance=float(value + 1), **args)
    elif f == 'full':
        v = sc.full(value=np.datetime64(value, unit) if dtype == 'datetime64' else
                    float(value) if dtype in (None, 'float64', 'float32') else value, **args)
    else:
        v = getattr(sc, f)(with_variances=variances, **args)
    check('creation: dims', v.dims == tuple(dims) and v.shape == shape)
    check('creation: dtype', str(v.dtype) == (dtype or 'float64'), v.dtype)
    want_unit = (None if dtype == 'bool' else sc.Unit('one')) if unit == 'default' else \
        None if unit is None else sc.Unit(unit)
    check('creation: unit', v.unit == want_unit, v.unit)
    check('creation: variances', (v.variances is not None) == (f == 'full variance' or (f != 'full' and variances)))
    want = {'zeros': 0, 'ones': 1}.get(f, value)
    if f != 'empty':
        check('creation: values', np.array_equal(arr(v).astype('int64'), np.full(shape, want)), arr(v))
        if v.variances is not None:
            w = v.variances if v.ndim else np.asarray(v.variance)
            check('creation: variance', np.array_equal(w, np.full(shape, want + (f == 'full variance'))))
    if v.ndim and v.size:  # each element is its own
        v.values[...] = arr(v)
        x = v.copy()
        x['x', 0] = x['x', -1]
    if dtype == 'datetime64' or f == 'empty':
        return
    da = sc.DataArray(v, masks={'m': sc.zeros(dims=dims, shape=shape, dtype='bool')}, coords={'c': sc.scalar(1.0)})
    obj = g.pick([v, da])
    like = g.pick(['zeros', 'ones', 'empty', 'full'])
    r = sc.full_like(obj, value) if like == 'full' else getattr(sc, like + '_like')(obj)
    check('creation: like', type(r) is type(obj) and r.dims == v.dims and r.shape == shape and r.unit == v.unit
          and r.dtype == v.dtype, lambda: show(r))
    check('creation: like variances', like == 'full' or (r.variances is None) == (v.variances is None))
    if like != 'empty':
        check('creation: like values', np.all(arr(r if obj is v else r.data).astype('int64')
                                              == {'zeros': 0, 'ones': 1}.get(like, value)))
    if obj is da:
        check('creation: like metadata', sc.identical(r.coords['c'], da.coords['c']) and 'm' in r.masks)
        if v.size:
            r.masks['m'] |= sc.scalar(True)
            check('creation: like shares masks', not np.any(arr(da.masks['m'])))


def ranges(g):
    """linspace, geomspace, logspace and arange give the numbers numpy gives, with the unit asked for."""
    f = g.pick(['linspace', 'linspace', 'geomspace', 'logspace', 'arange', 'arange'])
    lo = g.integer(-4, 12) / g.pick([1, 2, 4])
    hi = lo + g.integer(0, 20) / g.pick([1, 2, 4])
    num = g.integer(0, 9)
    kind = g.pick(['float', 'int', 'variable', 'int variable', 'float32 variable'])
    if f == 'geomspace':
        lo, hi = abs(lo) + 1, abs(hi) + 1
    if 'int' in kind:
        lo, hi = int(lo), int(hi)
    if g.boolean(0.2) and f != 'arange':
        lo, hi = hi, lo
    unit = g.pick(['default', 'm', 'mm']) if f != 'logspace' else g.pick(['default', 'm'])
    own = 'one' if f == 'logspace' else 'm'
    dtype = g.pick([None, None, 'float32', 'int64'])
    step = g.pick([None, 1, 2, 0.5]) if f == 'arange' else None
    if step is not None and 'int' in kind:
        step = max(1, int(step))
    elif step is not None:
        step = float(step)
    one_arg = f == 'arange' and step is None and g.boolean(0.3)

    def make(x):
        if x is None or 'variable' not in kind:
            return x
        return sc.scalar(x, unit=own, dtype={'int variable': 'int64', 'float32 variable': 'float32'}.get(kind))

    args = {'dtype': dtype} if dtype else {}
    if unit != 'default':
        args['unit'] = unit
    endpoint = g.boolean(0.7)
    scale = 1000 if unit == 'mm' and 'variable' in kind else 1
    if f == 'arange':
        pos = [make(lo)] if one_arg else [make(lo), make(hi)] if step is None else [make(lo), make(hi), make(step)]
        plain = [x * scale for x in ([lo] if one_arg else [lo, hi] if step is None else [lo, hi, step])]
        want = np.arange(*plain)
    else:
        pos = [make(lo), make(hi), num]
        args['endpoint'] = endpoint
        want = getattr(np, f)(lo * scale, hi * scale, num, endpoint=endpoint)
    g.note(f'{f} {kind} {pos} {args}')
    if dtype == 'int64' and f != 'arange':
        if not np.all(np.abs(want) < 1e15):
            raise Discard
        want = want.astype('int64')
    if dtype == 'int64' and f == 'arange' and any(x is not None and x != int(x) for x in plain):
        raise Discard
    v = getattr(sc, f)('x', *pos, **args)
    g.nontrivial(v.size > 1)
    check('ranges: dims', v.dims == ('x',))
    check('ranges: size', v.shape == want.shape, v.shape, want.shape)
    exact = dtype != 'float32' and 'float32' not in kind
    if dtype == 'int64' and f != 'arange':
        check('ranges: values', np.all(np.abs(v.values - want) <= (1 if exact else 1 + 1e-5 * np.abs(want))), v.values, want)
    else:
        check('ranges: values', np.allclose(v.values, want, rtol=1e-12 if exact else 1e-5, atol=0 if exact else 1e-5),
              v.values, want)
    if v.size > 1 and endpoint and f == 'linspace' and dtype is None:
        check('ranges: end', v.values[-1] == want[-1] or not exact)
    expect_unit = unit if unit != 'default' else own if 'variable' in kind and f != 'logspace' else 'one'
    check('ranges: unit', v.unit == sc.Unit(expect_unit), v.unit)
    if dtype:
        check('ranges: dtype', str(v.dtype) == dtype)


def ranges_refused(g):
    """Mixed units, mixed kinds of arguments and variances are refused."""
    f = g.pick(['linspace', 'geomspace', 'arange', 'logspace'])
    a, b = sc.scalar(1.0, unit='m'), sc.scalar(2.0, unit=g.pick(['mm', 's', 'one', None]))
    args = g.pick([(a, b), (a, 2.0), (1.0, a), (sc.scalar(1.0, variance=1.0, unit='m'), a)])
    g.note(f'{f} {args}')
    g.nontrivial(True)
    extra = () if f == 'arange' else (3,)
    try:
        v = getattr(sc, f)('x', *args, *extra)
    except (*ERRORS, sc.UnitError):
        return
    check('ranges: accepted', False, lambda: show(v))


SECONDS = {'s': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1, 'm': 60 * 10**9, 'h': 3600 * 10**9, 'D': 86400 * 10**9}


def datetimes(g):
    """Datetimes keep the instant, or are truncated to the unit asked for like numpy does."""
    unit = g.pick(DATES)
    n = g.length(0, 5)
    big = {'D': 10**4, 'h': 10**5, 'm': 10**7}.get(unit, 10**9)
    a = np.array([g.integer(0 if g.boolean(0.7) else -big, big) for _ in range(n)], dtype='int64').astype(
        f'datetime64[{unit}]')
    target = g.pick([None, *DATES])
    su = UNITS.get(target, target)
    form = g.pick(['array', 'datetimes', 'strings', 'ints', 'scalar', 'scalar string', 'arange'])
    g.note(f'{a} [{unit}] as {form} in {target}')
    g.nontrivial(n > 1)
    kw = {} if target is None else {'unit': su}
    want = a if target is None else a.astype(f'datetime64[{target}]')
    own = UNITS.get(unit, unit)
    try:
        if form == 'array':
            v = sc.array(dims=['t'], values=a, **kw)
        elif form == 'datetimes':
            v = sc.datetimes(dims=['t'], values=a, **kw)
        elif form == 'strings':
            text = [str(x) for x in a]
            if not text:
                raise Discard
            v = sc.datetimes(dims=['t'], values=text, **kw)
            want = np.array(text, dtype='datetime64').astype(want.dtype) if target else np.array(text, dtype='datetime64')
        elif form == 'ints':
            v = sc.datetimes(dims=['t'], values=a.astype('int64'), unit=own)
            want = a
        elif form == 'arange':
            if not n:
                raise Discard
            k = g.integer(0, 4)
            start = a[0]
            v = sc.arange('t', sc.scalar(start), sc.scalar(start + k)) if g.boolean() else sc.arange('t', start, start + k)
            want = np.arange(start, start + k)
        else:
            if not n:
                raise Discard
            x = a[0] if form == 'scalar' else str(a[0])
            v = sc.datetime(x, **kw)
            want = want[:1] if form == 'scalar' else np.array([np.datetime64(x)]).astype(want.dtype) if target else \
                np.array([np.datetime64(x)])
            v = v.flatten(to='t')
    except ERRORS as e:
        check('datetimes: refused', target is not None and form in ('array', 'scalar', 'scalar string'), form, repr(e))
        return
    check('datetimes: dtype', str(v.dtype) == 'datetime64')
    now = np.datetime_data(v.values.dtype)[0]
    check('datetimes: unit', v.unit == sc.Unit(UNITS.get(now, now)))
    if target is not None and form != 'ints' and form != 'arange':
        check('datetimes: unit asked', now == target, now, target)
        if target != unit and SECONDS[target] > SECONDS[unit] and form in ('array', 'scalar', 'scalar string'):
            check('datetimes: rounded', all(abs((p - q).astype('timedelta64[ns]').astype('int64')) < 2 * SECONDS[target]
                                            for p, q in zip(v.values, want, strict=True)), v.values, want)
            return
    check('datetimes: values', np.array_equal(v.values, want), v.values, want)


# --- structured types --------------------------------------------------------------------------

def rotated(q, x):
    """Rodrigues' formula."""
    t = np.linalg.norm(q)
    u = q / t if t else q
    return x * math.cos(t) + np.cross(u, x) * math.sin(t) + u * np.dot(u, x) * (1 - math.cos(t))


def vectors(g):
    """Vectors and matrices: elements, components and their units; fields can be read and set."""
    shape = draw_shape(g, 2)
    dims = dims_for(shape)
    kind = g.pick(['vector', 'linear_transform', 'rotation', 'translation', 'affine'])
    unit = g.pick(['m', 'one'])
    g.nontrivial(np.prod(shape, dtype=int) > 1)
    if kind == 'vector':
        a = draw_numbers(g, (*shape, 3), 'float64')
        v = sc.vectors(dims=dims, values=a, unit=unit) if shape else sc.vector(a, unit=unit)
        g.note(f'{show(v)}')
        check('vectors: values', same(arr(v) if shape else np.asarray(v.value), a), lambda: v.values)
        check('vectors: unit', v.unit == sc.Unit(unit))
        for i, c in enumerate('xyz'):
            field = getattr(v.fields, c)
            check('vectors: field', same(arr(field), a[..., i]) and field.unit == v.unit)
        check('vectors: fields', set(v.fields) == set('xyz') if hasattr(v.fields, '__iter__') else True)
        w = sc.spatial.as_vectors(v.fields.x, v.fields.y, v.fields.z)
        check('vectors: as_vectors', sc.identical(w, v) or np.isnan(a).any(), lambda: show(w))
        c = g.pick('xyz')
        new = draw_numbers(g, shape, 'float64')
        before = a.copy()
        setattr(v.fields, c, var(dims, new, unit=unit))
        before[..., 'xyz'.index(c)] = new
        check('vectors: set field', same(arr(v) if shape else np.asarray(v.value), before))
        if shape and 0 not in shape:
            v.fields.x['x', 0] = sc.scalar(5.0, unit=unit)
            before[0, ..., 0] = 5.0
            check('vectors: set slice of field', same(v.values, before))
            new = draw_numbers(g, before.shape, 'float64')
            v.values = new
            check('vectors: set values', same(v.values, new))
        for d in range(3):
            shifted = sc.vector([1.0, 2.0, 3.0], unit=unit)
            r = v + shifted
            check('vectors: sum', np.allclose(arr(r) if shape else r.value, (arr(v) if shape else v.value) + [1, 2, 3],
                                              equal_nan=True))
        return
    if kind == 'linear_transform':
        a = draw_numbers(g, (*shape, 3, 3), 'float64')
        v = sc.spatial.linear_transforms(dims=dims, values=a, unit=unit) if shape else \
            sc.spatial.linear_transform(value=a, unit=unit)
        g.note(show(v))
        check('vectors: matrix', same(v.values if shape else np.asarray(v.value), a), lambda: v.values)
        for i, p in enumerate('xyz'):
            for j, q in enumerate('xyz'):
                check('vectors: matrix field', same(arr(getattr(v.fields, p + q)), a[..., i, j]), p + q)
        if shape:
            t = v.transpose()
            check('vectors: transposed', same(t.values, a.transpose([*range(len(shape))[::-1], len(shape), len(shape) + 1])))
            new = draw_numbers(g, a.shape, 'float64')
            v.values = new
            check('vectors: set matrices', same(v.values, new))
        return
    if kind == 'translation':
        a = draw_numbers(g, (*shape, 3), 'float64')
        v = sc.spatial.translations(dims=dims, values=a, unit=unit) if shape else sc.spatial.translation(value=a, unit=unit)
        g.note(show(v))
        check('vectors: translation', same(np.asarray(v.values if shape else v.value), a))
        x = sc.vector([1.0, 2.0, 3.0], unit=unit)
        check('vectors: translated', np.allclose((v * x).values if shape else (v * x).value, a + [1, 2, 3], equal_nan=True))
        return
    if kind == 'rotation':
        shape, dims = shape[:1], dims[:1]
        a = np.array([[g.integer(-3, 3) for _ in range(3)] for _ in range(int(np.prod(shape, dtype=int)))], dtype=float)
        a = a.reshape((*shape, 3))
        v = sc.spatial.rotations_from_rotvecs(sc.vectors(dims=dims, values=a, unit='rad') if shape
                                              else sc.vector(a, unit='rad'))
        g.note(show(v))
        check('vectors: rotation', str(v.dtype) == 'rotation3' and v.dims == tuple(dims))
        x = np.array([1.0, 2.0, 3.0])
        r = v * sc.vector(x, unit='m')
        got = (r.values if shape else np.asarray(r.value)).reshape(-1, 3)
        for k, q in enumerate(a.reshape(-1, 3)):
            check('vectors: rotated', np.allclose(got[k], rotated(q, x)), got[k], rotated(q, x))
        if shape and 0 not in shape:
            matrices = [np.stack([rotated(q, e) for e in np.eye(3)], axis=1) for q in a.reshape(-1, 3)]
            back = sc.spatial.rotation_as_rotvec(
                sc.spatial.linear_transforms(dims=dims, values=np.array(matrices).reshape(*shape, 3, 3)))
            for k, q in enumerate(back.values.reshape(-1, 3)):
                check('vectors: rotvec', np.allclose(rotated(q, x), got[k]) and np.linalg.norm(q) < 3.15, q)
        return
    a = np.zeros((*shape, 4, 4))
    a[..., :3, :] = draw_numbers(g, (*shape, 3, 4), 'float64')
    a[..., 3, 3] = 1
    v = sc.spatial.affine_transforms(dims=dims, values=a, unit=unit) if shape else \
        sc.spatial.affine_transform(value=a, unit=unit)
    g.note(show(v))
    check('vectors: affine', same(np.asarray(v.values if shape else v.value), a), lambda: v.values)


# --- copies and dicts --------------------------------------------------------------------------

def gen_variable(g, dims, shape, simple=False):
    kind = g.pick(['number', 'number', 'string', 'date', 'vector', 'matrix', 'bool'] if not simple else ['number'])
    n = int(np.prod(shape, dtype=int))
    if kind == 'number':
        dtype = g.pick(['float64', 'float32', 'int64', 'int32'])
        a = draw_numbers(g, shape, dtype)
        return var(dims, a, unit=g.pick(['m', 'one', None]) if dtype[0] == 'i' else 'm',
                   variances=np.abs(a) if dtype[0] == 'f' and g.boolean(0.4) else None)
    if kind == 'string':
        if not shape:
            return sc.scalar('text')
        flat = sc.array(dims=['all'], values=[f's{k}' for k in range(n + 1)])['all', :n]
        return flat.fold('all', sizes=dict(zip(dims, shape, strict=True)))
    if kind == 'date':
        return var(dims, draw_numbers(g, shape, 'datetime64[ns]'), unit='ns')
    if kind == 'bool':
        return var(dims, draw_numbers(g, shape, 'bool'), unit=None)
    if kind == 'vector':
        a = draw_numbers(g, (*shape, 3), 'float64')
        return sc.vectors(dims=dims, values=a, unit='m') if shape else sc.vector(a, unit='m')
    a = draw_numbers(g, (*shape, 3, 3), 'float64')
    return sc.spatial.linear_transforms(dims=dims, values=a, unit='m') if shape else \
        sc.spatial.linear_transform(value=a, unit='m')


def gen_array(g, dims, shape, attrs=False):
    da = sc.DataArray(gen_variable(g, dims, shape), name=g.pick(['', 'name']))
    for k in range(g.draw(3)):
        d = g.subset(dims, 0.6)
        s = [dict(zip(dims, shape, strict=True))[e] for e in d]
        if s and g.boolean(0.3):
            s[0] += 1
        da.coords[f'c{k}'] = gen_variable(g, d, tuple(s))
        if g.boolean(0.3):
            da.coords.set_aligned(f'c{k}', False)
    for k in range(g.draw(2)):
        d = g.subset(dims, 0.6)
        da.masks[f'm{k}'] = var(d, draw_numbers(g, tuple(dict(zip(dims, shape, strict=True))[e] for e in d), 'bool'),
                                unit=None)
    return da


def gen_thing(g):
    shape = draw_shape(g, 3)[:3]
    dims = dims_for(shape)
    kind = g.pick(['variable', 'array', 'dataset'])
    if kind == 'variable':
        v = gen_variable(g, dims, shape)
        if g.boolean(0.2):
            v = v.transpose()
        return v
    if kind == 'array':
        return gen_array(g, dims, shape)
    a = gen_array(g, dims, shape)
    ds = sc.Dataset({'a': a})
    if g.boolean():
        ds['b'] = sc.DataArray(gen_variable(g, dims, shape))
    return ds


def has_nan(x):
    if isinstance(x, sc.Variable):
        v = arr(x) if x.ndim or str(x.dtype) in ('vector3', 'linear_transform3') else np.asarray(x.value)
        return v.dtype.kind == 'f' and bool(np.isnan(v).any())
    out = any(has_nan(c) for c in x.coords.values())
    if isinstance(x, sc.Dataset):
        return out or any(has_nan(i.data) for i in x.values())
    return out or has_nan(x.data)


def same_object(a, b):
    if not sc.identical(a, b, equal_nan=True):
        return False
    if isinstance(a, sc.Variable):
        return a.aligned == b.aligned
    return all(a.coords[k].aligned == b.coords[k].aligned for k in a.coords)


def dicts(g):
    """from_dict(to_dict(x)) is x."""
    x = gen_thing(g)
    g.note(show(x))
    d = sc.to_dict(x)
    y = sc.from_dict(d)
    g.nontrivial(len(d) > 1)
    check('dicts: type', type(y) is type(x))
    check('dicts', same_object(x, y), lambda: show(y))
    if isinstance(x, sc.DataArray):
        check('dicts: name', y.name == x.name, repr(y.name), repr(x.name))


def copies(g):
    """A deep copy shares nothing with its source, a shallow copy shares all values; both are equal to it."""
    x = gen_thing(g)
    g.note(show(x))
    how = g.pick(['copy()', 'copy(deep=False)', 'copy.copy', 'copy.deepcopy', 'method'])
    y = {'copy()': lambda: x.copy(), 'copy(deep=False)': lambda: x.copy(deep=False), 'copy.copy': lambda: copy.copy(x),
         'copy.deepcopy': lambda: copy.deepcopy(x), 'method': lambda: x.copy(deep=True)}[how]()
    deep = how in ('copy()', 'copy.deepcopy', 'method')
    g.note(how)
    check('copies: type', type(y) is type(x))
    check('copies: equal', same_object(x, y), lambda: show(y))
    if isinstance(x, sc.DataArray):
        check('copies: name', x.name == y.name)

    def variables(o):
        if isinstance(o, sc.Variable):
            return {'data': o}
        out = {('coord', k): c for k, c in o.coords.items()}
        if isinstance(o, sc.Dataset):
            for n, i in o.items():
                out['data', n] = i.data
                out |= {('mask', n, k): m for k, m in i.masks.items()}
        else:
            out['data'] = o.data
            out |= {('mask', k): m for k, m in o.masks.items()}
        return out

    vx, vy = variables(x), variables(y)
    check('copies: parts', vx.keys() == vy.keys())
    for k in vx:
        a, b = vx[k], vy[k]
        if a.ndim == 0 or a.size == 0 or str(a.dtype) == 'string':
            continue
        g.nontrivial(a.size > 1)
        check('copies: sharing', np.shares_memory(a.values, b.values) != deep, k, how)
        if a.variances is not None:
            check('copies: sharing variances', np.shares_memory(a.variances, b.variances) != deep, k, how)
    if not isinstance(x, sc.Variable):  # the dicts are their own
        keys = set(x.coords)
        y.coords['new'] = sc.scalar(1.0)
        check('copies: coords dict', set(x.coords) == keys)


LAWS = {
    'arrays': (3000, 80000, arrays),
    'mismatch': (1000, 20000, mismatch),
    'assignment': (2500, 60000, assignment),
    'scalars': (1000, 20000, scalars),
    'views': (2500, 60000, views),
    'strings': (400, 8000, strings),
    'creation': (1500, 30000, creation),
    'ranges': (2000, 50000, ranges),
    'ranges_refused': (100, 1000, ranges_refused),
    'datetimes': (1500, 40000, datetimes),
    'vectors': (1500, 40000, vectors),
    'dicts': (1500, 40000, dicts),
    'copies': (1500, 40000, copies),
}

if __name__ == '__main__':
    main('C54', RULE, LAWS)
