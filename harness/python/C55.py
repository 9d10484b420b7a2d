# interpreter: _scipp
"""C55: operators, functions and reductions called from Python give what their definition says."""
import math
import operator

import scipy.special
from pbt import Discard, check, main
from real import ERRORS, arr, indices, np, sc, show, var

RULE = 'a case counts if at least two elements were computed'

REFUSED = (*ERRORS, sc.UnitError, sc.DimensionError, sc.DTypeError, sc.VariancesError)


# --- data --------------------------------------------------------------------------------------

def draw_values(g, shape, dtype, special=0.15, nonzero=False):
    n = int(np.prod(shape, dtype=int))
    if dtype == 'bool':
        return np.array([g.boolean() for _ in range(n)], dtype=bool).reshape(shape)
    a = np.array([g.integer(-6, 9) for _ in range(n)], dtype=float)
    if nonzero:
        a = np.where(a == 0, 3, a)
    if dtype.startswith('float'):
        a = a + g.pick([0.0, 0.25])
        if n and g.boolean(special):
            a[g.draw(n - 1)] = g.pick([np.nan, np.inf, -np.inf])
    return a.astype(dtype).reshape(shape)


def draw_sizes(g, low=1, most=3):
    dims = g.permutation(['x', 'y', 'z'])[: g.draw(most)]
    return {d: g.length(0 if g.boolean(0.06) else low, 4) for d in dims}


def layout(g, v):
    kind = g.draw(3)
    if kind == 1 and v.ndim > 1:
        return v.transpose(g.permutation(v.dims)).copy().transpose(v.dims)
    if kind == 2 and v.ndim > 0:
        d = g.pick(v.dims)
        return sc.concat([v[d, :1], v, v[d, :1]], d)[d, min(1, v.sizes[d]):][d, :v.sizes[d]]
    if kind == 3 and v.ndim > 0 and 'pair' not in v.dims:
        return sc.concat([v, v], 'pair')['pair', g.draw(1)].transpose(v.dims)
    return v


def draw_variable(g, sizes, dtype=None, unit='m', variances=0.3, **kw):
    dtype = dtype or g.pick(['float64', 'float64', 'float32', 'int64', 'int32'])
    shape = tuple(sizes.values())
    a = draw_values(g, shape, dtype, **kw)
    s = None
    if dtype.startswith('float') and g.boolean(variances):
        s = np.abs(draw_values(g, shape, dtype, special=0)).astype(dtype)
    return layout(g, var(sizes, a, unit=None if dtype == 'bool' else unit, variances=s))


def subset_sizes(g, sizes, p=0.7):
    return {d: sizes[d] for d in g.permutation(g.subset(sizes, p))}


def add_metadata(g, da, masks=True):
    for k in range(g.draw(2)):
        da.coords[f'c{k}'] = draw_variable(g, subset_sizes(g, da.sizes, 0.5), 'int64', variances=0)
    for k in range(g.draw(2) if masks else 0):
        da.masks[f'm{k}'] = draw_variable(g, subset_sizes(g, da.sizes, 0.5), 'bool')
    return da


def spread(a, dims, out):
    """An array with the given dims as one that broadcasts with arrays of dims out."""
    a = np.asarray(a)
    order = [dims.index(d) for d in out if d in dims]
    return a.transpose(order).reshape([a.shape[dims.index(d)] if d in dims else 1 for d in out]) if out else a


def numbers(v):
    return np.asarray(arr(v)), None if v.variances is None else np.asarray(v.variances if v.ndim else v.variance)


def tol_of(*dtypes):
    return 2e-5 if 'float32' in [str(d) for d in dtypes] else 1e-12


def agree(got, want, tol):
    return np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float), rtol=tol, atol=tol, equal_nan=True)


def compare(label, r, dims, want, tol, variances=None):
    """A result against an array with the given dims, in any order."""
    data = r.data if isinstance(r, sc.DataArray) else r
    check(f'{label}: dims', set(data.dims) == set(dims) and data.ndim == len(dims), data.dims, dims)
    a, s = numbers(data)
    want = spread(want, list(dims), data.dims)
    check(f'{label}: shape', a.shape == want.shape, a.shape, want.shape)
    check(f'{label}: values', agree(a, want, tol), a, want)
    if variances is not None:
        check(f'{label}: no variances', s is not None)
        check(f'{label}: variances', agree(s, spread(variances, list(dims), data.dims), 10 * tol), s, variances)


# --- arithmetic --------------------------------------------------------------------------------

OPS = {
    '+': (operator.add, operator.iadd, sc.add),
    '-': (operator.sub, operator.isub, sc.subtract),
    '*': (operator.mul, operator.imul, sc.multiply),
    '/': (operator.truediv, operator.itruediv, sc.divide),
    '//': (operator.floordiv, operator.ifloordiv, sc.floor_divide),
    '%': (operator.mod, operator.imod, sc.mod),
}
PYTHON = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide, '//': np.floor_divide, '%': np.mod}


def propagate(op, a, va, b, vb):
    va, vb = (0.0 if va is None else va.astype(float)), (0.0 if vb is None else vb.astype(float))
    a, b = a.astype(float), b.astype(float)
    if op in '+-':
        return va + vb
    if op == '*':
        return va * b * b + vb * a * a
    return (va + vb * (a / b) ** 2) / (b * b)


def common(op, p, q):
    if 'float64' in (p, q):
        return 'float64'
    if 'float32' in (p, q):
        return 'float32'
    if op == '/':
        return 'float64'
    return 'int64' if 'int64' in (p, q) else 'int32'


def unit_of(op, p, q):
    """The unit of a result, or an exception."""
    if op in ('+', '-', '%'):
        return p if p == q else UnitError
    if p is None or q is None:
        return None if p is None and q is None else UnitError
    return p * q if op == '*' else p / q


UnitError = 'refused'


def draw_operand(g, sizes, units, kinds=('variable', 'variable', 'array', 'number', 'numpy'), **kw):
    kind = g.pick(kinds)
    if kind == 'number':
        return g.pick([g.integer(1, 5), g.integer(-8, 8) / 4 or 0.5, True])
    if kind == 'numpy':
        return np.dtype(g.pick(['float64', 'int64', 'float32', 'int32'])).type(g.integer(1, 7))
    v = draw_variable(g, sizes, unit=g.pick(units), **kw)
    return sc.DataArray(v) if kind == 'array' else v


def describe(x):
    """(values, variances, dims, unit, dtype) of an operand."""
    if isinstance(x, sc.DataArray):
        x = x.data
    if isinstance(x, sc.Variable):
        return (*numbers(x), x.dims, x.unit, str(x.dtype))
    return np.asarray(x), None, (), sc.Unit('one'), 'float64' if isinstance(x, float | np.floating) else 'int64'


def arithmetic(g):
    """Operators and functions: each element by its definition, units and variances too; operands broadcast by name."""
    op = g.pick(OPS)
    sizes = draw_sizes(g)
    units = g.pick([['m'], ['m', 'one'], ['one'], ['m', 's'], [None], ['one', None]])
    a = draw_operand(g, subset_sizes(g, sizes, 0.8), units, nonzero=True)
    b = draw_operand(g, subset_sizes(g, sizes, 0.8), units, nonzero=True)
    if not isinstance(a, sc.Variable | sc.DataArray) and not isinstance(b, sc.Variable | sc.DataArray):
        raise Discard
    if isinstance(a, sc.DataArray) and g.boolean(0.5):
        add_metadata(g, a)
    if isinstance(b, sc.DataArray) and g.boolean(0.5):
        add_metadata(g, b)
    (x, vx, dx, ux, tx), (y, vy, dy, uy, ty) = describe(a), describe(b)
    form = g.pick(['operator', 'function']) if all(isinstance(i, sc.Variable | sc.DataArray) for i in (a, b)) \
        else 'operator'
    g.note(f'{op} {form}\n{show(a)}\n{show(b)}')
    dims = [*dx, *(d for d in dy if d not in dx)]
    full = {**dict(zip(dx, x.shape, strict=True)), **dict(zip(dy, y.shape, strict=True))}
    volume = int(np.prod(list(full.values()), dtype=int))
    unit = unit_of(op, ux, uy)
    clash = isinstance(a, sc.DataArray) and isinstance(b, sc.DataArray) and any(
        not sc.identical(a.coords[k], b.coords[k]) for k in set(a.coords) & set(b.coords))
    lost = any(isinstance(i, sc.DataArray) and not set(dims) == set(i.dims) and i.coords for i in (a, b))
    has = vx is not None or vy is not None
    spread_variances = (vx is not None and x.size != volume) or (vy is not None and y.size != volume)
    may_spread = (vx is not None and len(dx) != len(dims)) or (vy is not None and len(dy) != len(dims))
    keep = [None if isinstance(i, float | int | np.generic) else i.copy() for i in (a, b)]
    try:
        r = OPS[op][0](a, b) if form == 'operator' else OPS[op][2](a, b)
    except REFUSED as e:
        check('arithmetic: refused', unit == UnitError or clash or may_spread or (has and op in ('//', '%')), repr(e))
        return
    g.nontrivial(volume > 1)
    check('arithmetic: units accepted', unit != UnitError, ux, uy)
    check('arithmetic: clash of coords accepted', not clash)
    check('arithmetic: variances broadcast', not spread_variances)
    for i, old in zip((a, b), keep, strict=True):
        check('arithmetic: operand changed', old is None or sc.identical(i, old, equal_nan=True), lambda: show(i))
    check('arithmetic: type', isinstance(r, sc.DataArray) ==
          (isinstance(a, sc.DataArray) or isinstance(b, sc.DataArray)))
    check('arithmetic: unit', r.unit == unit, r.unit, unit)
    check('arithmetic: dtype', str(r.dtype) == common(op, tx, ty), r.dtype, tx, ty)
    p, q = spread(x, dx, dims), spread(y, dy, dims)
    want = PYTHON[op](p.astype(str(r.dtype)), q.astype(str(r.dtype)))
    if op in ('//', '%') and not np.all(np.isfinite(p) & np.isfinite(q)):
        return
    variances = None
    if has:
        variances = propagate(op, p, None if vx is None else spread(vx, dx, dims), q,
                              None if vy is None else spread(vy, dy, dims)) if op in '+-*/' else None
        if variances is not None:
            ok = np.isfinite(p.astype(float)) & np.isfinite(q.astype(float))
            if not np.all(ok):
                variances = None
            else:
                variances = np.broadcast_to(variances, np.broadcast_shapes(p.shape, q.shape))
    compare('arithmetic', r, dims, want, tol_of(tx, ty), variances)
    if not has:
        check('arithmetic: variances from nothing', r.variances is None)
    if isinstance(r, sc.DataArray):
        arrays = [i for i in (a, b) if isinstance(i, sc.DataArray)]
        for i in arrays:
            for k, c in i.coords.items():
                check('arithmetic: coord', k in r.coords and sc.identical(r.coords[k], c), k, lost)
        names = {k for i in arrays for k in i.masks}
        check('arithmetic: masks', set(r.masks) == names)
        for k in names:
            ms = [i.masks[k] for i in arrays if k in i.masks]
            u = [d for d in ['x', 'y', 'z'] if any(d in m.dims for m in ms)]
            w = spread(arr(ms[0]), ms[0].dims, u)
            for m in ms[1:]:
                w = w | spread(arr(m), m.dims, u)
            compare('arithmetic: mask', r.masks[k], u, w, 0)


def inplace(g):
    """In-place operators return the same object, write into its memory what the operator gives, or change nothing."""
    op = g.pick(OPS)
    sizes = draw_sizes(g)
    units = g.pick([['m'], ['m', 'one'], ['one']])
    a = draw_operand(g, sizes, units, kinds=('variable', 'array'), nonzero=True)
    if isinstance(a, sc.DataArray):
        add_metadata(g, a)
    b = draw_operand(g, subset_sizes(g, sizes, 0.6), units, nonzero=True)
    g.note(f'{op}=\n{show(a)}\n{show(b)}')
    owned = g.boolean()
    if owned:
        a = a.copy()
    before = a.copy()
    try:
        want = OPS[op][0](a, b)
    except REFUSED:
        want = None
    data = a.data if isinstance(a, sc.DataArray) else a
    root = data.copy(deep=False)
    tx, ty = describe(a)[4], describe(b)[4]
    try:
        r = OPS[op][1](a, b)
    except REFUSED:
        check('inplace: refused', want is None or str(want.dtype) != tx or 'int' in tx or
              describe(want)[1] is not None and describe(before)[1] is None or (not owned and want.unit != before.unit) or
              (isinstance(b, sc.DataArray) and isinstance(a, sc.Variable)), lambda: show(want))
        check('inplace: changed by failure', sc.identical(a, before, equal_nan=True), lambda: show(a))
        return
    g.nontrivial(data.size > 1)
    if isinstance(a, sc.Variable) and isinstance(b, sc.DataArray):
        return
    check('inplace: same object', r is a)
    check('inplace: accepted', want is not None, lambda: show(a))
    check('inplace: dtype', str(a.dtype) == tx)
    check('inplace: unit', a.unit == want.unit, a.unit, want.unit)
    check('inplace: dims', a.dims == before.dims)
    if data.ndim and data.size:
        check('inplace: memory', np.shares_memory((a.data if isinstance(a, sc.DataArray) else a).values, root.values))
    x, s = numbers(want.data if isinstance(want, sc.DataArray) else want)
    x = spread(x, list(want.dims), a.dims)
    if tx.startswith('int') and not str(want.dtype).startswith('int'):
        x = np.trunc(x)
    x = np.broadcast_to(x, a.shape)
    compare('inplace', a, a.dims, x, tol_of(tx, ty), None if s is None else spread(s, list(want.dims), a.dims))
    if isinstance(a, sc.DataArray):
        for k, c in before.coords.items():
            check('inplace: coord', sc.identical(a.coords[k], c), k)
        check('inplace: coords', set(a.coords) == set(before.coords))


def power(g):
    """Powers of numbers and of units."""
    sizes = draw_sizes(g)
    dtype = g.pick(['float64', 'float32', 'int64'])
    v = draw_variable(g, sizes, dtype, unit=g.pick(['m', 'one']), special=0, nonzero=True)
    n = g.pick([0, 1, 2, 3, -1, 2.0, 0.5])
    form = g.pick(['**', 'pow', 'variable', 'r**'])
    if form == 'r**' and v.unit != sc.Unit('one'):
        raise Discard
    g.note(f'{form} {n}\n{show(v)}')
    g.nontrivial(v.size > 1)
    x, s = numbers(v)
    try:
        if form == 'r**':
            r = 2 ** v
        else:
            r = v ** n if form == '**' else sc.pow(v, sc.scalar(n)) if form == 'variable' else sc.pow(v, n)
    except REFUSED as e:
        negative = (n < 0 and dtype == 'int64') if form != 'r**' else dtype == 'int64' and np.any(x < 0)
        check('power: refused', negative or (v.unit != sc.Unit('one') and n == 0.5)
              or (form == 'r**' and s is not None), repr(e))
        return
    if form == 'r**':
        if dtype == 'int64' and np.any(x < 0):
            check('power: negative power of an integer', False)
        compare('power', r, v.dims, 2.0 ** x.astype(float), tol_of(dtype),
                None if s is None else (2.0 ** x * math.log(2)) ** 2 * s)
        return
    want = x.astype(float) ** n
    check('power: unit', r.unit == (v.unit ** int(n) if n == int(n) else v.unit), r.unit)
    compare('power', r, v.dims, want, tol_of(dtype),
            None if s is None or np.any(x < 0) else (n * x.astype(float) ** (n - 1)) ** 2 * s)


# --- comparison and logic ----------------------------------------------------------------------

COMPARE = {'==': (operator.eq, sc.equal, np.equal), '!=': (operator.ne, sc.not_equal, np.not_equal),
           '<': (operator.lt, sc.less, np.less), '<=': (operator.le, sc.less_equal, np.less_equal),
           '>': (operator.gt, sc.greater, np.greater), '>=': (operator.ge, sc.greater_equal, np.greater_equal)}


def comparison(g):
    """Comparisons tell the truth about every pair of elements, for equal units only."""
    op = g.pick(COMPARE)
    sizes = draw_sizes(g)
    units = g.pick([['m'], ['one'], ['m', 'one']])
    a = draw_operand(g, subset_sizes(g, sizes, 0.8), units, kinds=('variable', 'array'))
    b = draw_operand(g, subset_sizes(g, sizes, 0.8), units,
                     **({'kinds': ('variable', 'array')} if isinstance(a, sc.DataArray) else {}))
    (x, vx, dx, ux, tx), (y, vy, dy, uy, ty) = describe(a), describe(b)
    function = g.boolean() and isinstance(b, sc.Variable | sc.DataArray)
    reverse = not function and g.boolean(0.3)
    g.note(f'{op} {function} {reverse}\n{show(a)}\n{show(b)}')
    try:
        r = COMPARE[op][1](a, b) if function else COMPARE[op][0](b, a) if reverse else COMPARE[op][0](a, b)
    except REFUSED as e:
        check('comparison: refused', ux != uy or (vx is not None and set(dx) != set(dx) | set(dy)) or
              (vy is not None and set(dy) != set(dx) | set(dy)), repr(e))
        return
    check('comparison: units', ux == uy)
    dims = [*dx, *(d for d in dy if d not in dx)]
    p, q = spread(x, dx, dims), spread(y, dy, dims)
    want = COMPARE[op][2](q, p) if reverse else COMPARE[op][2](p, q)
    g.nontrivial(want.size > 1)
    check('comparison: dtype', str(r.dtype) == 'bool' and r.unit is None)
    compare('comparison', r, dims, want, 0)
    if op in ('==', '!=') and g.boolean(0.3):
        for other in ('a', [1, 2], None, {}):
            check('comparison: other types', operator.eq(a, other) is False and operator.ne(a, other) is True, other)


def closeness(g):
    """isclose and allclose are |x-y| <= atol + rtol |y|; identical is equality of everything."""
    sizes = draw_sizes(g)
    v = draw_variable(g, sizes, g.pick(['float64', 'float32']), special=0)
    w = v.copy()
    if v.size and v.ndim and g.boolean(0.3):
        where = tuple(g.draw(n - 1) for n in v.shape)
        v.values[where] = np.nan
        if g.boolean():
            w.values[where] = np.nan
    if v.size and v.ndim and g.boolean(0.7):
        where = tuple(g.draw(n - 1) for n in v.shape)
        (w.values if w.variances is None or g.boolean() else w.variances)[where] = g.integer(-6, 9)
    rtol, atol = g.pick([None, 0.0, 1e-3, 0.5]), g.pick([None, 0.0, 0.5, 2.0])
    nan = g.boolean()
    args = {'equal_nan': nan}
    if rtol is not None:
        args['rtol'] = sc.scalar(rtol)
    if atol is not None:
        args['atol'] = sc.scalar(atol, unit='m')
    g.note(f'{args}\n{show(v)}\n{show(w)}')
    g.nontrivial(v.size > 1)
    r, every = sc.isclose(v, w, **args), sc.allclose(v, w, **args)
    rt, at = 1e-5 if rtol is None else rtol, 1e-8 if atol is None else atol

    def near(p, q):
        return np.isclose(p, q, rtol=rt, atol=at, equal_nan=nan)

    (x, s), (y, t) = numbers(v), numbers(w)
    want = near(x, y)
    if s is not None:
        want = want & near(np.sqrt(s), np.sqrt(t))
    compare('closeness', r, v.dims, want, 0)
    check('closeness: all', every == bool(np.all(want)))
    same = np.array_equal(x, y, equal_nan=nan) and (s is None or np.array_equal(s, t, equal_nan=nan))
    check('closeness: identical', sc.identical(v, w, equal_nan=nan) == same)
    check('closeness: identical is symmetric', sc.identical(w, v, equal_nan=nan) == same)
    other = w.copy()
    other.unit = 'mm'
    check('closeness: unit', not sc.identical(v, other, equal_nan=True))
    if v.ndim:
        check('closeness: dims', not sc.identical(v, w.rename_dims({v.dims[0]: 'other'}), equal_nan=True))


def logic(g):
    """Logical operators, functions and in-place operators; the truth value of a scalar."""
    sizes = draw_sizes(g)
    a = draw_variable(g, subset_sizes(g, sizes, 0.8), 'bool')
    b = draw_variable(g, subset_sizes(g, sizes, 0.8), 'bool')
    op = g.pick('&|^')
    f = {'&': (operator.and_, operator.iand, sc.logical_and, np.logical_and),
         '|': (operator.or_, operator.ior, sc.logical_or, np.logical_or),
         '^': (operator.xor, operator.ixor, sc.logical_xor, np.logical_xor)}[op]
    g.note(f'{op}\n{show(a)}\n{show(b)}')
    dims = [*a.dims, *(d for d in b.dims if d not in a.dims)]
    want = f[3](spread(arr(a), a.dims, dims), spread(arr(b), b.dims, dims))
    g.nontrivial(want.size > 1)
    compare('logic', f[0](a, b), dims, want, 0)
    compare('logic: function', f[2](a, b), dims, want, 0)
    compare('logic: not', ~a, a.dims, ~arr(a), 0)
    compare('logic: not', sc.logical_not(a), a.dims, ~arr(a), 0)
    if g.boolean(0.5):
        da = sc.DataArray(a)
        compare('logic: array', f[0](da, b), dims, want, 0)
        compare('logic: array', ~da, a.dims, ~arr(a), 0)
    if set(b.dims) <= set(a.dims):
        c = a.copy()
        d = f[1](c, b)
        check('logic: same object', d is c)
        compare('logic: in place', c, dims, want, 0)
    for x in (a, sc.DataArray(a)):
        try:
            t = bool(x)
        except REFUSED:
            check('logic: truth refused', x.ndim > 0 or isinstance(x, sc.DataArray))
        else:
            check('logic: truth', x.ndim == 0 and t == bool(x.value))


# --- functions ---------------------------------------------------------------------------------

SAME = 'same'
FUNCTIONS = {  # name: (numpy, unit in, unit out, takes out=, variances: derivative or None)
    'sqrt': (np.sqrt, 'm^2', 'm', True, lambda x: 0.5 / np.sqrt(x)),
    'exp': (np.exp, 'one', 'one', True, np.exp),
    'log': (np.log, 'one', 'one', True, lambda x: 1 / x),
    'log10': (np.log10, 'one', 'one', True, lambda x: 1 / (x * math.log(10))),
    'reciprocal': (np.reciprocal, 'm', '1/m', True, lambda x: 1 / x**2),
    'abs': (np.abs, 'm', 'm', True, lambda x: 1.0 + 0 * x),
    'round': (np.rint, 'm', 'm', True, False),
    'floor': (np.floor, 'm', 'm', True, False),
    'ceil': (np.ceil, 'm', 'm', True, False),
    'sin': (np.sin, 'rad', 'one', True, False), 'cos': (np.cos, 'rad', 'one', True, False),
    'tan': (np.tan, 'rad', 'one', True, False),
    'asin': (np.arcsin, 'one', 'rad', True, False), 'acos': (np.arccos, 'one', 'rad', True, False),
    'atan': (np.arctan, 'one', 'rad', True, False),
    'sinh': (np.sinh, 'one', 'one', True, False), 'cosh': (np.cosh, 'one', 'one', True, False),
    'tanh': (np.tanh, 'one', 'one', True, False),
    'asinh': (np.arcsinh, 'one', 'one', True, False), 'acosh': (np.arccosh, 'one', 'one', True, False),
    'atanh': (np.arctanh, 'one', 'one', True, False),
    'erf': (scipy.special.erf, 'one', 'one', False, False), 'erfc': (scipy.special.erfc, 'one', 'one', False, False),
    'negative': (np.negative, 'm', 'm', False, lambda x: 1.0 + 0 * x),
}
TESTS = {'isnan': np.isnan, 'isinf': np.isinf, 'isfinite': np.isfinite, 'isposinf': np.isposinf,
         'isneginf': np.isneginf}


def functions(g):
    """Functions of one argument act on each element; units follow, wrong units are refused; out= is written."""
    name = g.pick([*FUNCTIONS, *TESTS])
    sizes = draw_sizes(g)
    dtype = g.pick(['float64', 'float32'])
    if name in TESTS:
        v = draw_variable(g, sizes, dtype, variances=0)
        g.note(f'{name}\n{show(v)}')
        g.nontrivial(v.size > 1)
        r = getattr(sc, name)(v)
        check('functions: test', str(r.dtype) == 'bool' and r.unit is None)
        compare('functions: test', r, v.dims, TESTS[name](arr(v)), 0)
        return
    f, unit, unit_out, takes_out, derivative = FUNCTIONS[name]
    bad = g.boolean(0.15)
    given = g.pick(['kg', 'K', None]) if bad else unit
    v = draw_variable(g, sizes, dtype, unit=given, variances=0.3 if derivative else 0)
    if g.boolean(0.2) and name == 'sin':
        pass
    x, s = numbers(v)
    array = sc.DataArray(v.copy()) if g.boolean(0.3) else None
    if array is not None:
        add_metadata(g, array)
    g.note(f'{name}\n{show(v if array is None else array)}')
    g.nontrivial(v.size > 1)
    fn = getattr(sc, name)
    needs = unit in ('one', 'rad')
    try:
        r = fn(v) if array is None else fn(array)
    except REFUSED as e:
        check('functions: refused', bad and (needs or name in ('sqrt', 'reciprocal')), repr(e))
        return
    check('functions: unit accepted', not (bad and needs), given)
    if not bad:
        check('functions: unit', r.unit == sc.Unit(unit_out), r.unit)
    check('functions: dtype', str(r.dtype) == dtype)
    wide = f(x.astype(float))
    d = None
    if s is not None and derivative:
        d = derivative(x.astype(float)) ** 2 * s.astype(float)
        if not np.all(np.isfinite(d)) or (name == 'sqrt' and np.any(x < 0)) or name.startswith('log') and np.any(x <= 0):
            d = None
    compare('functions', r, v.dims, wide, 1e-12 if dtype == 'float64' else 1e-4, d)
    if array is not None:
        check('functions: coords', set(r.coords) == set(array.coords) and set(r.masks) == set(array.masks))
        for k in array.coords:
            check('functions: coord', sc.identical(r.coords[k], array.coords[k]))
    if takes_out and array is None and not bad:
        out = sc.empty(sizes=v.sizes, dtype=dtype, unit=unit_out, with_variances=v.variances is not None)
        b = fn(v, out=out)
        check('functions: out', b is out or sc.identical(b, out, equal_nan=True))
        compare('functions: out', out, v.dims, wide, 1e-12 if dtype == 'float64' else 1e-4, d)
        check('functions: unit of out', out.unit == sc.Unit(unit_out))
        if name in ('sqrt', 'abs', 'exp') and v.variances is None:
            w = v.copy()
            fn(w, out=w)
            compare('functions: out is in', w, v.dims, wide, 1e-12 if dtype == 'float64' else 1e-4)


def functions2(g):
    """atan2, nan_to_num, where, degrees, parts of values with variances."""
    sizes = draw_sizes(g)
    dtype = g.pick(['float64', 'float32'])
    kind = g.pick(['atan2', 'nan_to_num', 'where', 'degrees', 'parts', 'neg'])
    v = draw_variable(g, sizes, dtype, variances=0.5 if kind == 'parts' else 0)
    x, s = numbers(v)
    g.note(f'{kind}\n{show(v)}')
    g.nontrivial(v.size > 1)
    if kind == 'atan2':
        w = draw_variable(g, subset_sizes(g, sizes), dtype, variances=0)
        r = sc.atan2(y=v, x=w)
        check('functions2: unit', r.unit == sc.Unit('rad'))
        dims = list(v.dims)
        compare('functions2: atan2', r, dims, np.arctan2(x, np.broadcast_to(spread(arr(w), w.dims, dims), x.shape)),
                tol_of(dtype))
    elif kind == 'nan_to_num':
        args = {k: g.integer(-50, 50) for k in g.subset(['nan', 'posinf', 'neginf'])}
        r = sc.nan_to_num(v, **{k: sc.scalar(float(n), unit='m', dtype=dtype) for k, n in args.items()})
        want = x.copy()
        if 'nan' in args:
            want[np.isnan(want)] = args['nan']
        if 'posinf' in args:
            want[np.isposinf(want)] = args['posinf']
        if 'neginf' in args:
            want[np.isneginf(want)] = args['neginf']
        compare('functions2: nan_to_num', r, v.dims, want, 0)
    elif kind == 'where':
        c = draw_variable(g, subset_sizes(g, sizes), 'bool')
        w = draw_variable(g, subset_sizes(g, sizes), dtype, variances=0)
        r = sc.where(c, v, w)
        dims = [d for d in 'xyz' if d in sizes]
        want = np.where(spread(arr(c), c.dims, dims), spread(x, v.dims, dims), spread(arr(w), w.dims, dims))
        compare('functions2: where', r, dims, want, 0)
        check('functions2: where unit', r.unit == v.unit)
    elif kind == 'degrees':
        v = v.copy()
        v.unit = 'deg'
        compare('functions2: sin of degrees', sc.sin(v), v.dims, np.sin(np.deg2rad(x.astype(float))), 1e-9 + tol_of(dtype))
    elif kind == 'parts':
        compare('functions2: values', sc.values(v), v.dims, x, 0)
        check('functions2: values', sc.values(v).variances is None)
        if s is not None:
            compare('functions2: variances', sc.variances(v), v.dims, s, 0)
            check('functions2: variances', sc.variances(v).unit == v.unit ** 2)
            compare('functions2: stddevs', sc.stddevs(v), v.dims, np.sqrt(s), tol_of(dtype))
            check('functions2: stddevs', sc.stddevs(v).unit == v.unit)
    else:
        compare('functions2: neg', -v, v.dims, -x, 0)
        compare('functions2: abs', abs(v), v.dims, np.abs(x), 0)


# --- reductions --------------------------------------------------------------------------------

REDUCE = {'sum': np.sum, 'nansum': np.nansum, 'mean': np.mean, 'nanmean': np.nanmean, 'min': np.min, 'max': np.max,
          'nanmin': np.nanmin, 'nanmax': np.nanmax, 'median': np.median, 'nanmedian': np.nanmedian, 'var': np.var,
          'nanvar': np.nanvar, 'std': np.std, 'nanstd': np.nanstd, 'all': np.all, 'any': np.any}
MANY = ('sum', 'median', 'nanmedian', 'var', 'nanvar', 'std', 'nanstd')


def lists_of(x, mask, dims, reduced):
    """{position: unmasked values} of an array whose dims in `reduced` are removed."""
    sizes = dict(zip(dims, x.shape, strict=True))
    kept = {d: n for d, n in sizes.items() if d not in reduced}
    for where in indices(kept):
        key = tuple(where.get(d, slice(None)) for d in dims)
        yield where, x[key][~mask[key]] if mask is not None else x[key].ravel()


def reductions(g):
    """Reductions use every unmasked element exactly once, of all or the given dims; NaN as stated; masks kept or applied."""
    name = g.pick(REDUCE)
    sizes = draw_sizes(g)
    dtype = 'bool' if name in ('all', 'any') else g.pick(['float64', 'float32', 'int64', 'int32'])
    if name.startswith('nan') and dtype.startswith('int') and name not in ('nanmedian', 'nanvar', 'nanstd'):
        dtype = 'float64'
    sums = name in ('sum', 'nansum', 'mean', 'nanmean')
    kind = g.pick(['variable', 'array', 'array', 'dataset', 'group'])
    nan = name.startswith('nan')
    v = draw_variable(g, sizes, dtype, variances=0.3 if sums else 0, special=0)
    if dtype.startswith('float') and nan and v.size and v.ndim and g.boolean(0.6):
        v.values[tuple(g.draw(n - 1) for n in v.shape)] = np.nan
    x, s = numbers(v)
    masks = {}
    da = sc.DataArray(v)
    if kind != 'variable':
        add_metadata(g, da)
        masks = dict(da.masks.items())
    most = len(sizes) if name in MANY else 1
    choice = g.permutation(v.dims)[: g.integer(1, max(1, most))]
    dim = None if not v.ndim or g.boolean(0.35) else choice[0] if g.boolean(0.6) else \
        g.pick([tuple, list])(choice) if name in MANY else choice[0]
    reduced = list(v.dims) if dim is None else [dim] if isinstance(dim, str) else list(dim)
    args = {'ddof': g.draw(1)} if name.endswith(('var', 'std')) else {}
    obj = {'variable': v, 'array': da}.get(kind)
    if kind == 'dataset':
        obj = sc.Dataset({'a': da})
    if kind == 'group' and not sizes:
        raise Discard
    if kind == 'group':
        obj = sc.DataGroup({'a': da, 'b': sc.DataGroup({'c': v})})
    method = kind == 'group' or (g.boolean() and hasattr(obj, name))
    g.note(f'{name} dim={dim} {args} {method}\n{show(obj)}')
    before = obj.copy()
    try:
        r = getattr(obj, name)(dim, **args) if method else getattr(sc, name)(obj, dim, **args)
    except REFUSED as e:
        empty = x.size == 0
        unsupported = name in ('nanmedian', 'nanvar', 'nanstd') and any(set(m.dims) & set(reduced)
                                                                        for m in masks.values())
        check('reductions: refused', empty or unsupported, repr(e))
        return
    check('reductions: input changed', sc.identical(obj, before, equal_nan=True))
    check('reductions: type', type(r) is type(obj))
    g.nontrivial(x.size > 1)
    results = [(r, True)]
    if kind == 'dataset':
        results = [(r['a'], True)]
    elif kind == 'group':
        results = [(r['a'], True), (r['b']['c'], False)]
    elif kind == 'variable':
        results = [(r, False)]
    for out, masked in results:
        mask = None
        kept = {}
        if masked:
            for k, m in masks.items():
                if set(m.dims) & set(reduced):
                    b = np.broadcast_to(spread(arr(m), m.dims, v.dims), x.shape)
                    mask = b if mask is None else mask | b
                else:
                    kept[k] = m
            check('reductions: masks', set(out.masks) == set(kept), list(out.masks))
            for k, m in kept.items():
                check('reductions: mask', sc.identical(out.masks[k], m))
            want_coords = {k for k, c in da.coords.items() if not set(c.dims) & set(reduced)}
            check('reductions: coords', set(out.coords) == want_coords, set(out.coords), want_coords)
        check('reductions: dims', out.dims == tuple(d for d in v.dims if d not in reduced), out.dims)
        unit = None if dtype == 'bool' else v.unit ** 2 if name.endswith('var') else v.unit
        check('reductions: unit', out.unit == unit, out.unit, unit)
        for where, elements in lists_of(x, mask, list(v.dims), reduced):
            got = arr(out if isinstance(out, sc.Variable) else out.data)[tuple(where[d] for d in out.dims)]
            if nan:
                elements = elements[~np.isnan(elements.astype(float))]
            if len(elements) == 0:
                if name in ('sum', 'nansum', 'all', 'any'):
                    check('reductions: empty', got == {'all': True}.get(name, 0), got)
                continue
            if name.endswith(('var', 'std')) and len(elements) <= args['ddof']:
                continue
            want = REDUCE[name.removeprefix('nan')](elements if dtype == 'bool' else elements.astype(float), **args)
            check('reductions: value', agree(got, want, tol_of(dtype)), where, got, want)
        if sums and s is not None:
            data = out if isinstance(out, sc.Variable) else out.data
            got_s = np.asarray(data.variances if data.ndim else data.variance)
            ok = ~np.isnan(x) if nan else np.ones(x.shape, dtype=bool)
            gone = ~ok if mask is None else mask | ~ok
            for where, elements in lists_of(s, gone, list(v.dims), reduced):
                if len(elements) == 0:
                    continue
                n = len(elements)
                want = elements.astype(float).sum() / (1 if name.endswith('sum') else n * n)
                check('reductions: variance', agree(got_s[tuple(where[d] for d in out.dims)], want, 10 * tol_of(dtype)),
                      where, got_s, want)


def cumulative(g):
    """cumsum adds up elements along one or all dims."""
    sizes = draw_sizes(g)
    v = draw_variable(g, sizes, special=0, variances=0)
    x, s = numbers(v)
    dim = g.pick([None, *v.dims])
    mode = g.pick(['inclusive', 'exclusive'])
    da = g.boolean(0.4)
    obj = add_metadata(g, sc.DataArray(v)) if da else v
    g.note(f'{dim} {mode}\n{show(obj)}')
    g.nontrivial(v.size > 1)
    r = sc.cumsum(obj, dim, mode=mode) if g.boolean() else sc.cumsum(obj, dim=dim, mode=mode)

    def total(a):
        a = a.astype(float)
        axis = None if dim is None else v.dims.index(dim)
        c = np.cumsum(a, axis=axis).reshape(a.shape)
        return c if mode == 'inclusive' else c - a

    compare('cumulative', r, v.dims, total(x), tol_of(v.dtype) * 5, None if s is None else total(s))
    if da:
        check('cumulative: metadata', set(r.coords) == set(obj.coords) and set(r.masks) == set(obj.masks))


def reduce_list(g):
    """sc.reduce([...]) is the elementwise reduction of the list."""
    sizes = draw_sizes(g)
    n = g.integer(1, 4)
    items = [draw_variable(g, sizes, 'float64', special=0, variances=0) for _ in range(n)]
    name = g.pick(['sum', 'mean', 'min', 'max', 'nansum', 'nanmean', 'nanmin', 'nanmax', 'all', 'any'])
    if name in ('all', 'any'):
        items = [v > sc.scalar(0.0, unit='m') for v in items]
    g.note(f'{name}\n' + '\n'.join(show(i) for i in items))
    g.nontrivial(items[0].size > 1 and n > 1)
    as_array = g.boolean(0.4)
    r = getattr(sc.reduce([sc.DataArray(i) for i in items] if as_array else iter(items)), name)()
    check('reduce_list: type', isinstance(r, sc.DataArray) == as_array)
    compare('reduce_list', r, items[0].dims, REDUCE[name](np.stack([arr(i) for i in items]), axis=0), 1e-12)


# --- order, shape, conversion ------------------------------------------------------------------

def ordering(g):
    """sort, issorted, allsorted, islinspace and midpoints."""
    sizes = draw_sizes(g)
    if not sizes:
        raise Discard
    v = draw_variable(g, sizes, g.pick(['float64', 'int64', 'int32', 'float32']), special=0, variances=0)
    d = g.pick(list(sizes))
    order = g.pick(['ascending', 'descending'])
    x, s = numbers(v)
    axis = v.dims.index(d)
    if g.boolean(0.4) and s is None and v.size:
        v.values = np.sort(x, axis=axis)[tuple(slice(None, None, -1) if k == axis and order == 'descending'
                                               else slice(None) for k in range(v.ndim))]
        x = numbers(v)[0]
    g.note(f'{d} {order}\n{show(v)}')
    g.nontrivial(v.size > 1)
    diff = np.diff(x.astype(float), axis=axis)
    good = diff >= 0 if order == 'ascending' else diff <= 0
    rest = [e for e in v.dims if e != d]
    compare('ordering: issorted', sc.issorted(v, d, order), rest, np.all(good, axis=axis), 0)
    check('ordering: allsorted', bool(sc.allsorted(v, d, order)) == bool(np.all(good)))
    if v.ndim == 1:
        i = np.argsort(x, kind='stable')
        r = sc.sort(v, d, order=order)
        compare('ordering: sort', r, v.dims, x[i] if order == 'ascending' else x[i][::-1], 0)
    key = draw_variable(g, {d: sizes[d]}, 'int64', variances=0)
    da = sc.DataArray(v, coords={'key': key, d: sc.arange(d, sizes[d])})
    r = sc.sort(da, 'key', order=order) if g.boolean() else sc.sort(da, key, order=order)
    k = arr(key)
    took = r.coords[d].values
    check('ordering: permutation', sorted(took) == list(range(sizes[d])))
    now = k[took]
    check('ordering: keys', np.all(np.diff(now) >= 0) if order == 'ascending' else np.all(np.diff(now) <= 0), now)
    compare('ordering: slices', r, v.dims, np.take(x, took, axis=axis), 0,
            None if s is None else np.take(s, took, axis=axis))
    if x.shape[axis] > 1 and not s is not None and str(v.dtype).startswith('float'):
        mid = (np.take(x, range(1, x.shape[axis]), axis=axis) + np.take(x, range(x.shape[axis] - 1), axis=axis)) / 2
        compare('ordering: midpoints', sc.midpoints(v, d), v.dims, mid, tol_of(v.dtype))


def shapes(g):
    """fold, flatten, transpose, squeeze, broadcast, concat and renaming keep each element in its place."""
    sizes = draw_sizes(g)
    v = draw_variable(g, sizes, g.pick(['float64', 'int64', 'bool']), special=0)
    x, s = numbers(v)
    kind = g.pick(['fold', 'flatten', 'transpose', 'squeeze', 'broadcast', 'concat', 'rename'])
    obj = add_metadata(g, sc.DataArray(v)) if g.boolean(0.4) and kind not in ('broadcast',) else v
    method = g.boolean()
    g.note(f'{kind} {method}\n{show(obj)}')
    g.nontrivial(v.size > 1)
    dims = list(v.dims)
    if kind == 'flatten':
        some = g.pick([None, 'run'])
        if some and dims:
            lo = g.draw(len(dims) - 1)
            hi = g.integer(lo + 1, len(dims))
            use = dims[lo:hi]
            r = obj.flatten(dims=use, to='new') if method else sc.flatten(obj, dims=use, to='new')
            shape = (*x.shape[:lo], int(np.prod(x.shape[lo:hi], dtype=int)), *x.shape[hi:])
            out = [*dims[:lo], 'new', *dims[hi:]]
        else:
            r = obj.flatten(to='new') if method else sc.flatten(obj, to='new')
            shape, out = (x.size,), ['new']
        check('shapes: dims', r.dims == tuple(out), r.dims)
        compare('shapes: flatten', r, out, x.reshape(shape), 0, None if s is None else s.reshape(shape))
    elif kind == 'fold':
        if not dims:
            raise Discard
        d = g.pick(dims)
        n = sizes[d]
        a = g.pick([k for k in range(1, n + 1) if n % k == 0] or [1])
        new = {'p': a, 'q': n // a}
        form = g.pick(['sizes', 'minus', 'dims'])
        if form == 'minus' and n:
            new[g.pick('pq')] = -1
        args = {'sizes': new} if form != 'dims' else {'dims': list(new), 'shape': list(new.values())}
        r = obj.fold(d, **args) if method else sc.fold(obj, d, **args)
        i = dims.index(d)
        shape = (*x.shape[:i], a, n // a, *x.shape[i + 1:])
        out = [*dims[:i], 'p', 'q', *dims[i + 1:]]
        check('shapes: dims', r.dims == tuple(out), r.dims)
        compare('shapes: fold', r, out, x.reshape(shape), 0, None if s is None else s.reshape(shape))
        if n > 1:
            try:
                bad = sc.fold(obj, d, sizes={'p': n + 1, 'q': -1})
            except REFUSED:
                pass
            else:
                check('shapes: fold accepted', False, lambda: show(bad))
    elif kind == 'transpose':
        order = None if g.boolean(0.3) else g.permutation(dims)
        if order is None:
            r = obj.transpose() if method else sc.transpose(obj)
            order = dims[::-1]
        else:
            r = obj.transpose(order) if method else sc.transpose(obj, order)
        check('shapes: dims', r.dims == tuple(order), r.dims, order)
        compare('shapes: transpose', r, dims, x, 0, s)
    elif kind == 'squeeze':
        ones = [d for d in dims if sizes[d] == 1]
        which = g.pick([None, *ones, ones])
        r = obj.squeeze(which) if method else sc.squeeze(obj, which)
        gone = ones if which is None or isinstance(which, list) else [which]
        if isinstance(which, list):
            gone = which
        out = [d for d in dims if d not in gone]
        check('shapes: dims', r.dims == tuple(out), r.dims, out)
        compare('shapes: squeeze', r, out, x.reshape([sizes[d] for d in out]), 0)
        wide = [d for d in dims if sizes[d] > 1]
        if wide:
            try:
                bad = sc.squeeze(obj, wide[0])
            except REFUSED:
                pass
            else:
                check('shapes: squeeze accepted', False, lambda: show(bad))
    elif kind == 'broadcast':
        more = {**sizes, 'n': g.integer(1, 3)}
        order = g.permutation(more)
        full = {d: more[d] for d in order}
        w = sc.values(v) if s is not None else v
        r = w.broadcast(sizes=full) if method else \
            sc.broadcast(w, sizes=full) if g.boolean() else sc.broadcast(w, dims=order, shape=[more[d] for d in order])
        check('shapes: dims', r.dims == tuple(order), r.dims, order)
        compare('shapes: broadcast', r, order, np.broadcast_to(spread(x, dims, order), list(full.values())), 0)
    elif kind == 'concat':
        n = g.integer(1, 3)
        along = g.pick(['new', *dims])
        if along == 'new':
            r = sc.concat([obj] * n, 'new')
            compare('shapes: concat', r, ['new', *dims], np.stack([x] * n), 0)
            check('shapes: dims', r.dims == ('new', *dims))
        else:
            r = sc.concat([v] * n, along)
            compare('shapes: concat', r, dims, np.concatenate([x] * n, axis=dims.index(along)), 0)
            check('shapes: dims', r.dims == tuple(dims))
    else:
        names = dict(zip(dims, g.permutation(['x', 'y', 'z', 'new'])[: len(dims)], strict=True))
        use = {k: names[k] for k in dims}
        try:
            r = obj.rename_dims(use) if g.boolean() else obj.rename_dims(**use)
        except REFUSED as e:
            check('shapes: rename refused', any(a != b and b in dims for a, b in use.items()), repr(e))
            return
        out = [use[d] for d in dims]
        check('shapes: dims', r.dims == tuple(out), r.dims, out)
        compare('shapes: rename', r, out, x, 0, s)


PREFIX = {'mm': 1e-3, 'cm': 1e-2, 'm': 1.0, 'km': 1e3}


def convert(g):
    """to() converts unit and dtype without needless loss; copy=False returns the same memory if nothing is to do."""
    sizes = draw_sizes(g)
    dtype = g.pick(['float64', 'float32', 'int64', 'int32'])
    unit = g.pick(list(PREFIX))
    v = draw_variable(g, sizes, dtype, unit=unit, special=0)
    x, s = numbers(v)
    to_unit, to_dtype = g.pick([None, *PREFIX]), g.pick([None, 'float64', 'float32', 'int64', 'int32'])
    copy = g.boolean()
    obj = add_metadata(g, sc.DataArray(v)) if g.boolean(0.3) else v
    args = {k: a for k, a in {'unit': to_unit, 'dtype': to_dtype}.items() if a is not None}
    g.note(f'{args} copy={copy}\n{show(obj)}')
    g.nontrivial(v.size > 1)
    try:
        r = obj.to(**args, copy=copy)
    except REFUSED as e:
        check('convert: refused', not args or (s is not None and (to_dtype or '').startswith('int')), repr(e))
        return
    final = to_dtype or dtype
    check('convert: dtype', str(r.dtype) == final, r.dtype)
    check('convert: unit', r.unit == sc.Unit(to_unit or unit))
    scale = PREFIX[unit] / PREFIX[to_unit or unit]
    exact = x.astype(float) * scale
    a, t = numbers(r.data if isinstance(r, sc.DataArray) else r)
    if final.startswith('float'):
        inner = [dtype, final]
        tol = 1e-12 if 'float32' not in inner else 1e-6
        whole = dtype.startswith('int') and to_dtype is None
        check('convert: values', agree(a, exact, tol) or whole, a, exact)
    else:
        check('convert: integers', np.all(np.abs(a - exact) <= 1), a, exact)
    if s is not None and t is not None:
        check('convert: variances', agree(t, s.astype(float) * scale**2, 1e-5), t)
    data, source = (r.data if isinstance(r, sc.DataArray) else r), v
    if v.ndim and v.size:
        shared = np.shares_memory(data.values, source.values)
        nothing = (to_unit or unit) == unit and final == dtype
        check('convert: copy', not shared if copy or not nothing else shared, shared, nothing)


LAWS = {
    'arithmetic': (4000, 100000, arithmetic),
    'inplace': (2500, 60000, inplace),
    'power': (800, 20000, power),
    'comparison': (1500, 40000, comparison),
    'closeness': (1000, 25000, closeness),
    'logic': (1000, 20000, logic),
    'functions': (2500, 50000, functions),
    'functions2': (1000, 25000, functions2),
    'reductions': (4000, 100000, reductions),
    'cumulative': (800, 20000, cumulative),
    'reduce_list': (500, 10000, reduce_list),
    'ordering': (1200, 30000, ordering),
    'shapes': (2000, 50000, shapes),
    'convert': (1500, 40000, convert),
}

if __name__ == '__main__':
    main('C55', RULE, LAWS)
