# interpreter: _scipp
"""C61: every object can be shown, formatted and taken apart, and what is shown is what it holds."""
import math
import re
import sys
import types
from decimal import ROUND_HALF_EVEN, Decimal, localcontext
from html.parser import HTMLParser

import C57
from C54 import draw_numbers, draw_shape, gen_variable
from C58 import layout
from pbt import Discard, check, main
from real import ERRORS, arr, indices, np, sc, show, var

from scipp.utils import isnear, value_to_string

RULE = 'a case counts if the object has at least two elements, or two items'

REFUSED = (*ERRORS, sc.DTypeError, sc.DimensionError, sc.UnitError, sc.VariancesError, sc.CoordError)
HOSTILE = ['x', 'y', '<b>', '</div>', 'a & b', '"q"', "it's", '$n$', '&lt;', 'ä', '長さ', 'long name ' * 3, '<script>']


def stand_in_for_ipython():
    """Tables are wrapped in IPython's class for HTML; nothing else of IPython is used."""
    package, display = types.ModuleType('IPython'), types.ModuleType('IPython.display')

    class HTML:
        def __init__(self, data):
            self.data = data

    display.HTML, package.display = HTML, display
    sys.modules.setdefault('IPython', package)
    sys.modules.setdefault('IPython.display', display)


stand_in_for_ipython()


class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.children = tag, dict(attrs), []

    def text(self):
        return ''.join(c if isinstance(c, str) else c.text() for c in self.children)

    def find(self, tag=None, cls=None):
        for c in self.children:
            if isinstance(c, Node):
                if (tag is None or c.tag == tag) and (cls is None or cls in c.attrs.get('class', '').split()):
                    yield c
                yield from c.find(tag, cls)


class Parser(HTMLParser):
    VOID = {'input', 'br', 'line', 'th-', 'circle'}

    def __init__(self, text):
        super().__init__()
        self.root, self.errors = Node('root', {}), []
        self.stack = [self.root]
        self.feed(text)
        self.close()
        if len(self.stack) > 1:
            self.errors.append(f'<{self.stack[-1].tag}> is not closed')

    def handle_starttag(self, tag, attrs):
        node = Node(tag, attrs)
        self.stack[-1].children.append(node)
        if tag not in self.VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        self.stack[-1].children.append(Node(tag, attrs))

    def handle_endtag(self, tag):
        if self.stack[-1].tag != tag:
            self.errors.append(f'</{tag}> where <{self.stack[-1].tag}> is open')
        else:
            self.stack.pop()

    def handle_data(self, data):
        self.stack[-1].children.append(data)


def parsed(label, text, expected):
    p = Parser(text)
    check(label + '-tags', not p.errors, p.errors[:2], text[-1500:])
    odd = {n.tag for n in p.root.find()} - expected
    check(label + '-foreign-tags', not odd, odd)
    return p.root


HTML_TAGS = {'div', 'span', 'ul', 'li', 'input', 'label', 'svg', 'use', 'style', 'symbol', 'path', 'title', 'pre', 'br',
             'defs'}
SVG_TAGS = {'svg', 'defs', 'style', 'g', 'text', 'title', 'rect', 'path', 'circle', 'line'}
TABLE_TAGS = {'table', 'tr', 'td', 'th', 'span'}


def gen_name(g, used):
    return g.pick([n for n in HOSTILE if n not in used])


def plain(g, dims, shape):
    """A variable whose elements have a text that is easily predicted."""
    v = gen_variable(g, dims, shape)
    while str(v.dtype) in ('vector3', 'linear_transform3'):
        v = gen_variable(g, dims, shape)
    if str(v.dtype) == 'string' and shape and g.boolean(0.5) and v.size:
        n = v.size
        flat = sc.array(dims=['all'], values=[g.pick(HOSTILE) for _ in range(n)])
        v = flat.fold('all', sizes=dict(zip(dims, shape, strict=True)))
    return v


# Text

def texts(g):
    """str, repr, format, HTML and SVG can be made of anything, alter nothing, and are well formed."""
    x = C57.gen_group(g) if g.boolean(0.15) else C57.gen_thing(g)
    kind = type(x).__name__
    g.nontrivial(C57.size_of(x) > 1)
    before = x.copy()
    for name, f in (('str', str), ('repr', repr), ('format', format)):
        try:
            a = f(x)
            check('text-' + name, isinstance(a, str) and f(x) == a, kind, name, a)
        except REFUSED as e:
            check('text-refused', False, kind, name, repr(e), lambda: f'{x.dims} {x.shape}')
    try:
        html = sc.make_html(x)
    except REFUSED as e:
        check('html-refused', False, kind, repr(e), lambda: show(x))
    parsed('html', html, HTML_TAGS)
    if not isinstance(x, sc.DataGroup):
        svg = drawn(x)
        if svg is not None:
            parsed('svg', svg, SVG_TAGS)
        if x.ndim == 1:
            try:
                table = sc.table(x).data
            except REFUSED as e:
                # Bin edges of slices along other dimensions are not supported by tables
                check('table-refused', False, kind, repr(e), lambda: show(x))
            parsed('table', table, TABLE_TAGS)
    r = C57.same('x', before, x)
    check('shown-object-changed', r is None, r)


def all_dims(x):
    if isinstance(x, sc.Variable):
        out = set(x.dims)
        items = [x]
    else:
        items = [*x.values()] if isinstance(x, sc.Dataset) else [x.data]
        coords = list(x.coords.values())
        items = [i.data if isinstance(i, sc.DataArray) else i for i in items] + coords
        out = set(x.dims).union(*(c.dims for c in coords))
    return max([len(out), *(all_dims(i.bins.constituents['data']) for i in items if i.bins is not None)])


def drawn(x):
    many = all_dims(x) > 3
    try:
        return sc.make_svg(x)
    except REFUSED as e:
        check('svg-refused', many and 'Cannot visualize' in str(e), type(x).__name__, repr(e), lambda: show(x))


# Format specifications

def element_text(v, e, spec):
    dtype = str(v.dtype)
    if spec:
        return format(e, spec)
    if dtype in ('float64', 'float32'):
        return f'{e:g}'
    return f'"{e}"' if dtype == 'string' else str(e)


def elements_text(v, values, selection, length, nested):
    e = [element_text(v, k, nested) for k in values]
    if v.ndim == 0:
        return e[0] if length else '...'
    if len(e) <= length:
        shown = e
    elif selection == '<':
        shown = [*e[:length], '...']
    elif selection == '>':
        shown = ['...', *e[len(e) - length:]]
    else:
        first = length // 2
        shown = [*e[:first], '...', *e[len(e) - (length - first):]]
    return '[' + ', '.join(shown) + ']' if shown != ['...', '...'] else '[...]'


def formats(g):
    """format(variable, '[<>^][#n][:element format]') shows the requested elements."""
    shape = draw_shape(g, 3)
    dims = ['x', 'y', 'z', 'w'][:len(shape)]
    v = layout(g, plain(g, dims, shape))
    selection, length = g.pick(['', '<', '>', '^']), g.pick([None, None, 0, 1, 2, 3, 4, 5, 7, 300])
    nested = None
    dtype = str(v.dtype)
    if g.boolean(0.5):
        nested = g.pick({'f': ['', '.2f', '.3e', '+g', '>9.1f'], 'i': ['', 'd', '>5', '+d', 'x'],
                         's': ['', '>6', '.1', '^9']}.get(dtype[0], ['']))
    spec = selection + ('' if length is None else f'#{length}') + ('' if nested is None else f':{nested}')
    g.note(f'{show(v)} {spec!r}')
    g.nontrivial(v.size > 1)
    sizes = '(' + ', '.join(f'{d}: {n}' for d, n in v.sizes.items()) + ')'
    unit = '<no unit>' if v.unit is None else f'[{v.unit}]'

    def expected(a):
        return elements_text(v, list(np.ravel(a)), selection, 4 if length is None else length, nested or '')

    want = f'<scipp.Variable> {sizes}  {dtype:>9}  {unit:>15}  {expected(arr(v))}'
    if v.variances is not None:
        want += '  ' + expected(arr(sc.variances(v)))
    try:
        got = format(v, spec)
    except REFUSED as e:
        check('format-refused', False, spec, repr(e))
    check('format', got == want, spec, got, want)
    if not spec and not (dtype == 'string' and any(len(k) > 80 for k in np.ravel(arr(v)))):
        check('format-as-str', got == str(v) == repr(v), got, str(v))
    bad = g.pick(['#', 'q', '##2', '<>', '#-1', '<c#2', 'cc', '2', '.2f'])
    try:
        r = format(v, bad)
        check('format-accepted', False, bad, r)
    except ValueError:
        pass


def compact_text(v, e2, tie):
    if e2 is None or e2 == 0:
        return format(v)
    if not math.isfinite(e2):
        return f'{v}({np.sqrt(e2)})'
    with localcontext() as ctx:
        ctx.prec = 60
        value, error = Decimal(float(v)), Decimal(float(e2)).sqrt()
        p = error.adjusted()
        lead = error.scaleb(-p)
        if any(abs(lead - k) < tie for k in (Decimal(1), Decimal('1.5'), Decimal(10))):
            raise Discard  # too close to where another digit is shown
        if lead.quantize(Decimal(1), ROUND_HALF_EVEN) == 1:
            p -= 1
        for x in (value, error):
            if abs(abs(x.scaleb(-p)) % 1 - Decimal('0.5')) < tie:
                raise Discard
        n = error.scaleb(-p).quantize(Decimal(1))
        if p > -1:
            n = n.scaleb(p)
        value = value.scaleb(-p).quantize(Decimal(1)).scaleb(p)
        if value == 0 and v < 0:
            value = Decimal('-0')
        return f'{value:.{max(0, -p)}f}({int(n)})'


def compact(g):
    """format(variable, 'c'): value(error) with the digits that the error allows."""
    shape = draw_shape(g, 2)
    dims = ['x', 'y', 'z', 'w'][:len(shape)]
    dtype = g.pick(['float64', 'float64', 'float32', 'int64', 'int32'])
    n = int(np.prod(shape, dtype=int))
    if dtype[0] == 'i':
        v = var(dims, draw_numbers(g, shape, dtype), unit=g.pick(['m', 'one']))
    else:
        digits = [g.integer(-99999, 99999) * 10.0 ** g.integer(-9, 3) for _ in range(n)]
        errors = [(g.integer(1, 9999) * 10.0 ** g.integer(-9, 3)) ** 2 for _ in range(n)]
        for k in range(n):
            if g.boolean(0.1):
                errors[k] = g.pick([0.0, math.inf, math.nan])
            # Digits beyond the precision of the type are not asserted
            ratio = 1e6 if dtype == 'float64' else 1e2
            if errors[k] and math.isfinite(errors[k]) and abs(digits[k]) > ratio * math.sqrt(errors[k]):
                errors[k] = (abs(digits[k]) / ratio) ** 2
        v = var(dims, np.array(digits, dtype=dtype).reshape(shape), unit=g.pick(['m', 'one']),
                variances=np.array(errors, dtype=dtype).reshape(shape) if g.boolean(0.85) else None)
    g.note(show(v))
    g.nontrivial(n > 1)
    if v.variances is None:
        want = [format(k) for k in np.ravel(arr(v))]
    else:
        tie = Decimal('1e-5') if dtype == 'float64' else Decimal('1e-2')
        want = [compact_text(a, e, tie) for a, e in zip(np.ravel(arr(v)), np.ravel(arr(sc.variances(v))), strict=True)]
    unit = '' if v.unit == sc.units.one else f' {v.unit}'
    try:
        got = format(v, 'c')
    except (*REFUSED, OverflowError) as e:
        check('compact-refused', False, repr(e))
    check('compact', got == ', '.join(want) + unit, got, want, lambda: f'{v.values} {v.variances}')
    for bad in ('#2c', '<c', 'c:.1f'):
        try:
            check('compact-accepted', False, bad, format(v, bad))
        except ValueError:
            pass


# HTML

def value_text(x, precision=3, most=80):
    """The documented rule: as it is if short, else with 3 digits, in scientific notation if large or small."""
    if not isinstance(x, float) or x == 0:
        return str(x) if len(str(x)) <= most else str(x)[:most - 3] + '...'
    if abs(x) >= 10.0 ** (precision + 1) or abs(x) <= 10.0 ** (-precision - 1):
        return f'{x:.{precision}e}'
    t = str(x)
    return f'{x:.{precision}f}' if len(t) > precision + 2 + (t[0] == '-') else t


def escaped(s):
    return s.replace('$', '\\$')


def numpy_values(v):
    return np.asarray(v.value, dtype=str(v.dtype)) if v.ndim == 0 and str(v.dtype) == 'float32' else arr(v)


def preview(v):
    e = [value_text(k) for k in np.ravel(arr(v))] if v.ndim else [str(numpy_values(v))]
    if len(e) > 5:
        e = [*e[:2], '...', *e[-2:]]
    out = escaped(', '.join(e))
    if v.variances is not None:
        s = sc.stddevs(v)
        out += 'σ = ' + preview(s)  # noqa: RUF001
    return out


def row_of(name, v, sizes):
    """(name, dims, dtype, unit, preview)"""
    if sizes is None:
        labels = [f'{d}: {n}' for d, n in v.sizes.items()]
    else:
        labels = [d + (' [bin-edge]' if sizes.get(d, 1) + 1 == n else '') for d, n in v.sizes.items()]
    unit = '' if v.unit is None else '𝟙' if v.unit == sc.units.one else str(v.unit)
    row = (None if name is None else escaped(name), escaped('(' + ', '.join(labels) + ')'), str(v.dtype), escaped(unit))
    return (*row, preview(v))


def rows_in(node):
    for item in node.find('li', 'sc-var-item'):
        def one(cls):
            found = list(item.find('div', cls))
            return found[0].text() if found else None
        alone = one('sc-standalone-var-name')
        where = (None, alone) if alone is not None else (one('sc-var-name'), one('sc-var-dims'))
        yield (*where, one('sc-var-dtype'), one('sc-var-unit'), one('sc-value-preview'))


def sections_of(root):
    """{title: rows} of the sections of a data array or dataset."""
    out = {}
    for item in root.find('li', 'sc-section-item'):
        title = next(item.find('label', 'sc-section-summary')).text()
        out[title] = item
    return out


def gen_shown(g, most=3):
    """A data array with hostile names."""
    shape = draw_shape(g, most)[:3]
    used = []
    dims = []
    for _ in shape:
        dims.append(gen_name(g, dims))
    sizes = dict(zip(dims, shape, strict=True))
    da = sc.DataArray(layout(g, plain(g, dims, shape)), name=g.pick(['', *HOSTILE]))
    for _ in range(g.draw(3)):
        used.append(gen_name(g, used))
        s = {d: n for d, n in sizes.items() if g.boolean(0.6)}
        if s and g.boolean(0.4):
            d = g.pick(list(s))
            s[d] += 1
        da.coords[used[-1]] = plain(g, list(s), tuple(s.values()))
        if g.boolean(0.3):
            da.coords.set_aligned(used[-1], False)
    for _ in range(g.draw(2)):
        used.append(gen_name(g, used))
        s = {d: n for d, n in sizes.items() if g.boolean(0.6)}
        da.masks[used[-1]] = var(list(s), draw_numbers(g, tuple(s.values()), 'bool'), unit=None)
    return da


def gen_table_of_arrays(g, da):
    """A dataset with the coords of a data array."""
    items, sizes = {}, dict(da.sizes)
    for _ in range(g.integer(1, 3)):
        x = sc.DataArray(plain(g, list(sizes), tuple(sizes.values())))
        if g.boolean(0.4):
            s = {d: n for d, n in sizes.items() if g.boolean(0.6)}
            x.masks[gen_name(g, [])] = var(list(s), draw_numbers(g, tuple(s.values()), 'bool'), unit=None)
        items[gen_name(g, items)] = x
    ds = sc.Dataset(items)
    for k, c in da.coords.items():
        ds.coords[k] = c
    return ds


def html(g):
    """make_html shows name, dims, dtype, unit and values of every part, and nothing else."""
    da = gen_shown(g)
    kind = g.pick(['variable', 'array', 'array', 'dataset'])
    x = da.data if kind == 'variable' else da if kind == 'array' else gen_table_of_arrays(g, da)
    g.note(show(x))
    g.nontrivial(da.size > 1)
    root = parsed('html', sc.make_html(x), HTML_TAGS)
    ids = [n.attrs['id'] for n in root.find('input')]
    check('html-ids', len(ids) == len(set(ids)) and all(n.attrs['for'] in ids for n in root.find('label')), ids)
    title = next(root.find('div', 'sc-obj-type')).text()
    check('html-type', title.startswith(f'scipp.{type(x).__name__} '), title)
    if kind == 'variable':
        got = list(rows_in(root))
        check('html-variable', got == [row_of(None, x, None)], got, row_of(None, x, None))
        return
    sections = sections_of(root)
    dims = next(iter(sections.values()))
    got = [n.text() for n in next(dims.find('ul', 'sc-dim-list')).find('li')]
    check('html-dims', got == [f'{escaped(d)}: {n}' for d, n in x.sizes.items()], got, x.sizes)
    index = [n.text() for n in next(dims.find('ul', 'sc-dim-list')).find('span', 'sc-has-index')]
    check('html-dim-coords', index == [escaped(d) for d in x.dims if d in x.coords], index)

    def expect(label, want):
        found = [v for k, v in sections.items() if k.startswith(label + ':') and 'sc-subsection' not in v.attrs['class']]
        check('html-sections', len(found) == bool(want), label, list(sections))
        if want:
            got = list(rows_in(found[0]))
            # masks of items of datasets are listed within
            got = [r for r in got if r in want] if label == 'Data' and kind == 'dataset' else got
            check('html-' + label.lower(), got == want, got, want)
            aligned = [n.text() for n in found[0].find('span', 'sc-aligned')]
            marked = [escaped(k) for k in sorted(x.coords) if x.coords[k].aligned] if label == 'Coordinates' else []
            check('html-aligned', aligned == marked, aligned, marked)

    sizes = dict(x.sizes)
    expect('Coordinates', [row_of(k, v, sizes) for k, v in sorted(x.coords.items())])
    if kind == 'array':
        expect('Data', [row_of('', x.data, sizes)])
        expect('Masks', [row_of(k, v, sizes) for k, v in sorted(x.masks.items())])
    else:
        expect('Data', [row_of(k, v.data, sizes) for k, v in sorted(x.items())])


def group_html(g):
    """make_html of data groups has one row for each item, whatever it is called."""
    def gen(depth=0):
        out = {}
        for _ in range(g.integer(0, 4)):
            k = gen_name(g, out)
            what = g.pick(['variable', 'array', 'numpy', 'text', 'number', 'group', 'dataset'])
            if what == 'group':
                out[k] = gen(depth + 1) if depth < 2 else sc.DataGroup()
            elif what == 'numpy':
                out[k] = g.pick([np.array(['<b>', '</i>']), np.arange(7), np.array(1.5), np.zeros((2, 0)), np.eye(3)])
            elif what == 'text':
                out[k] = g.pick(HOSTILE)
            elif what == 'number':
                out[k] = g.pick([1, 2.5, None, True, [1, '<i>'], {'<u>': 1}, complex(1, 2)])
            else:
                da = gen_shown(g)
                out[k] = da.data if what == 'variable' else da if what == 'array' else gen_table_of_arrays(g, da)
        return sc.DataGroup(out)

    def rows(dg):
        for k, v in dg.items():
            unit = getattr(v, 'unit', None) if isinstance(v, (sc.Variable, sc.DataArray)) else None
            yield (escaped(k), type(v).__name__, str(v.dtype) if isinstance(v, (sc.Variable, sc.DataArray)) else '',
                   '' if unit is None else '𝟙' if unit == sc.units.one else escaped(str(unit)))
            if isinstance(v, sc.DataGroup):
                yield from rows(v)

    dg = gen()
    want = list(rows(dg))
    g.nontrivial(len(want) > 1)
    try:
        root = parsed('group-html', sc.make_html(dg), HTML_TAGS)
    except REFUSED as e:
        check('group-html-refused', False, repr(e), dg)
    got = []
    for item in root.find('li', 'dg-detail-item'):
        got.append(tuple(next(item.find('div', 'dg-detail-' + c)).text().strip() for c in ('name', 'objtype', 'dtype', 'unit')))
    check('group-html', got == [tuple(c.strip() for c in r) for r in want], got, want)
    for k, v in dg.items():
        if isinstance(v, sc.Variable):
            text = [next(i.find('div', 'dg-detail-preview')).text().strip() for i in root.find('li', 'dg-detail-item')
                    if next(i.find('div', 'dg-detail-name')).text().strip() == escaped(k).strip()]
            shown = preview(sc.values(v) if v.variances is not None else v).strip()
            check('group-html-preview', shown in text, text, shown)


# Tables

def cell(v):
    x = v.value
    if str(v.dtype) not in ('float64', 'float32'):
        return str(x)
    if v.variance is None:
        return f'{x:.3f}'
    e = np.sqrt(v.variance)
    digits = 3 if e == 0 or not math.isfinite(e) else max(3, -math.floor(math.log10(e)))
    return f'{x:.{digits}f}±{e:.{digits}f}'


def tables(g):
    """sc.table has one column for each coord, item and mask, and one row for each element."""
    dim = g.pick(HOSTILE)
    n = g.pick([0, 1, 2, 3, 5, 19, 20, 21, 30])
    coords, used = {}, []
    for _ in range(g.draw(3)):
        used.append(gen_name(g, used))
        how = g.pick(['along', 'along', 'edges', 'scalar'])
        coords[used[-1]] = plain(g, [], ()) if how == 'scalar' else plain(g, [dim], (n + (how == 'edges'),))
    items = {}
    kind = g.pick(['variable', 'array', 'dataset', 'dict'])
    for _ in range(1 if kind in ('variable', 'array') else g.integer(1, 3)):
        x = sc.DataArray(plain(g, [dim], (n,)))
        for _ in range(g.draw(2)):
            m = gen_name(g, x.masks)
            x.masks[m] = var([dim], draw_numbers(g, (n,), 'bool'), unit=None) if g.boolean(0.7) else sc.scalar(g.boolean())
        items[gen_name(g, items)] = x
    most = g.pick([None, None, 2, 4, 5, 10])
    if kind == 'variable':
        items, coords = {'': sc.DataArray(next(iter(items.values())).data)}, {}
        x = items[''].data
    elif kind == 'array':
        name, x = next(iter(items.items()))
        x.name = name
        x = x.assign_coords(coords)
    elif kind == 'dataset':
        x = sc.Dataset(items, coords=coords)
    else:
        items = {k: sc.DataArray(v.data) for k, v in items.items()}
        coords, x = {}, {k: v.data for k, v in items.items()}
    g.note(f'{most} {show(x)}')
    g.nontrivial(n > 1)
    args = {} if most is None else {'max_rows': most}
    try:
        text = sc.table(x, **args).data
    except REFUSED as e:
        check('table-refused', False, repr(e))
    root = parsed('table', text, TABLE_TAGS)
    most = most or 20
    rows = list(range(n)) if n <= most else [*range(most // 2), None, *range(n - most // 2, n)]
    # Scalar coords are not shown, edges have one row more
    shown = {k: c for k, c in coords.items() if c.ndim == 1 and (c.dims == (dim,))}
    edges = any(c.sizes[dim] == n + 1 for c in shown.values())

    def column(name, v, edge=False):
        unit = '' if v.unit is None else ' [𝟙]' if v.unit == sc.units.one else f' [{v.unit}]'
        c = [name + unit, *('...' if k is None else cell(v[dim, k]) for k in rows)]
        if edges:
            c.append(cell(v[dim, n]) if edge else '')
        return c

    columns = [column(k, c, c.sizes[dim] == n + 1) for k, c in sorted(shown.items())]
    for _, item in sorted(items.items()):
        columns.append(column('', item.data))
        for m, mask in sorted(item.masks.items()):
            columns.append(column(m, mask if mask.ndim else mask.broadcast(sizes={dim: n})))
    got = [[c.text() for c in r.find('td')] for r in root.find('tr')]
    got = [r for r in got if r]
    want = [list(r) for r in zip(*columns, strict=True)]
    check('table-cells', got == want, got, want)
    head = [[(c.text(), int(c.attrs.get('colspan', 1))) for c in r.find('th')] for r in root.find('tr')]
    head = [r for r in head if r]
    check('table-header', len(head) == 1 + (len(items) > 1) and
          all(sum(k for _, k in r) == len(columns) for r in head), head, len(columns))
    if len(items) > 1:
        names = [t for t, _ in head[0]][bool(shown):]
        check('table-names', names == sorted(items), names, sorted(items))


# Drawings

def drawings(g):
    """make_svg draws a box for each element on the outside, and names every part."""
    da = gen_shown(g)
    kind = g.pick(['variable', 'array', 'dataset', 'slice'])
    x = da.data if kind == 'variable' else gen_table_of_arrays(g, da) if kind == 'dataset' else da
    if kind == 'slice':
        if g.boolean(0.5):
            x = gen_table_of_arrays(g, da)
        if not x.dims or 0 in x.shape:
            raise Discard
        x = x[g.pick(list(x.dims)), 0]
    g.note(show(x))
    g.nontrivial(da.size > 1)
    svg = drawn(x)
    if svg is None:
        raise Discard
    root = parsed('svg', svg, SVG_TAGS)
    titles = [n.text() for n in root.find('title')]
    if kind == 'variable':
        parts, elided = {None: x}, False
    else:
        parts = {('coord', k): c for k, c in x.coords.items()}
        if isinstance(x, sc.Dataset):
            parts.update({('data', k): v.data for k, v in x.items()})
        else:
            parts.update({('data', ''): x.data}, **{('mask ' + k): m for k, m in x.masks.items()})
        elided = sum(1 for p in parts.values() if p.ndim == 0) > 5
    if elided:
        return
    values = sum(1 for t in titles if t == 'values')
    variances = sum(1 for t in titles if t == 'variances')
    check('svg-parts', values == len(parts) and variances == sum(1 for p in parts.values() if p.variances is not None),
          titles, list(parts))
    if kind != 'variable':
        for name, p in parts.items():
            label = name[1] if isinstance(name, tuple) else name[5:]
            check('svg-title', any(t.startswith(f'{label}(dims=') and f'unit={p.unit}' in t and f'shape={p.shape}' in t
                                   for t in titles), label, titles)
    shown = [n.text().strip() for n in root.find('text')]
    for p in parts.values():
        for d in p.dims:
            check('svg-dims', d.strip() in shown, d, shown)
    if kind == 'variable':
        sizes = [1] * (3 - x.ndim) + [min(n, 12) for n in x.shape]
        boxes = sum(1 for z in range(sizes[0]) for y in range(sizes[1]) for k in range(sizes[2])
                    if z == sizes[0] - 1 or y == 0 or k == sizes[2] - 1)
        count = len(list(root.find('rect')))
        left, top, width, height = map(float, next(root.find('svg')).attrs['viewbox'].split())
        if 0 not in x.shape:
            check('svg-view', all(left <= float(r.attrs['x']) <= left + width - float(r.attrs['width']) - 0.29 and
                                  top + 0.29 <= float(r.attrs['y']) <= top + height - float(r.attrs['height']) + 1e-9
                                  for r in root.find('rect')), left, top, width, height)
        check('svg-boxes', count == boxes * (2 if x.variances is not None else 1), count, boxes)


# Taking apart

def parts(g):
    """collapse and slices return every slice under its own index."""
    da = gen_shown(g)
    if not da.dims:
        raise Discard
    x = gen_table_of_arrays(g, da) if g.boolean(0.3) else da
    dim = g.pick(list(x.dims))
    which = g.pick(['collapse', 'slices'])
    over = [d for d in x.dims if d != dim] if which == 'collapse' else [dim]
    g.note(f'{dim} {which} {show(x)}')
    g.nontrivial(x.ndim > 1 and da.size > 1)
    got = getattr(sc, which)(x, keep=dim) if which == 'collapse' else sc.slices(x, dim=dim)
    want = {}
    for where in indices({d: x.sizes[d] for d in over}):
        y = x
        for d, k in where.items():
            y = y[d, k]
        want['-'.join(f'{d}:{k}' for d, k in where.items())] = y
    check(which + '-keys', set(got) == set(want), list(got), list(want))
    for k, y in want.items():
        r = C57.same(k, y, got[k])
        check(which, r is None, r)


def near(g):
    """isnear is True if data and coords are close, False if not."""
    n = g.integer(1, 4)
    a = np.array([g.integer(-20, 20) * 0.5 for _ in range(n)])
    c = np.array([g.integer(-20, 20) * 0.5 for _ in range(n)])
    x = sc.DataArray(var(['x'], a, unit='m'), coords={'x': var(['x'], c, unit='s')})
    y = x.copy()
    what = g.pick(['nothing', 'data', 'coord', 'missing', 'nan'])
    k = g.draw(n - 1)
    d = g.pick([0.001, 0.01, 0.1])
    if what == 'data':
        y.data.values[k] += d
    elif what == 'coord':
        y.coords['x'].values[k] += d
    elif what == 'missing':
        y.coords['z'] = sc.scalar(1.0)
    elif what == 'nan':
        x.values[k] = y.values[k] = np.nan
    tolerance = g.pick([0.0005, 0.005, 0.05, 0.5])
    include, equal_nan = g.boolean(0.8), g.boolean()
    # the units of data and coords differ, so that only a relative tolerance fits both
    scale = abs(y.values[k]) if what == 'data' else abs(y.coords['x'].values[k])
    if abs(d - tolerance * scale) < 1e-9:
        raise Discard
    ok = {'nothing': True, 'data': not include or d <= tolerance * scale, 'coord': d <= tolerance * scale,
          'missing': False, 'nan': not include or equal_nan}[what]
    g.note(f'{what} {tolerance} {d} {show(x)}')
    g.nontrivial(n > 1)
    got = isnear(x, y, rtol=sc.scalar(tolerance), include_data=include, equal_nan=equal_nan)
    check('isnear', bool(got) == ok, got, ok)


def numbers(g):
    """value_to_string shows numbers with the requested precision."""
    g.nontrivial(True)
    p = g.pick([3, 3, 1, 5])
    x = g.pick([1, -1]) * g.integer(0, 10**6) * 10.0 ** g.integer(-12, 6)
    g.note(repr((x, p)))
    t = value_to_string(x, precision=p)
    error = abs(Decimal(t) - Decimal(x))
    big = abs(x) >= 10.0 ** (p + 1) or 0 < abs(x) <= 10.0 ** (-p - 1)
    most = Decimal(abs(x)) * Decimal(10) ** -p if big else Decimal(10) ** -p
    check('value-to-string', error <= most * Decimal('0.5000001'), x, p, t)
    check('value-to-string-length', len(t) <= 8 + p + 4, x, t)
    s = g.pick(HOSTILE) * g.integer(0, 20)
    t = value_to_string(s)
    check('value-to-string-text', t == s if len(s) <= 80 else len(t) == 80 and t == s[:77] + '...', s, t)
    n = g.integer(-10**9, 10**9)
    check('value-to-string-integer', value_to_string(n) == str(n), n)


LAWS = {'texts': (900, 20000, texts), 'formats': (1500, 30000, formats), 'compact': (1500, 30000, compact),
        'html': (700, 15000, html), 'group_html': (400, 10000, group_html), 'tables': (700, 15000, tables),
        'drawings': (700, 15000, drawings), 'parts': (700, 15000, parts), 'near': (700, 15000, near),
        'numbers': (2000, 50000, numbers)}

if __name__ == '__main__':
    main('C61', RULE, LAWS)
