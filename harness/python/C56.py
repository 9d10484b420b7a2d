# interpreter: _scipp
"""C56: coords, masks and datasets are dicts whose values always fit the data; a failed change changes nothing."""
from pbt import Discard, check, main
from real import ERRORS, arr, np, sc, show, var

RULE = 'a case counts if at least three changes were made'

REFUSED = (*ERRORS, sc.DimensionError, sc.DataArrayError, sc.DatasetError, sc.CoordError, sc.UnitError, sc.BinEdgeError)
NAMES = ['x', 'y', 'z', 'a', 'b', 'c']


class Counter:
    value = 0


def number():
    Counter.value += 1
    return Counter.value


def gen_value(g, sizes, kind, fits=None, edges=True):
    """(variable, whether it fits the sizes)."""
    dims = g.permutation(g.subset(sizes, 0.5))
    shape = {d: sizes[d] for d in dims}
    ok = True
    if fits is None:
        fits = g.boolean(0.85)
    if edges and dims and g.boolean(0.3):
        shape[dims[0]] += 1
    if not fits:
        ok = False
        if dims and g.boolean():
            shape[dims[0]] = sizes[dims[0]] + 2
        else:
            shape['other'] = 3
    n = int(np.prod(list(shape.values()), dtype=int))
    start = number()
    a = np.arange(float(start), float(start + n)).reshape(list(shape.values()))
    if kind == 'mask':
        return var(shape, a.astype(int) % 2 == 0, unit=None), ok
    return var(shape, a, unit='m'), ok


def dict_of(m):
    return {k: v.copy() for k, v in m.items()}


def same_variable(a, b):
    return sc.identical(a, b)


def compare_dict(label, d, model):
    """Every way to read a dict gives the same items in order."""
    check(f'{label}: keys', list(d) == list(model), list(d), list(model))
    check(f'{label}: len', len(d) == len(model))
    check(f'{label}: keys()', [*d.keys()] == list(model) and len(d.keys()) == len(model))
    check(f'{label}: values()', all(same_variable(x, y) for x, y in zip(d.values(), model.values(), strict=True)))
    items = list(d.items())
    check(f'{label}: items()', [k for k, _ in items] == list(model) and
          all(same_variable(v, model[k]) for k, v in items))
    for k in NAMES:
        check(f'{label}: contains', (k in d) == (k in model), k)
        got = d.get(k)
        check(f'{label}: get', (got is None) == (k not in model) and (got is None or same_variable(got, model[k])), k)
        if k in model:
            check(f'{label}: getitem', same_variable(d[k], model[k]), k)
        else:
            check(f'{label}: default', d.get(k, 5) == 5)
            try:
                d[k]
            except KeyError:
                pass
            else:
                check(f'{label}: missing key', False, k)
    check(f'{label}: other keys', 3 not in d and None not in d)


def gen_items(g, sizes, kind):
    items, ok = {}, True
    for k in g.subset(NAMES, 0.3):
        items[k], fine = gen_value(g, sizes, kind, fits=True if g.boolean(0.9) else None)
        ok = ok and fine
    return items, ok


class Model:
    def __init__(self, da):
        self.data, self.name = da.data.copy(), da.name
        self.coords, self.masks = dict_of(da.coords), dict_of(da.masks)

    def compare(self, da, label):
        check(f'{label}: data', same_variable(da.data, self.data))
        check(f'{label}: name', da.name == self.name)
        compare_dict(f'{label}: coords', da.coords, self.coords)
        compare_dict(f'{label}: masks', da.masks, self.masks)
        for k, c in self.coords.items():
            check(f'{label}: aligned', da.coords[k].aligned == c.aligned, k)
            for d in c.dims:
                check(f'{label}: is_edges', da.coords.is_edges(k, d) == (c.sizes[d] == self.data.sizes[d] + 1), k, d)

    def copy(self):
        out = Model.__new__(Model)
        out.data, out.name, out.coords, out.masks = self.data, self.name, dict(self.coords), dict(self.masks)
        return out


def draw_sizes(g):
    return {d: g.integer(1, 3) for d in g.permutation(['x', 'y', 'z'])[: g.draw(3)]}


def gen_array(g, sizes, coords=True):
    n = int(np.prod(list(sizes.values()), dtype=int))
    start = number()
    da = sc.DataArray(var(sizes, np.arange(float(start), float(start + n)).reshape(list(sizes.values())), unit='K'),
                      name=g.pick(['', 'name']))
    if coords:
        for k, v in gen_items(g, sizes, 'coord')[0].items():
            try:
                da.coords[k] = v
            except REFUSED:
                pass
    return da


def changes(g, sizes, d, model, kind):
    """One change of a dict; the model is changed alike."""
    op = g.pick(['set', 'set', 'set', 'del', 'pop', 'pop default', 'popitem', 'update', 'update', 'clear', 'aligned'])
    k = g.pick(NAMES)
    if op == 'set':
        v, ok = gen_value(g, sizes, kind)
        g.note(f'{kind} {k} = {v.sizes} ({ok})')
        try:
            d[k] = v
        except REFUSED as e:
            check('dict: set refused', not ok, k, repr(e))
        else:
            check('dict: set accepted', ok, k, v.sizes)
            model[k] = v
    elif op in ('del', 'pop'):
        g.note(f'{op} {kind} {k}')
        try:
            if op == 'del':
                del d[k]
            else:
                got = d.pop(k)
        except REFUSED as e:
            check('dict: removal refused', k not in model, k, repr(e))
            check('dict: type of error', isinstance(e, KeyError), repr(e))
        else:
            check('dict: removal of missing key', k in model, k)
            old = model.pop(k)
            check('dict: popped', op == 'del' or same_variable(got, old))
    elif op == 'pop default':
        g.note(f'{op} {kind} {k}')
        got = d.pop(k, 'default')
        if k in model:
            check('dict: popped', same_variable(got, model.pop(k)))
        else:
            check('dict: default', got == 'default')
    elif op == 'popitem':
        g.note(f'{op} {kind}')
        if model:
            key, got = d.popitem()
            want = list(model)[-1]
            check('dict: popitem', key == want and same_variable(got, model.pop(want)), key, want)
    elif op == 'update':
        items, ok = gen_items(g, sizes, kind)
        how = g.pick(['dict', 'pairs', 'kwargs', 'both'])
        g.note(f'update {kind} {how} { {n: v.sizes for n, v in items.items()} } ({ok})')
        half = dict(list(items.items())[1:])
        first = dict(list(items.items())[:1])
        try:
            if how == 'dict':
                d.update(items)
            elif how == 'pairs':
                d.update(list(items.items()))
            elif how == 'kwargs':
                d.update(**items)
            else:
                d.update(first, **half)
        except REFUSED as e:
            check('dict: update refused', not ok, repr(e))
            for n in items:  # some of the items may have been set
                if n in d:
                    check('dict: update', same_variable(d[n], items[n]) or (n in model and same_variable(d[n], model[n])))
            keys = list(d)
            check('dict: update lost items', [n for n in keys if n in model] == list(model))
            model.clear()
            model.update(dict_of(d))
        else:
            check('dict: update accepted', ok)
            model.update(items)
    elif op == 'clear':
        if not g.boolean(0.3):
            return
        g.note(f'clear {kind}')
        d.clear()
        model.clear()
    elif kind == 'coord':
        flag = g.boolean()
        g.note(f'set_aligned {k} {flag}')
        try:
            d.set_aligned(k, flag)
        except REFUSED:
            check('dict: set_aligned refused', k not in model)
        else:
            check('dict: set_aligned accepted', k in model)
            v = model[k].copy(deep=False)
            da = sc.DataArray(v, coords={'k': v})
            da.coords.set_aligned('k', flag)
            model[k] = da.coords['k']


def renamed(m, names):
    return m.rename_dims({a: b for a, b in names.items() if a in m.dims})


def array_history(g):
    """Any history of changes of coords and masks, with copies, renaming, assign and drop on the way."""
    sizes = draw_sizes(g)
    da = gen_array(g, sizes)
    g.note(show(da))
    model = Model(da)
    old = []
    steps = g.integer(3, 10)
    for _ in range(steps):
        op = g.pick(['coord', 'coord', 'mask', 'assign', 'drop', 'rename', 'rename_dims', 'copy', 'data'])
        if op == 'coord':
            changes(g, sizes, da.coords, model.coords, 'coord')
        elif op == 'mask':
            changes(g, sizes, da.masks, model.masks, 'mask')
        elif op == 'data':
            new, ok = gen_value(g, sizes, 'mask', edges=False)
            full = dict(sizes)
            if g.boolean(0.3) and full:
                full[g.pick(full)] += 1
            good = full == sizes
            w = sc.zeros(sizes=full) + float(number())
            g.note(f'data = {w.sizes}')
            try:
                da.data = w
            except REFUSED as e:
                check('array: data refused', not good, repr(e))
            else:
                check('array: data accepted', good)
                model.data = w
        elif op == 'assign':
            kind = g.pick(['coord', 'mask'])
            items, ok = gen_items(g, sizes, kind)
            f = da.assign_coords if kind == 'coord' else da.assign_masks
            g.note(f'assign {kind} { {n: v.sizes for n, v in items.items()} } ({ok})')
            before = model.copy()
            try:
                r = f(items) if g.boolean() else f(**items)
            except REFUSED as e:
                check('array: assign refused', not ok, repr(e))
            else:
                check('array: assign accepted', ok)
                before.compare(da, 'assign: input')
                old.append((da, before))
                da = r
                (model.coords if kind == 'coord' else model.masks).update(items)
        elif op == 'drop':
            kind = g.pick(['coord', 'mask'])
            d = model.coords if kind == 'coord' else model.masks
            names = g.subset(d, 0.5)
            if g.boolean(0.15):
                names.append('missing')
            f = da.drop_coords if kind == 'coord' else da.drop_masks
            g.note(f'drop {kind} {names}')
            before = model.copy()
            try:
                r = f(names[0]) if len(names) == 1 and g.boolean() else f(names)
            except REFUSED as e:
                check('array: drop refused', 'missing' in names, repr(e))
            else:
                check('array: drop accepted', 'missing' not in names)
                before.compare(da, 'drop: input')
                old.append((da, before))
                da = r
                for n in names:
                    del d[n]
        elif op in ('rename', 'rename_dims'):
            names = {}
            for n in g.subset(NAMES, 0.3):
                names[n] = g.pick(NAMES + ['new', 'next'])
            if op == 'rename_dims':
                names = {a: b for a, b in names.items() if a in sizes}
            g.note(f'{op} {names}')
            before = model.copy()
            taken = any(b in names or b in sizes or b in model.coords or any(b in c.dims for c in model.coords.values())
                        for b in names.values()) or len(set(names.values())) < len(names)
            foreign = any(a not in sizes for a in names)
            try:
                r = getattr(da, op)(names) if g.boolean() else getattr(da, op)(**names)
            except REFUSED as e:
                check('array: rename refused', taken or foreign, repr(e))
                before.compare(da, 'rename: failed')
                continue
            before.compare(da, 'rename: input')
            if taken:
                continue
            new = before.copy()
            new.data = renamed(before.data, names)
            new.coords = {k: renamed(c, names) for k, c in before.coords.items()}
            new.masks = {k: renamed(c, names) for k, c in before.masks.items()}
            for k, c in before.coords.items():  # the flag belongs to the coord
                check('array: aligned', r.coords[names.get(k, k) if op == 'rename' else k].aligned == c.aligned, k)
            if op == 'rename':
                for a, b in names.items():
                    if a in new.coords:
                        new.coords[b] = new.coords.pop(a)
            old.append((da, before))
            da, model = r, new
            sizes = dict(da.sizes)
            model.coords = {k: da.coords[k] if same_variable(da.coords[k], c) else c for k, c in model.coords.items()}
        else:
            deep = g.boolean()
            g.note(f'copy {deep}')
            r = da.copy(deep=deep)
            old.append((da, model.copy()))
            da = r
        model.compare(da, op)
    for before, m in old:  # whatever was done to its successors
        m.compare(before, 'earlier object')
    g.nontrivial(steps >= 3)


def init(g):
    """The constructors accept exactly what fits, and keep it."""
    sizes = draw_sizes(g)
    data = sc.zeros(sizes=sizes)
    coords, ok = gen_items(g, sizes, 'coord')
    masks, ok2 = gen_items(g, sizes, 'mask')
    g.note(f'{sizes} { {k: v.sizes for k, v in coords.items()} } { {k: v.sizes for k, v in masks.items()} } {ok} {ok2}')
    form = g.pick(['array', 'dataset', 'dataset of arrays'])
    try:
        if form == 'array':
            x = sc.DataArray(data, coords=coords if g.boolean() else list(coords.items()), masks=masks)
        elif form == 'dataset':
            x, ok2 = sc.Dataset({'a': data, 'b': data + 1.0}, coords=coords), True
        else:
            x = sc.Dataset({'a': sc.DataArray(data, coords=coords, masks=masks), 'b': data + 1.0})
    except REFUSED as e:
        check('init: refused', not (ok and ok2), form, repr(e))
        return
    check('init: accepted', ok and ok2, form)
    compare_dict('init', x.coords, {k: coords[k] for k in x.coords})
    check('init: coords', set(x.coords) == set(coords))
    if form == 'array':
        compare_dict('init: order', x.coords, coords)
        compare_dict('init: masks', x.masks, masks)
    elif form == 'dataset of arrays':
        compare_dict('init: masks', x['a'].masks, masks)
        check('init: masks of others', len(x['b'].masks) == 0)
    g.nontrivial(len(coords) + len(masks) > 1)


# --- datasets ----------------------------------------------------------------------------------

class SetModel:
    def __init__(self, sizes):
        self.sizes, self.coords, self.items = sizes, {}, {}

    def copy(self):
        out = SetModel(dict(self.sizes))
        out.coords, out.items = dict(self.coords), {k: (v, dict(m)) for k, (v, m) in self.items.items()}
        return out

    def compare(self, ds, label):
        check(f'{label}: keys', list(ds) == list(self.items) and [*ds.keys()] == list(self.items), list(ds))
        check(f'{label}: len', len(ds) == len(self.items))
        check(f'{label}: sizes', dict(ds.sizes) == self.sizes, ds.sizes, self.sizes)
        compare_dict(f'{label}: coords', ds.coords, {k: self.coords[k] for k in ds.coords if k in self.coords})
        check(f'{label}: coords', set(ds.coords) == set(self.coords), list(ds.coords), list(self.coords))
        for k, (v, masks) in self.items.items():
            item = ds[k]
            check(f'{label}: item', same_variable(item.data, v), k)
            check(f'{label}: name', item.name == k)
            check(f'{label}: coords of item', set(item.coords) == set(self.coords))
            for n, c in self.coords.items():
                check(f'{label}: coord of item', same_variable(item.coords[n], c), k, n)
            check(f'{label}: masks', set(item.masks) == set(masks))
            for n, m in masks.items():
                check(f'{label}: mask', same_variable(item.masks[n], m))
        values = list(ds.values())
        check(f'{label}: values()', [v.name for v in values] == list(self.items) and
              all(same_variable(v.data, w[0]) for v, w in zip(values, self.items.values(), strict=True)))
        check(f'{label}: items()', [k for k, _ in ds.items()] == list(self.items))
        for k in ('p', 'q', 'r', 's'):
            check(f'{label}: contains', (k in ds) == (k in self.items))
            check(f'{label}: get', (ds.get(k) is None) == (k not in self.items))
            if k not in self.items:
                try:
                    ds[k]
                except KeyError:
                    pass
                else:
                    check(f'{label}: missing key', False, k)
        check(f'{label}: other keys', 3 not in ds)


def gen_item(g, model):
    """(item, fits, coords it brings, masks, data)."""
    sizes = dict(model.sizes)
    ok = True
    if g.boolean(0.2):
        ok = False
        if sizes and g.boolean():
            sizes[g.pick(sizes)] += 1
        else:
            sizes['other'] = 2
    data = (sc.zeros(sizes=sizes) + float(number())).transpose(g.permutation(sizes)).copy()
    if g.boolean():
        return data, ok, {}, {}, data
    coords, masks = {}, {}
    for n in g.subset(NAMES, 0.25):
        if n in model.coords and g.boolean(0.7):
            c = model.coords[n]
            fine = ok
        else:
            c, fine = gen_value(g, model.sizes, 'coord', fits=True)
            if n in model.coords:
                if not model.coords[n].aligned:
                    continue  # which of two coords that differ in their flag is kept is not stated
                ok = False  # another coord of the same name
        coords[n] = c
    if g.boolean(0.4):
        masks['m'] = gen_value(g, model.sizes, 'mask', fits=True, edges=False)[0]
    try:
        item = sc.DataArray(data, coords=coords, masks=masks, name='own name')
    except REFUSED:
        raise Discard from None
    return item, ok, coords, masks, data


def dataset_history(g):
    """Any history of changes of a dataset: items share coords, all sizes agree, failures change nothing."""
    sizes = draw_sizes(g)
    model = SetModel(sizes)
    data = sc.zeros(sizes=sizes)
    model.items['p'] = (data, {})
    ds = sc.Dataset({'p': data})
    old = []
    steps = g.integer(3, 10)
    for _ in range(steps):
        op = g.pick(['set', 'set', 'set', 'del', 'pop', 'update', 'coord', 'coord', 'clear', 'drop', 'assign', 'copy',
                     'mask', 'merge'])
        k = g.pick(['p', 'q', 'r', 's'])
        if op == 'set':
            item, ok, coords, masks, data = gen_item(g, model)
            g.note(f'{k} = {show(item)} ({ok})')
            try:
                ds[k] = item
            except REFUSED as e:
                check('dataset: set refused', not ok or not model.items, repr(e))
            else:
                check('dataset: set accepted', ok or not model.items, k)
                if not ok:
                    return
                model.items[k] = (data, masks)
                model.coords |= {n: c for n, c in coords.items() if n not in model.coords}
        elif op in ('del', 'pop'):
            g.note(f'{op} {k}')
            try:
                if op == 'del':
                    del ds[k]
                else:
                    got = ds.pop(k)
            except REFUSED as e:
                check('dataset: removal refused', k not in model.items and isinstance(e, KeyError), repr(e))
            else:
                check('dataset: removal of missing key', k in model.items)
                v, masks = model.items.pop(k)
                if op == 'pop':
                    check('dataset: popped', same_variable(got.data, v) and set(got.masks) == set(masks) and
                          set(got.coords) == set(model.coords))
                check('dataset: default', ds.pop(k, 7) == 7)
                if not model.items:
                    return  # what the sizes are then is not stated
        elif op == 'update':
            items = {}
            for n in g.subset(['p', 'q', 'r'], 0.4):
                items[n] = sc.DataArray(sc.zeros(sizes=model.sizes) + float(number()))
            g.note(f'update {list(items)}')
            ds.update(items) if g.boolean() else ds.update(**items)
            for n, item in items.items():
                model.items[n] = (item.data, {})
        elif op == 'coord':
            changes(g, model.sizes, ds.coords, model.coords, 'coord')
        elif op == 'clear':
            if not g.boolean(0.2):
                continue
            g.note('clear')
            ds.clear()
            check('dataset: clear', len(ds) == 0 and set(ds.coords) == set(model.coords))
            return
        elif op == 'drop':
            names = g.subset(model.coords, 0.5)
            g.note(f'drop {names}')
            r = ds.drop_coords(names[0]) if len(names) == 1 and g.boolean() else ds.drop_coords(names)
            model.compare(ds, 'drop: input')
            old.append((ds, model.copy()))
            ds = r
            for n in names:
                del model.coords[n]
        elif op == 'assign':
            items, ok = gen_items(g, model.sizes, 'coord')
            g.note(f'assign { {n: v.sizes for n, v in items.items()} } ({ok})')
            try:
                r = ds.assign_coords(items) if g.boolean() else ds.assign_coords(**items)
            except REFUSED as e:
                check('dataset: assign refused', not ok, repr(e))
                model.compare(ds, 'assign: failed')
            else:
                check('dataset: assign accepted', ok)
                model.compare(ds, 'assign: input')
                old.append((ds, model.copy()))
                ds = r
                model.coords |= items
        elif op == 'mask':
            if k in model.items:
                m, ok = gen_value(g, model.sizes, 'mask', fits=True, edges=False)
                g.note(f'mask of {k}')
                ds[k].masks['n'] = m
                model.items[k][1]['n'] = m
        elif op == 'copy':
            deep = g.boolean()
            g.note(f'copy {deep}')
            old.append((ds, model.copy()))
            ds = ds.copy(deep=deep)
        else:
            other = {'t': sc.DataArray(sc.zeros(sizes=model.sizes) + float(number()))}
            clash = g.boolean(0.2)
            if clash:
                first = next(iter(model.items))
                other[first] = sc.DataArray(sc.zeros(sizes=model.sizes) + float(number()))
            elif g.boolean():
                first = next(iter(model.items))
                other[first] = ds[first]
            b = sc.Dataset(other)
            g.note(f'merge with {list(other)} {clash}')
            try:
                r = sc.merge(ds, b)
            except REFUSED as e:
                check('dataset: merge refused', clash or 't' in model.items, repr(e))
            else:
                check('dataset: merge accepted', not clash)
                if 't' in model.items:
                    check('dataset: merge of different items', False)
                check('dataset: merge', set(r) == set(model.items) | set(other))
                for n in model.items:
                    check('dataset: merge', sc.identical(r[n].data, model.items[n][0]))
                check('dataset: merge', sc.identical(r['t'].data, other['t'].data))
        model.compare(ds, op)
    for before, m in old:
        m.compare(before, 'earlier object')
    g.nontrivial(steps >= 3)


def sharing(g):
    """Coords, masks and data are shared with what was put in, as long as nobody copies; items of a dataset too."""
    sizes = {d: g.integer(1, 3) for d in g.permutation(['x', 'y'])[: g.integer(1, 2)]}
    data = sc.zeros(sizes=sizes)
    coord, _ = gen_value(g, sizes, 'coord', fits=True)
    mask, _ = gen_value(g, sizes, 'mask', fits=True, edges=False)
    if coord.ndim == 0 or mask.ndim == 0:
        raise Discard
    da = sc.DataArray(data, coords={'c': coord}, masks={'m': mask})
    form = g.pick(['array', 'shallow', 'dataset', 'assign', 'drop', 'rename', 'slice'])
    g.note(f'{form} {sizes} {coord.sizes} {mask.sizes}')
    g.nontrivial(data.size > 1)
    x = {'array': lambda: da, 'shallow': lambda: da.copy(deep=False), 'dataset': lambda: sc.Dataset({'i': da})['i'],
         'assign': lambda: da.assign_coords(other=coord), 'drop': lambda: da.assign_masks(o=mask).drop_masks('o'),
         'rename': lambda: da.rename_dims({next(iter(sizes)): 'new'}),
         'slice': lambda: da[next(iter(sizes)), 0:]}[form]()
    for label, inner, outer in (('data', data, x.data), ('coord', coord, x.coords['c']), ('mask', mask, x.masks['m'])):
        check(f'sharing: {label}', np.shares_memory(inner.values, outer.values), form)
    y = x.copy()
    for label, inner, outer in (('data', data, y.data), ('coord', coord, y.coords['c']), ('mask', mask, y.masks['m'])):
        check(f'sharing: copy of {label}', not np.shares_memory(inner.values, outer.values), form)
    data.values[...] = 17.0
    check('sharing: written', np.all(arr(x.data) == 17.0) and not np.any(arr(y.data) == 17.0))
    if form == 'slice':  # a slice does not let its dicts be changed
        for d, v in ((x.coords, coord), (x.masks, mask)):
            try:
                d['fresh'] = v
            except REFUSED:
                pass
            else:
                check('sharing: dict of a slice accepted', False)
            check('sharing: dict of a slice', 'fresh' not in d and len(d) == 1)
        check('sharing: dict of a slice', list(da.coords) == ['c'])


def binned(g):
    """Renaming binned data renames coords of events as well, and leaves the input as it is."""
    n = g.integer(1, 8)
    table = sc.DataArray(sc.ones(sizes={'row': n}), coords={k: sc.arange('row', float(n)) for k in ('x', 'y', 't')})
    da = table.bin(x=g.integer(1, 3))
    if g.boolean():
        da = da.bin(y=g.integer(1, 2))
    names = {a: 'n' + a for a in g.subset(['x', 'y', 't'], 0.5) if a in da.dims or a in da.coords or a == 't'}
    names = {a: b for a, b in names.items() if a in da.dims}
    g.note(f'{names}\n{show(da)}')
    g.nontrivial(True)
    before = da.copy()
    r = da.rename(names)
    check('binned: input changed', sc.identical(da, before), lambda: show(da))
    check('binned: dims', r.dims == tuple(names.get(d, d) for d in da.dims))
    check('binned: coords', set(r.coords) == {names.get(k, k) for k in da.coords})
    check('binned: event coords', set(r.bins.coords) == {names.get(k, k) for k in da.bins.coords}, list(r.bins.coords))
    for k in da.bins.coords:
        a, b = da.bins.concat().value.coords[k], r.bins.concat().value.coords[names.get(k, k)]
        check('binned: events', np.array_equal(a.values, b.values))


LAWS = {
    'array_history': (2500, 80000, array_history),
    'init': (1500, 30000, init),
    'dataset_history': (2500, 80000, dataset_history),
    'sharing': (600, 10000, sharing),
    'binned': (300, 6000, binned),
}

if __name__ == '__main__':
    main('C56', RULE, LAWS)
