"""C51: operations of a DataGroup act on each item that they concern, and only there."""
import copy
import operator
import sys

import stub
from pbt import Discard, check, main
from stub import DimensionError

dgm = stub.data_group()
DataGroup = dgm.DataGroup
cpp = sys.modules['scipp.core.cpp_classes']
Bins = sys.modules['scipp.core.bins'].Bins

RULE = ('a case counts if the group has at least two items of different dims or kinds, '
        'or a nested group')


class Item:
    """An item of a group: dims and how it was computed."""

    def __init__(self, sizes, term, binned=False):
        self.sizes, self.term, self._binned = dict(sizes), term, binned

    @property
    def dims(self):
        return tuple(self.sizes)

    @property
    def ndim(self):
        return len(self.sizes)

    @property
    def shape(self):
        return tuple(self.sizes.values())

    @property
    def bins(self):
        return make(Bins, {}, ('bins', self.term)) if self._binned else None

    def underlying_size(self):
        return 7

    def _derived(self, *term):
        return type(self)(self.sizes, term + (self.term,), self._binned)

    def __getitem__(self, key):
        return self._derived('getitem', freeze(key))

    def __invert__(self):
        return self._derived('invert')

    def __hash__(self):
        return hash(self.term)

    def same(self, other):
        return type(self) is type(other) and self.term == other.term

    def __copy__(self):
        return self

    def __deepcopy__(self, _):
        return self._derived('deepcopy')

    def __repr__(self):
        return f'{type(self).__name__}{list(self.sizes)}{"*" if self._binned else ""}<{self.term}>'


class Bytes:
    """Something like a numpy array."""
    nbytes = 5

    def __eq__(self, other):
        return isinstance(other, Bytes)

    def __deepcopy__(self, _):
        return self

    def __repr__(self):
        return 'Bytes'


METHODS = {  # methods of items applied to all items of a group
    'astype': [(('int64',), {}), (('float32',), {'copy': False}), (('int64',), {'copy': True})],
    'bin': [(({'x': 3},), {}), ((None,), {'y': 4})],
    'broadcast': [((), {'dims': ['x'], 'shape': [2], 'sizes': None}), ((), {'dims': None, 'shape': None, 'sizes': {'x': 2}})],
    'ceil': [((), {})], 'floor': [((), {})], 'round': [((), {})],
    'group': [(('a',), {}), (('a', 'b'), {})],
    'groupby': [(('a',), {'bins': None}), (('a',), {'bins': 'edges'})],
    'hist': [(({'x': 3},), {}), ((None,), {'y': 4})],
    'nanhist': [(({'x': 3},), {}), ((None,), {'y': 4})],
    'rebin': [(({'x': 'edges'},), {}), ((None,), {'y': 'edges'})],
    'rename': [(({'x': 'y'},), {}), ((None,), {'x': 'z'})],
    'rename_dims': [(({'x': 'y'},), {}), ((None,), {'x': 'z'})],
    'to': [((), {'unit': 'm'}), ((), {'unit': 'm', 'dtype': None, 'copy': True}), ((), {'unit': None, 'dtype': 'int', 'copy': False})],
    'transform_coords': [((['a'],), {'graph': {'a': 'b'}}), ((['a'],), {'graph': {'a': 'b'}, 'rename_dims': False, 'keep_aliases': True,
                                     'keep_intermediate': False, 'keep_inputs': True, 'quiet': False})],
}
REDUCTIONS = ['all', 'any', 'max', 'mean', 'median', 'min', 'nanmax', 'nanmean', 'nanmedian', 'nanmin', 'nansum',
              'sum', 'std', 'var', 'nanstd', 'nanvar', 'squeeze']
BINARY = ['eq', 'ne', 'gt', 'ge', 'lt', 'le', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
          'and_', 'or_', 'xor']
REFLECTED = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']


def freeze(x):
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(map(freeze, x))
    if isinstance(x, slice):
        return ('slice', freeze(x.start), freeze(x.stop), freeze(x.step))
    if isinstance(x, Item):
        return x.term
    return x


PARAMETERS = {'astype': ['type'], 'groupby': ['group'], 'transform_coords': ['targets'], 'flatten': ['dims'],
              'fold': ['dim'], 'transpose': ['dims']}
DEFAULTS = {'copy': True, 'rename_dims': True, 'keep_aliases': True, 'keep_intermediate': True,
            'keep_inputs': True, 'quiet': False}


def method(name):
    def f(self, *args, **kwargs):
        names = PARAMETERS.get(name, ['dim'] if name in REDUCTIONS else [])
        kwargs.update(zip(names, args))
        rest = tuple(a for a in args[len(names):] if a is not None)
        kwargs = {k: v for k, v in sorted(kwargs.items()) if v is not None and DEFAULTS.get(k) != v}
        if name in REDUCTIONS and 'dim' in kwargs:
            dim = kwargs['dim']
            kwargs['dim'] = (dim,) if isinstance(dim, str) else tuple(dim)
        if name == 'squeeze' and self.dims == ():
            return self
        return self._derived(name, freeze(rest), freeze(kwargs))
    return f


for _n in [*METHODS, *REDUCTIONS, 'flatten', 'fold', 'transpose']:
    setattr(Item, _n, method(_n))


def binary(name, reflected=False):
    def f(self, other):
        if isinstance(other, DataGroup):
            return NotImplemented
        return self._derived(name + ('.r' if reflected else ''), freeze(other))
    return f


for _n in BINARY:
    setattr(Item, f'__{_n.strip("_")}__', binary(_n))
for _n in REFLECTED:
    setattr(Item, f'__r{_n}__', binary(_n, True))

CLASSES = {}


def make(cls, *args):
    if cls not in CLASSES:
        CLASSES[cls] = type(cls.__name__, (cls, Item), {})
    return CLASSES[cls](*args)


def make_item(g, name, leaf=False):
    kinds = ['Variable', 'Variable', 'DataArray', 'DataArray', 'binned', 'binned', 'Dataset', 'object']
    kind = g.pick(kinds if leaf else kinds + ['group'])
    if kind == 'group':
        return make_group(g, name + '.', depth=1)
    if kind == 'object':
        return g.pick(['text', 3, None, (1, 2), Bytes()])
    dims = g.permutation(['x', 'y', 'z', ''])[:g.integer(0, 3)]
    sizes = {d: g.pick([2, 2, 2, 3, 1]) for d in dims}
    cls = {'Variable': cpp.Variable, 'Dataset': cpp.Dataset}.get(kind, cpp.DataArray)
    return make(cls, sizes, name, kind == 'binned')


def make_group(g, prefix='', depth=0):
    names = g.permutation(list('abcdef'))[:g.length(0, 4)]
    if g.boolean(0.3) and not depth:
        only = g.pick(['x', 'y'])
        return DataGroup({n: make(cpp.Variable, {only: g.pick([2, 2, 3])}, prefix + n) for n in names})
    return DataGroup({n: make_item(g, prefix + n, leaf=depth > 0) for n in names})


def interesting(g, dg):
    dims = {getattr(v, 'dims', None) for v in dg.values()}
    g.nontrivial(len(dg) > 1 and (len(dims) > 1 or len({type(v) for v in dg.values()}) > 1))


def same(a, b):
    if isinstance(a, DataGroup):
        return isinstance(b, DataGroup) and list(a.keys()) == list(b.keys()) and \
            all(same(a[k], b[k]) for k in a.keys())
    if isinstance(a, Item):
        return a.same(b)
    return type(a) is type(b) and a == b


def same_any_order(a, b):
    if isinstance(a, DataGroup):
        return isinstance(b, DataGroup) and set(a.keys()) == set(b.keys()) and \
            all(same_any_order(a[k], b[k]) for k in a.keys())
    return same(a, b)


def show(x):
    return '{' + ', '.join(f'{k}: {show(v)}' for k, v in x.items()) + '}' if isinstance(x, DataGroup) else repr(x)


def snapshot(dg):
    return DataGroup({k: snapshot(v) if isinstance(v, DataGroup) else v for k, v in dg.items()})


def expect(what, got, want, compare=same):
    check(what, compare(got, want), lambda: show(got), 'expected', lambda: show(want))


def raises(what, types, f):
    try:
        got = f()
    except types:
        return
    check(what, False, 'no error but', got)


def sizes_of(dg):
    """Union in order of appearance; None where sizes differ."""
    out = {}
    for v in dg.values():
        sizes = sizes_of(v) if isinstance(v, DataGroup) else v.sizes if isinstance(v, Item) else {}
        for d, n in sizes.items():
            out[d] = n if d not in out or out[d] == n else None
    return out


def law_mapping(g):
    """A group is a dict of its items with the union of their dims, through any history."""
    start = make_group(g)
    model = dict(start.items())
    if g.boolean():
        dg = DataGroup(model)
    else:
        dg = DataGroup(**model) if g.boolean() else DataGroup(list(model.items()))
    g.note(f'start {show(dg)}')
    for _ in range(g.length(1, 12)):
        op = g.pick(['set', 'set', 'del', 'pop', 'default', 'update', 'get', 'setdefault', 'copy', 'deepcopy', 'key',
                     'popitem', 'clear'])
        key = g.pick(list('abcdefgh'))
        value = make_item(g, f'{key}{len(g.text)}')
        g.note(f'{op} {key} {value if op in ("set", "update", "setdefault") else ""}')
        if op == 'set':
            dg[key] = value
            model[key] = value
        elif op == 'del':
            if key in model:
                del dg[key]
                del model[key]
            else:
                raises('del of missing key', KeyError, lambda: operator.delitem(dg, key))
        elif op == 'pop':
            if key in model:
                check('pop', dg.pop(key) is model.pop(key))
            else:
                raises('pop of missing key', KeyError, lambda: dg.pop(key))
        elif op == 'default':
            check('pop with default', dg.pop(key, 'nothing') is model.pop(key, 'nothing'))
        elif op == 'get':
            check('get', dg.get(key, 'nothing') is model.get(key, 'nothing'))
            if key not in model:
                raises('missing key', KeyError, lambda: dg[key])
        elif op == 'update':
            dg.update({key: value, 'z': 1})
            model.update({key: value, 'z': 1})
        elif op == 'setdefault':
            check('setdefault', dg.setdefault(key, value) is model.setdefault(key, value))
        elif op == 'popitem' and model:
            k, v = dg.popitem()
            check('popitem', model.pop(k) is v)
        elif op == 'clear' and g.boolean(0.2):
            dg.clear()
            model.clear()
        elif op in ('copy', 'deepcopy'):
            old, deep = dg, op == 'deepcopy'
            dg = g.pick([lambda: old.copy(deep=deep), lambda: copy.deepcopy(old) if deep else copy.copy(old)])()
            check('keys of copy', list(dg.keys()) == list(old.keys()) and isinstance(dg, DataGroup))
            for k in old.keys():
                if deep and isinstance(old[k], Item):
                    check('deep copy', dg[k].term == ('deepcopy', old[k].term), dg[k], old[k])
                elif deep and isinstance(old[k], DataGroup):
                    check('deep copy of group', dg[k] is not old[k])
                else:
                    check('shallow copy', dg[k] is old[k])
            old['extra'] = 1
            model = dict(dg.items())
        elif op == 'key':
            bad = g.pick([1, None, ('x', 0), b'a', 1.5])
            raises('key that is not a string', TypeError, lambda: operator.setitem(dg, bad, 1))
            raises('init with key that is not a string', ValueError, lambda: DataGroup({**model, bad: 1}))
        check('keys', list(dg) == list(model) and list(dg.keys()) == list(model) and len(dg) == len(model))
        check('items', all(v is model[k] for k, v in dg.items()) and all(map(operator.is_, dg.values(), model.values())))
        check('contains', (key in dg) == (key in model))
        sizes = sizes_of(dg)
        check('sizes', dg.sizes == sizes and tuple(dg.sizes) == tuple(sizes), dg.sizes, sizes)
        check('dims', dg.dims == tuple(sizes) and dg.shape == tuple(sizes.values()) and dg.ndim == len(sizes))
        check('size in memory', dg.underlying_size() == memory(dg), dg.underlying_size(), memory(dg))
        check('text', all(f'    {k}: ' in repr(dg) for k in model) and all(k in str(dg) for k in model), repr(dg))
    interesting(g, dg)


def memory(v):
    if isinstance(v, DataGroup):
        return DataGroup().underlying_size() + sum(map(memory, v.values()))
    return 7 if isinstance(v, Item) else v.nbytes if hasattr(v, 'nbytes') else v.__sizeof__()


def sliced(dg, dim, index):
    out = DataGroup()
    for k, v in dg.items():
        if isinstance(v, DataGroup):
            out[k] = sliced(v, dim, index) if dim in v.dims else v
        elif isinstance(v, Bins) or (isinstance(v, Item) and dim in v.dims):
            out[k] = v[dim, index]
        else:
            out[k] = v
    return out


def law_slice(g):
    """Indexing affects the items having the dim."""
    dg = make_group(g)
    g.note(show(dg))
    interesting(g, dg)
    before = snapshot(dg)
    dim = g.pick(['x', 'y', 'z', 'nope', ''])
    i = g.integer(-2, 2)
    index = g.pick([i, slice(i, g.pick([None, 1, 2])), slice(None, i), slice(None, None, 2), [0, 1], slice(None),
                    'label', slice('lo', 'hi')])
    kind = g.pick(['dim', 'dim', 'implicit', 'implicit', 'empty', 'boolean', 'bins'])
    g.note(f'{kind} {dim!r} {index}')
    if kind == 'dim':
        expect('slice', dg[dim, index], sliced(dg, dim, index))
    elif kind == 'implicit':
        if isinstance(index, str) or (isinstance(index, slice) and index.start == 'lo'):
            raise Discard()
        if len(sizes_of(dg)) == 1:
            expect('implicit slice', dg[index], sliced(dg, dg.dims[0], index))
        else:
            raises('implicit slice', DimensionError, lambda: dg[index])
    elif kind == 'bins':
        flat = DataGroup({k: v for k, v in dg.items() if isinstance(v, Item) and v.bins is not None})
        got = flat.bins[dim, index]
        want = DataGroup({k: v.bins[dim, index] for k, v in flat.items()})
        expect('slice of bins', got, want)
    else:
        flat = DataGroup({k: v for k, v in dg.items() if isinstance(v, Item)})
        key = () if kind == 'empty' else make(cpp.Variable, {'x': 2}, 'mask')
        expect(kind, flat[key], DataGroup({k: v[key] for k, v in flat.items()}))
    expect('input changed', dg, before)


def mapped(dg, f):
    return DataGroup({k: mapped(v, f) if isinstance(v, DataGroup) else f(v) for k, v in dg.items()})


def without_objects(dg):
    return DataGroup({k: without_objects(v) if isinstance(v, DataGroup) else v for k, v in dg.items()
                      if isinstance(v, (DataGroup, Item))})


def law_apply(g):
    """Methods and functions are applied to each item with the same arguments, recursively."""
    dg = without_objects(make_group(g))
    g.note(show(dg))
    interesting(g, dg)
    before = snapshot(dg)
    name = g.pick(list(METHODS) + ['invert', 'apply', 'overload', 'shape', 'shape', 'shape'])
    g.note(name)
    if name == 'invert':
        expect(name, ~dg, mapped(dg, operator.invert))
    elif name == 'apply':
        def f(v, a, b=2):
            return (v.term if isinstance(v, Item) else 'group', a, b)
        got = dg.apply(f, 1, b=3)
        check(name, list(got.items()) == [(k, f(v, 1, b=3)) for k, v in dg.items()], got)
    elif name == 'overload':
        def func(x, *args, **kwargs):
            return make(cpp.Variable, {}, ('func', x.term, args, freeze(kwargs)))
        over = dgm.data_group_overload(func)
        check('name of overload', over.__name__ == 'func')
        expect(name, over(dg, 1, 2, c=3), mapped(dg, lambda v: func(v, 1, 2, c=3)))
        for v in dg.values():
            if isinstance(v, Item):
                expect('function itself', over(v, 5), func(v, 5))
    elif name == 'shape':
        what = g.pick(['flatten', 'fold', 'transpose'])
        dim = g.pick(['x', 'y', 'z', 'nope', ''])
        if what != 'fold':
            dim = g.pick([dim, None, ['x', 'y'], ('z', ''), ['nope']])
        dims = [dim] if isinstance(dim, str) else dim

        def apply(v):
            if v.dims == () or not (dims is None or set(dims) & set(v.dims)):
                return v
            if what == 'flatten':
                return v.flatten(dim, to='w')
            if what == 'transpose':
                return v.transpose(dim)
            return v.fold(dim, dims=['a', 'b'], shape=[1, 2], sizes=None)
        g.note(f'{what} {dim!r}')
        args = {'flatten': {'dims': dim, 'to': 'w'}, 'transpose': {'dims': dim},
                'fold': {'dim': dim, 'dims': ['a', 'b'], 'shape': [1, 2]}}[what]
        nested = any(isinstance(v, DataGroup) for v in dg.values())
        got = getattr(dg, what)(**args)
        if nested and what == 'fold':  # the arguments a nested group passes on are not normalized
            raise Discard()
        expect(what, got, mapped(dg, apply))
    else:
        args, kwargs = g.pick(METHODS[name])
        g.note(f'{args} {kwargs}')
        expect(name, getattr(dg, name)(*args, **kwargs), mapped(dg, lambda v: getattr(v, name)(*args, **kwargs)))
    expect('input changed', dg, before)


def law_reduce(g):
    """Reductions reduce each item over those of the dims that it has, recursively."""
    dg = make_group(g)
    name = g.pick(REDUCTIONS)
    kwargs = {'ddof': g.integer(0, 1)} if 'std' in name or 'var' in name else {}
    dim = g.pick([None, 'x', 'y', '', 'nope', ('x', 'y'), ('y', 'x'), ('nope', 'x'), ('z',), ['x', 'z']])
    g.note(f'{name} {dim!r} of {show(dg)}')
    interesting(g, dg)
    before = snapshot(dg)

    def apply(v):
        if not isinstance(v, Item):
            return v
        binned = v.bins is not None and name != 'squeeze'
        if v.dims == () and not binned:
            return v
        if dim is None:
            return getattr(v, name)(**kwargs)
        if isinstance(dim, str):
            mine = dim if dim in v.dims else ()
        else:
            mine = tuple(d for d in dim if d in v.dims)
        if mine == ():
            if not binned:
                return v
            if v.dims != ():  # content of bins is reduced, see DESIGN.md about the other dims
                raise Discard()
            return getattr(v, name)(**kwargs)
        return getattr(v, name)(mine, **kwargs)

    want = mapped(dg, apply)
    got = getattr(dg, name)(dim, **kwargs) if g.boolean() or dim is not None else getattr(dg, name)(**kwargs)
    expect(name, got, want)
    if g.boolean() and name != 'squeeze':
        bins = DataGroup({k: v for k, v in dg.items() if isinstance(v, Item) and v.bins is not None})
        if not kwargs:
            expect('reduction of bins', getattr(bins.bins, name)(),
                   DataGroup({k: getattr(v.bins, name)() for k, v in bins.items()}))
        groups = DataGroup({k: make(g.pick([cpp.GroupByDataArray, cpp.GroupByDataset]), {}, k) for k in dg.keys()})
        if isinstance(dim, str):
            expect('reduction of groupby', getattr(groups, name)(dim, **kwargs),
                   DataGroup({k: getattr(v, name)(dim, **kwargs) for k, v in groups.items()}))
    expect('input changed', dg, before)


def nary(f, *args):
    dgs = [a for a in args if isinstance(a, DataGroup)]
    if not dgs:
        return f(*args)
    keys = [k for k in dgs[0].keys() if all(k in d for d in dgs)]
    return DataGroup({k: nary(f, *[a[k] if isinstance(a, DataGroup) else a for a in args]) for k in keys})


def only_items(dg):
    """Items and nested groups, under names that tell which."""
    out = DataGroup()
    for k, v in dg.items():
        if isinstance(v, DataGroup):
            out['group' + k] = only_items(v)
        elif isinstance(v, Item):
            out[k] = v
    return out


def law_nary(g):
    """Operations combine the items of equal name, of the names common to all groups."""
    a, b = only_items(make_group(g, 'l')), only_items(make_group(g, 'r'))
    scalar = g.pick([2, 1.5, make(cpp.Variable, {}, 's'), make(cpp.DataArray, {'x': 2}, 't')])
    g.note(f'{show(a)} and {show(b)} or {scalar}')
    g.nontrivial(len(set(a.keys()) & set(b.keys())) > 0 and set(a.keys()) != set(b.keys()))
    sa, sb = snapshot(a), snapshot(b)
    kind = g.pick(['groups', 'right', 'left', 'inplace', 'function', 'kwargs', 'list'])
    name = g.pick(BINARY)
    op = getattr(operator, name)
    g.note(f'{kind} {name}')
    if kind == 'groups':
        expect(kind, op(a, b), nary(op, a, b), same_any_order)
    elif kind == 'right':
        expect(kind, op(a, scalar), nary(op, a, scalar), same_any_order)
    elif kind == 'left':
        if name not in REFLECTED:
            raise Discard()
        expect(kind, op(scalar, a), nary(op, scalar, a), same_any_order)
    elif kind == 'inplace':
        if name not in REFLECTED:
            raise Discard()
        f = getattr(operator, 'i' + name)
        raises(kind, TypeError, lambda: f(a, g.pick([b, scalar])))
    elif kind == 'list':
        f = lambda items, *args, **kw: make(cpp.Variable, {}, ('cat', freeze(items), args, freeze(kw)))
        flat = [DataGroup({k: v for k, v in d.items() if isinstance(v, Item)}) for d in (a, b, a)][:g.integer(1, 3)]
        expect(kind, dgm.apply_to_items(f, flat, 'x', y=2), nary(lambda *i: f(list(i), 'x', y=2), *flat),
               same_any_order)
    else:
        flat = [DataGroup({k: v for k, v in d.items() if isinstance(v, Item)}) for d in (a, b)]
        f = lambda x, y, z=0: make(cpp.Variable, {}, ('f', freeze(x), freeze(y), freeze(z)))
        if kind == 'kwargs':
            expect(kind, dgm.data_group_nary(f, scalar, flat[0], z=flat[1]),
                   nary(lambda x, y, z: f(x, y, z), scalar, *flat), same_any_order)
        else:
            expect(kind, dgm.data_group_nary(f, *flat, z=scalar), nary(lambda x, y: f(x, y, scalar), *flat),
                   same_any_order)
    expect('input changed', a, sa)
    expect('input changed', b, sb)


LAWS = {'mapping': (20000, 400000, law_mapping), 'slice': (30000, 500000, law_slice),
        'apply': (30000, 500000, law_apply), 'reduce': (40000, 600000, law_reduce),
        'nary': (30000, 500000, law_nary)}

if __name__ == '__main__':
    main('C51', RULE, LAWS)
