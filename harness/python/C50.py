"""C50: transform_coords computes what the graph says, whatever its shape."""
import functools
from fractions import Fraction

import stub
from pbt import Discard, check, main
from stub import Binned, DataArray, Dataset, Variable

transform_coords = stub.transform_coords()

RULE = ('a case counts if at least two rules of the graph are needed and a coordinate is used by '
        'two of them or both event and dense coordinates are involved')


def make_function(name, inputs, outputs, calls, dense_only=()):
    """A function with arguments `inputs`, returning a term per output."""
    def body(args):
        calls.append((name, tuple(v.key() for v in args.values())))
        out = {}
        for o in outputs:
            used = args
            if o in dense_only:
                used = {k: v for k, v in args.items() if v.bins is None}
            dims = []
            for v in used.values():
                dims += [d for d in v.dims if d not in dims]
            events = any(v.layout for v in used.values())
            out[o] = Variable(dims, (name, o, tuple(v.term for v in used.values())),
                              'compact' if events else None)
        return out if len(outputs) > 1 else out[outputs[0]]

    scope = {'body': body}
    exec(f'def f({", ".join(inputs)}):\n    return body(dict({", ".join(f"{i}={i}" for i in inputs)}))', scope)
    scope['f'].__name__ = name
    return scope['f']


class Case:
    """Names a.. of inputs and outputs, a graph, an array, targets and options."""

    def __init__(self, g, events=True, extra_dims=True):
        names = g.permutation(['a', 'b', 'c', 'd', 'e', 'f', 'h', 'k', 'm', 'n', 'p', 'q', 'r', 's'])
        self.n_in = g.length(1, 4)
        self.inputs, rest = names[:self.n_in], names[self.n_in:]
        self.dims = g.subset(self.inputs, 0.7)
        if extra_dims:
            self.dims += g.subset(['y', 'z'], 0.3)
        self.layout = g.pick([None, None, 'compact', 'sliced']) if events else None
        self.dense, self.event = {}, {}
        for name in self.inputs:
            where = g.pick(['dense', 'event', 'both']) if self.layout else 'dense'
            if where != 'event':
                dims = g.subset(self.dims, 0.3)
                if name in self.dims and name not in dims and g.boolean(0.8):
                    dims.append(name)
                if g.boolean(0.1):
                    dims.append('gone')  # a coordinate of a slice, as for bin edges
                self.dense[name] = Variable(dims, name)
            if where != 'dense':
                self.event[name] = Variable(self.dims, name + '.event', self.layout)
        self.aligned = {(name, kind): g.boolean(0.8) for name in self.inputs for kind in ('dense', 'event')}
        # unrelated coordinates, never touched
        self.dense['other'] = Variable(self.dims[:1], 'other')
        self.aligned['other', 'dense'] = g.boolean()
        self.calls, self.rules, self.dense_only = [], [], set()
        known = list(self.inputs)
        n_rules = g.length(1, 7)
        while len(self.rules) < n_rules and rest:
            kind = g.pick(['f', 'f', 'f', 'alias', 'pair'])
            outs = tuple(rest.pop() for _ in range(2 if kind == 'pair' and len(rest) > 1 else 1))
            if kind == 'alias':
                args = (g.pick(known),)
            else:
                args = tuple(g.permutation(known)[:g.integer(1, min(3, len(known)))])
            if len(outs) > 1 and g.boolean(0.3):
                self.dense_only.add(g.pick(outs))
            self.rules.append((outs, args, kind == 'alias'))
            known += outs
        self.producer = {o: r for r in self.rules for o in r[0]}
        outputs = [o for r in self.rules for o in r[0]]
        self.targets = g.subset(outputs, 0.3) or [outputs[-1]]
        if g.boolean(0.15):
            self.targets.append(g.pick(self.inputs))
        self.options = {k: g.boolean(0.6) for k in ('keep_inputs', 'keep_intermediate', 'keep_aliases')}
        self.options['rename_dims'] = g.boolean(0.7)
        self.options['quiet'] = g.boolean()

    def note(self, g):
        g.note(f'dims {self.dims}, dense {self.dense}, event {self.event}, layout {self.layout}')
        g.note('graph ' + ', '.join(f'{",".join(o)} <- {"" if alias else "f"}({",".join(a)})'
                                    for o, a, alias in self.rules))
        g.note(f'targets {self.targets}, {self.options}')

    def array(self):
        data = None
        if self.layout:
            data = Binned(self.layout, {k: (v, self.aligned[k, 'event']) for k, v in self.event.items()})
        da = DataArray(data, self.dims)
        for k, v in self.dense.items():
            da.coords[k] = v
            da.coords.set_aligned(k, self.aligned[k, 'dense'])
        return da

    def graph(self, g):
        items = []
        for outs, args, alias in self.rules:
            key = outs if len(outs) > 1 else outs[0]
            if alias:
                items.append((key, args[0]))
                continue
            f = make_function('f_' + '_'.join(outs), args, outs, self.calls, self.dense_only)
            way = g.pick(['function', 'function', 'keys', 'partial'])
            if way == 'keys':
                h = make_function(f.__name__, [f'p{i}' for i in range(len(args))], outs, self.calls, self.dense_only)
                h.__transform_coords_input_keys__ = list(args)
                f = h
            elif way == 'partial':
                f = functools.partial(f)
                f.__name__ = 'partial'
            items.append((key, f))
        return dict(g.permutation(items))

    # ---- model
    def needed(self):
        """Rules needed for the targets; existing coords are never recomputed."""
        rules, inputs, todo, done = [], set(), list(self.targets), set()
        while todo:
            name = todo.pop()
            if name in done:
                continue
            done.add(name)
            if name in self.dense or name in self.event:
                inputs.add(name)
            else:
                rule = self.producer[name]
                if rule not in rules:
                    rules.append(rule)
                todo += rule[1]
        return [r for r in self.rules if r in rules], inputs

    def expect(self):
        rules, inputs = self.needed()
        value = {n: (self.dense.get(n), self.event.get(n)) for n in inputs}
        calls = []

        def call(rule, args):
            name = 'f_' + '_'.join(rule[0])
            calls.append((name, tuple(v.key() for v in args)))
            out = {}
            for o in rule[0]:
                used = [v for v in args if v.bins is None] if o in self.dense_only else args
                dims = []
                for v in used:
                    dims += [d for d in v.dims if d not in dims]
                out[o] = Variable(dims, (name, o, tuple(v.term for v in used)),
                                  'compact' if any(v.layout for v in used) else None)
            return out

        for rule in rules:
            outs, args, alias = rule
            if alias:
                value[outs[0]] = value[args[0]]
                continue
            given = [value[a] for a in args]
            event = dense = None
            if any(e for _, e in given):
                event = call(rule, [e or d for d, e in given])
            if all(d for d, _ in given):
                dense = call(rule, [d for d, _ in given])
            for o in outs:
                by_event = event[o] if event else None
                value[o] = (by_event, None) if by_event and by_event.bins is None else (None, by_event)
                if dense:
                    value[o] = (dense[o], value[o][1])
        consumed = {a for r in rules for a in r[1]}
        coords = {k: (v.key(), self.aligned[k, 'dense']) for k, v in self.dense.items() if k not in inputs}
        events = {k: (v.key(), self.aligned[k, 'event']) for k, v in self.event.items() if k not in inputs}
        aliases = {o for r in rules if r[2] for o in r[0]}
        unconsumed = set()
        for name, (d, e) in value.items():
            if name not in self.targets and name in consumed:
                option = 'keep_inputs' if name in inputs else \
                    'keep_aliases' if name in aliases else 'keep_intermediate'
                if not self.options[option]:
                    continue
            if name not in self.targets and name not in consumed:
                unconsumed.add(name)
            if d is not None:
                coords[name] = (d.key(), name in self.targets)
            if e is not None:
                events[name] = (e.key(), name in self.targets)
        return coords, events if self.layout else None, self.names(rules, inputs, value), calls, unconsumed

    def names(self, rules, inputs, value):
        """New names of dims after ADR 0011."""
        if not self.options['rename_dims']:
            return {}
        order = list(inputs) + [o for r in rules for o in r[0]]
        colored = [n for n in order if n in self.dims and
                   n in (value[n][0] if value[n][0] is not None else value[n][1]).dims]
        children = {n: [o for r in rules if n in r[1] for o in r[0]] for n in order}
        out = {}
        amount = {}
        for dim in colored:
            a = {n: Fraction(n == dim) for n in order}
            for n in order:
                for child in children[n]:
                    if child not in colored:
                        a[child] += a[n] / len(children[n])
            amount[dim] = a
        for dim in colored:
            for n in order:
                if amount[dim][n] == 1 and all(amount[o][n] != 1 for o in colored if o != dim):
                    out[dim] = n  # the last in topological order
        return {k: v for k, v in out.items() if k != v}

    def interesting(self, g):
        rules, _ = self.needed()
        used = [a for r in rules for a in r[1]]
        g.nontrivial(len(rules) > 1 and (len(set(used)) < len(used) or (self.layout and self.event)))


def renamed(key, names):
    dims, term, events = key
    return tuple(names.get(d, d) for d in dims), term, events


def check_result(out, case, g):
    coords, events, names, calls, unconsumed = case.expect()
    dims = tuple(names.get(d, d) for d in case.dims)
    got_dims, got_coords, got_events = out.state()
    g.note(f'names of dims: {names}')
    check('renaming of dims', got_dims == dims, got_dims, 'expected', dims)
    for what, got, want in (('coord', got_coords, coords), ('event coord', got_events, events)):
        if want is None:
            check(f'{what}s appeared', got is None)
            continue
        check(f'set of {what}s', set(got) == set(want), sorted(got), 'expected', sorted(want))
        for k in want:
            check(f'value of {what}', got[k][0] == renamed(want[k][0], names), k, got[k], 'expected', want[k])
            if k not in unconsumed:
                check(f'alignment of {what}', got[k][1] == want[k][1], k, got[k], 'expected', want[k])
    check('calls', sorted(map(repr, case.calls)) == sorted(map(repr, calls)), case.calls, 'expected', calls)


def valid(case):
    names = case.expect()[2]
    if len({names.get(d, d) for d in case.dims}) != len(case.dims):
        raise Discard()  # renaming onto an existing dim


def run(case, g, x, targets, graph):
    if len(targets) == 1 and g.boolean(0.3):
        return transform_coords(x, targets[0], graph=graph, **case.options)
    if set(targets) == {o for r in case.rules for o in r[0]} and all(isinstance(k, str) for k in graph) and g.boolean():
        return transform_coords(x, **graph, **case.options)
    return transform_coords(x, g.pick([list, tuple, set])(g.permutation(targets)), graph, **case.options)


def law_values(g):
    case = Case(g)
    valid(case)
    case.note(g)
    case.interesting(g)
    da = case.array()
    graph, before = case.graph(g), da.state()
    count = stub.logger.count
    out = run(case, g, da, case.targets, graph)
    check('input changed', da.state() == before, da.state(), before)
    check('quiet', (stub.logger.count == count) == case.options['quiet'])
    check_result(out, case, g)


def law_dataset(g):
    """A dataset is transformed item by item; one without items by its coords."""
    case = Case(g, events=g.boolean(0.5))
    valid(case)
    n = g.integer(0, 3) if not case.layout else g.integer(1, 3)
    if n == 0 and any('gone' in v.dims for v in case.dense.values()):
        raise Discard()
    case.note(g)
    g.note(f'{n} items')
    case.interesting(g)
    items = {f'item{i}': case.array() for i in range(n)}
    ds = Dataset(items)
    ds.coords, ds.dims = case.array().coords, case.dims
    before = {k: v.state() for k, v in items.items()}, ds.coords.state()
    out = run(case, g, ds, case.targets, case.graph(g))
    check('input changed', before == ({k: v.state() for k, v in items.items()}, ds.coords.state()))
    check('type', isinstance(out, Dataset) and sorted(out) == sorted(items))
    if n == 0:
        coords, _, names, _, _ = case.expect()
        got = out.coords.state()
        check('set of coords', set(got) == set(coords), sorted(got), sorted(coords))
        for k in coords:
            check('value of coord', got[k][0] == renamed(coords[k][0], names), got[k], coords[k])
    else:
        calls, case.calls = case.calls, None
        per_item = case.expect()[3]
        check('calls', sorted(map(repr, calls)) == sorted(map(repr, per_item * n)))
        for item in out.values():
            case.calls = per_item
            check_result(item, case, g)


def raises(what, types, f):
    try:
        f()
    except types:
        return
    check(what, False, 'no error')


def law_errors(g):
    """Graphs that cannot be evaluated are refused, nothing is changed."""
    case = Case(g)
    case.note(g)
    case.interesting(g)
    da = case.array()
    before, graph = da.state(), case.graph(g)
    rules, inputs = case.needed()
    kind = g.pick(['missing', 'target', 'cycle', 'duplicate', 'varargs', 'missing output', 'both',
                   'option', 'graph', 'single'])
    g.note(kind)
    if kind == 'missing':
        candidates = [n for n in inputs if any(n in r[1] for r in rules)]
        if not candidates:
            raise Discard()
        name = g.pick(candidates)
        da.coords.pop(name, None)
        if da.bins is not None:
            da.bins.coords.pop(name, None)
        before = da.state()
        raises(kind, KeyError, lambda: transform_coords(da, case.targets, graph, **case.options))
    elif kind == 'target':
        raises(kind, KeyError, lambda: transform_coords(da, [*case.targets, 'nowhere'], graph, **case.options))
    elif kind == 'cycle':
        outs, args, alias = g.pick(rules) if rules else (None, None, None)
        if outs is None:
            raise Discard()
        # a rule that depends on one of its dependents
        reach, grow = set(outs), True
        while grow:
            more = {o for r in rules if set(r[1]) & reach for o in r[0]} - reach
            reach |= more
            grow = bool(more)
        back = g.pick(sorted(reach))
        key = outs if len(outs) > 1 else outs[0]
        graph[key] = back if alias else make_function('cyclic', [back, *[a for a in args if a != back]], outs, [])
        raises(kind, ValueError, lambda: transform_coords(da, case.targets, graph, **case.options))
    elif kind == 'duplicate':
        outs = g.pick(case.rules)[0]
        graph[('fresh', outs[0])] = make_function('dup', [case.inputs[0]], ('fresh', outs[0]), [])
        raises(kind, ValueError, lambda: transform_coords(da, case.targets, dict(g.permutation(graph.items())),
                                                          **case.options))
    elif kind == 'varargs':
        f = g.pick([lambda *args: args[0], lambda **kwargs: 1])
        graph['fresh'] = f
        raises(kind, ValueError, lambda: transform_coords(da, 'fresh', graph, **case.options))
    elif kind in ('missing output', 'single'):
        candidates = [r for r in rules if not r[2]]
        if not candidates:
            raise Discard()
        outs, args, _ = g.pick(candidates)
        key = outs if len(outs) > 1 else outs[0]
        if kind == 'single' and len(outs) == 1:
            raise Discard()
        inner = make_function('f', args, outs, [])
        scope = {'inner': inner}
        wrong = 'inner(%s)' % ', '.join(args)
        wrong = f'next(iter({wrong}.values()))' if kind == 'single' else \
            (f'dict(list({wrong}.items())[1:])' if len(outs) > 1 else f'dict(wrong={wrong})')
        exec(f'def f({", ".join(args)}):\n    return {wrong}', scope)
        graph[key] = scope['f']
        raises(kind, TypeError, lambda: transform_coords(da, case.targets, graph, **case.options))
    elif kind == 'both':
        raises(kind, ValueError, lambda: transform_coords(da, case.targets, graph, fresh=lambda: 1))
        raises(kind, ValueError, lambda: transform_coords(da, graph=graph, fresh=lambda: 1))
    elif kind == 'option':
        name = g.pick(list(case.options))
        raises(kind, TypeError, lambda: transform_coords(da, **{name: lambda x: x}))
    elif kind == 'graph':
        raises(kind, TypeError, lambda: transform_coords(da, case.targets, list(graph.items())))
    check('input changed after error', da.state() == before, da.state(), before)


def law_compose(g):
    """Intermediate coords first, then the rest: the same coordinates as at once."""
    case = Case(g)
    case.options.update(rename_dims=False, keep_inputs=True, keep_intermediate=True, keep_aliases=True)
    rules, _ = case.needed()
    middle = g.subset([o for r in rules for o in r[0]], 0.4)
    if not middle:
        raise Discard()
    case.note(g)
    g.note(f'first {middle}')
    case.interesting(g)
    da, graph = case.array(), case.graph(g)
    once = transform_coords(da, case.targets, graph, **case.options)
    first = transform_coords(da, middle, graph, **case.options)
    twice = transform_coords(first, case.targets, graph, **case.options)
    one, two = once.state(), twice.state()
    check('coords of two steps', {k: v[0] for k, v in one[1].items()} == {k: v[0] for k, v in two[1].items()},
          one[1], two[1])
    if one[2] is not None:
        check('events of two steps', {k: v[0] for k, v in one[2].items()} == {k: v[0] for k, v in two[2].items()},
              one[2], two[2])
    for t in case.targets:
        check('alignment of targets', all(s[t][1] for s in (two[1], two[2] or {}) if t in s))


LAWS = {'values': (40000, 800000, law_values), 'dataset': (15000, 300000, law_dataset),
        'errors': (15000, 300000, law_errors), 'compose': (10000, 200000, law_compose)}

if __name__ == '__main__':
    main('C50', RULE, LAWS)
