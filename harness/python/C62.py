# interpreter: _scipp
"""C62: functions of one's own, reductions of lists, aliases of units and constants."""
import ctypes
import inspect
import subprocess
import sys
import tempfile
import types

import scipp.constants
import scipy.constants
from C58 import layout
from pbt import Discard, check, main
from real import ERRORS, arr, at, close, content, indices, np, sc, show, var

RULE = 'a case counts if at least two elements, or two operations, were involved'

REFUSED = (*ERRORS, sc.DTypeError, sc.DimensionError, sc.UnitError, sc.VariancesError, sc.CoordError)


FUNCTIONS = {
    1: [(lambda a: a * a, 'a*a'), (lambda a: a, 'a')],
    2: [(lambda a, b: a * b, 'a*b'), (lambda a, b: a / b, 'a/b'), (lambda a, b: a * b * b, 'a*b*b')],
    3: [(lambda a, b, c: a * b + c, 'a*b+c'), (lambda a, b, c: a / b * c, 'a/b*c')],
    4: [(lambda a, b, c, d: a * b + c * d, 'a*b+c*d'), (lambda a, b, c, d: a * d / (b * c), 'a*d/(b*c)')],
}


def stand_in_for_numba():
    """numba.cfunc, as far as scipp uses it: something with the address of a C function.

    A callback into Python would not do, for the functions may be run by other threads.
    """
    code, names = [], {}
    for count, functions in FUNCTIONS.items():
        for k, (f, text) in enumerate(functions):
            names[f] = f'f{count}_{k}'
            code.append(f'double {names[f]}({", ".join("double " + x for x in "abcd"[:count])}) {{ return {text}; }}')
    with tempfile.TemporaryDirectory() as folder:
        with open(f'{folder}/f.c', 'w') as out:
            out.write('\n'.join(code) + '\n')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-ffp-contract=off', '-o', f'{folder}/f.so', f'{folder}/f.c'],
                       check=True)
        library = ctypes.CDLL(f'{folder}/f.so')

    def cfunc(signature):
        def compiled(f):
            assert signature.count('double') == len(inspect.signature(f).parameters) + 1, signature
            return types.SimpleNamespace(address=ctypes.cast(getattr(library, names[f]), ctypes.c_void_p).value)

        return compiled

    numba = types.ModuleType('numba')
    numba.cfunc = cfunc
    sys.modules['numba'] = numba


stand_in_for_numba()


def elementwise(g):
    """elemwise_func(f)(*args) is f of each element, with dims matched by name, and of the units."""
    count = g.integer(1, 4)
    f, text = g.pick(FUNCTIONS[count])
    sizes = {d: g.integer(1, 4) for d in g.permutation(['x', 'y', 'z'])[:g.draw(3)]}
    if sizes and g.boolean(0.1):
        sizes[g.pick(list(sizes))] = 0
    units = [g.pick(['m', 's', 'one', 'kg']) for _ in range(count)]
    if '+' in text:
        units[2:] = units[:2] if count == 4 else [sc.Unit(units[0]) * sc.Unit(units[1])]
    bad_unit = '+' in text and g.boolean(0.1)
    if bad_unit:
        units[-1] = 'K'
    convert = g.boolean(0.3)
    args = []
    for k in range(count):
        s = {d: sizes[d] for d in g.permutation(g.subset(list(sizes), 0.7))}
        n = int(np.prod(list(s.values()), dtype=int))
        a = np.array([g.integer(2, 9) * 0.5 for _ in range(n)]).reshape(list(s.values()))
        dtype = g.pick(['float32', 'int64', 'float64']) if convert else 'float64'
        args.append(layout(g, var(s, a.astype(dtype), unit=units[k])))
    given_unit = g.boolean(0.3)
    wrong = g.pick([None, None, None, None, 'dtype', 'variances', 'size'])
    own = (lambda *u: sc.Unit('kg')) if given_unit else None
    g.note(f'{text} {convert} {wrong} {[show(a) for a in args]}')
    if g.boolean():
        func = sc.elemwise_func(f, unit_func=own, auto_convert_dtypes=convert)
    else:
        func = sc.elemwise_func(unit_func=own, auto_convert_dtypes=convert)(f)
    if wrong == 'dtype' and not convert:
        args[0] = args[0].to(dtype='int64')
    elif wrong == 'variances' and args[0].dtype == 'float64':
        args[0] = args[0].copy()
        args[0].variances = np.abs(arr(args[0]))
    elif wrong == 'size' and count > 1 and args[0].dims and args[0].shape[0] > 1:
        bad = args[0][args[0].dims[0], 1:]
        if args[0].dims[0] not in args[1].dims:
            return
        args[0] = bad
    else:
        wrong = None
    before = [a.copy() for a in args]
    try:
        out = func(*args)
    except REFUSED as e:
        check('elementwise-refused', wrong or (bad_unit and not given_unit), wrong, repr(e))
        check('elementwise-refused-intact', all(sc.identical(a, b) for a, b in zip(before, args, strict=True)))
        return
    check('elementwise-accepted', not wrong and not (bad_unit and not given_unit), wrong, show(out))
    check('elementwise-argument-changed', all(sc.identical(a, b) for a, b in zip(before, args, strict=True)))
    dims = {d for a in args for d in a.dims}
    check('elementwise-dims', dict(out.sizes) == {d: sizes[d] for d in out.dims} and set(out.dims) == dims, out.sizes)
    check('elementwise-dtype', str(out.dtype) == 'float64' and out.variances is None, show(out))
    unit = sc.Unit('kg') if given_unit else f(*[a.unit for a in args])
    check('elementwise-unit', out.unit == unit, out.unit, unit)
    g.nontrivial(out.size > 1)
    for where in indices(dict(out.sizes)):
        want = f(*[float(at(a, where)) for a in args])
        check('elementwise-value', close(at(out, where), want), where, at(out, where), want)


OPS = {'sum': np.sum, 'mean': np.mean, 'min': np.min, 'max': np.max, 'nansum': np.nansum, 'nanmean': np.nanmean,
       'nanmin': np.nanmin, 'nanmax': np.nanmax, 'all': np.all, 'any': np.any}


def reduce_list(g):
    """reduce(list).op() is op of the elements of all items, leaving out those masked."""
    op = g.pick(list(OPS))
    n = g.integer(1, 4)
    sizes = {d: g.integer(1, 3) for d in g.permutation(['x', 'y'])[:g.draw(2)]}
    shape = list(sizes.values())
    volume = int(np.prod(shape, dtype=int))
    arrays = g.boolean(0.6)
    masked = arrays and g.boolean(0.6)
    same_mask = g.boolean(0.3)
    items = []
    for k in range(n):
        if op in ('all', 'any'):
            v = var(sizes, np.array([g.boolean(0.7) for _ in range(volume)], dtype=bool).reshape(shape), unit=None)
        else:
            a = np.array([g.integer(-9, 9) * 0.5 for _ in range(volume)]).reshape(shape)
            if g.boolean(0.3) and volume:
                a.flat[g.draw(volume - 1)] = np.nan
            v = var(sizes, a, unit='m')
        v = layout(g, v)
        if arrays:
            v = sc.DataArray(v)
            if sizes:
                d = g.pick(list(sizes)) if k == 0 else list(items[0].coords)[0]
                v.coords[d] = sc.arange(d, sizes[d], unit='s')
            if masked and sizes:
                if same_mask and k:
                    v.masks['m'] = items[0].masks['m'].copy()
                else:
                    v.masks['m'] = var(sizes, np.array([g.boolean(0.3) for _ in range(volume)], dtype=bool).reshape(shape),
                                       unit=None)
        items.append(v)
    g.note(f'{op} {[show(v) for v in items]}')
    g.nontrivial(n > 1)
    before = [v.copy() for v in items]
    given = g.pick([list, tuple, iter])(items)
    try:
        out = getattr(sc.reduce(given), op)()
    except REFUSED as e:
        check('reduce-refused', False, op, repr(e))
    check('reduce-argument-changed', all(sc.identical(a, b, equal_nan=True) for a, b in zip(before, items, strict=True)))
    check('reduce-dims', dict(out.sizes) == sizes, out.sizes, sizes)
    if arrays and sizes:
        d = next(iter(items[0].coords))
        check('reduce-coord', sc.identical(out.coords[d], items[0].coords[d]), show(out))
    data = out.data if arrays else out
    check('reduce-unit', data.unit == items[0].unit, data.unit)
    used = masked and bool(sizes)
    # A mask that is the same in all items stays a mask, others are applied
    kept = used and all(sc.identical(v.masks['m'], items[0].masks['m']) for v in items)
    if arrays:
        check('reduce-masks', sorted(out.masks) == (['m'] if kept else []), list(out.masks))
    for where in indices(sizes):
        e = [at(v.data if arrays else v, where) for v in items
             if not (used and not kept and bool(at(v.masks['m'], where)))]
        if kept and bool(at(out.masks['m'], where)):
            check('reduce-mask', bool(at(items[0].masks['m'], where)), where)
            continue
        if not e and op not in ('sum', 'nansum', 'all', 'any', 'mean', 'nanmean'):
            continue
        if op in ('min', 'max') and np.isnan(np.array(e, dtype=float)).any():
            continue
        if op in ('nanmin', 'nanmax') and np.isnan(np.array(e, dtype=float)).all():
            continue
        with np.errstate(all='ignore'):
            want = OPS[op](np.array(e)) if e else {'sum': 0.0, 'nansum': 0.0, 'all': True, 'any': False}.get(op, np.nan)
        check('reduce-value', close(at(data, where), want), op, where, at(data, where), want)


def reduce_bins(g):
    """reduce(list).bins.concat() has the events of all items, bin by bin, in the order of the items."""
    n = g.integer(1, 3)
    sizes = {d: g.integer(1, 3) for d in g.permutation(['x', 'y'])[:g.draw(2)]}
    shape = list(sizes.values())
    volume = int(np.prod(shape, dtype=int))
    items, at_id = [], 0
    for _ in range(n):
        cuts = [0]
        for _ in range(volume):
            cuts.append(cuts[-1] + g.integer(0, 3))
        ids = np.arange(at_id, at_id + cuts[-1])
        at_id += cuts[-1]
        table = sc.DataArray(sc.array(dims=['event'], values=ids * 0.5, unit='m'),
                             coords={'id': sc.array(dims=['event'], values=ids, unit=None)})
        order = g.permutation(range(volume))
        begin, end = (np.zeros(volume, dtype='int64') for _ in range(2))
        for k, place in enumerate(order):
            begin[place], end[place] = cuts[k], cuts[k + 1]
        items.append(sc.DataArray(sc.bins(data=table, dim='event', begin=var(sizes, begin.reshape(shape), unit=None),
                                          end=var(sizes, end.reshape(shape), unit=None))))
    g.note(str([show(v) for v in items]))
    g.nontrivial(n > 1 and at_id > 1)
    before = [v.copy() for v in items]
    try:
        out = sc.reduce(items).bins.concat()
    except REFUSED as e:
        check('reduce-bins-refused', False, repr(e))
    check('reduce-bins-argument-changed', all(sc.identical(a, b) for a, b in zip(before, items, strict=True)))
    check('reduce-bins-dims', dict(out.sizes) == sizes, out.sizes)
    for where in indices(sizes):
        want = [i for v in items for i in content(v, where).coords['id'].values.tolist()]
        t = content(out, where)
        check('reduce-bins', t.coords['id'].values.tolist() == want and t.values.tolist() == [i * 0.5 for i in want],
              where, t.coords['id'].values, want)


class Left(Exception):
    pass


NAMES = ['speed', 'clucks', 'dogyear', 'wobble', 'fortnightly']
TARGETS = ['m/s', '19.3*m*A', '4492800*s', 'km', '7*K', 'kg*m/s']


def aliases(g):
    """The table of aliases behaves as a dict, and units are written and read with what it holds."""
    table = sc.units.aliases
    table.clear()
    model = {}

    def agrees():
        got = dict(table.items())
        check('aliases', got == model and set(table) == set(model) and list(table.keys()) == list(got), got, model)
        for name, unit in model.items():
            check('alias-read', sc.Unit(name) == unit, name, sc.Unit(name), unit)
            check('alias-written', str(unit) == name, name, str(unit))
        for name in NAMES:
            if name not in model:
                try:
                    check('alias-left', False, name, sc.Unit(name))
                except sc.UnitError:
                    pass
        for t in TARGETS:
            u = sc.Unit(t)
            check('alias-kept', u in model.values() or str(u) not in NAMES, t, str(u))

    def define(depth):
        name, text = g.pick(NAMES), g.pick(TARGETS)
        unit = sc.Unit(text)
        how = g.pick(['text', 'unit', 'variable'])
        given = text if how == 'text' else unit if how == 'unit' else sc.scalar(1.0, unit=unit)
        g.note('  ' * depth + f'{name} = {given}')
        clash = unit in model.values() and model.get(name) != unit
        if g.boolean(0.1):
            for bad, kind in ((sc.scalar(1.0, variance=1.0, unit=unit), sc.VariancesError),
                              (sc.scalar(1.0, unit=None), sc.UnitError)):
                try:
                    table[name] = bad
                    check('alias-refused', False, show(bad))
                except kind:
                    pass
        try:
            table[name] = given
            check('alias-accepted', not clash, name, text)
            model[name] = unit
        except ValueError:
            check('alias-refused', clash, name, text)

    def step(depth):
        what = g.pick(['define', 'define', 'define', 'delete', 'clear', 'scope', 'scope'])
        if what == 'define':
            define(depth)
        elif what == 'clear' and g.boolean(0.3):
            g.note('  ' * depth + 'clear')
            table.clear()
            model.clear()
        elif what == 'delete':
            name = g.pick(NAMES)
            g.note('  ' * depth + f'del {name}')
            try:
                del table[name]
                check('alias-deleted', name in model, name)
                del model[name]
            except KeyError:
                check('alias-not-deleted', name not in model, name)
        elif what == 'scope' and depth < 2:
            scope(depth)
        agrees()

    def scope(depth):
        free = [t for t in TARGETS if sc.Unit(t) not in model.values()]
        names = g.subset(NAMES, 0.3)
        texts = g.permutation(free)[:len(names)]
        given = dict(zip(names, texts, strict=False))
        leave = g.boolean(0.4)
        clash = None
        if g.boolean(0.15) and model:
            other = g.pick(list(model))
            name = g.pick([n for n in NAMES if n != other])
            if other not in given:
                given.pop(name, None)
                given[name] = str(model[other])
                clash = name
        g.note('  ' * depth + f'with {given}' + (' left by an exception' if leave else ''))
        previous = {n: u for n, u in model.items() if n in given}
        outer = dict(model)
        try:
            with table.scoped(**given):
                check('scope-accepted', clash is None, given)
                model.update({n: sc.Unit(t) for n, t in given.items()})
                agrees()
                for _ in range(g.draw(2)):
                    # What is defined inside must not make it impossible to restore what was there before
                    name, text = g.pick(NAMES), g.pick(TARGETS)
                    if sc.Unit(text) in [*model.values(), *previous.values()]:
                        continue
                    g.note('  ' * depth + f'  {name} = {text}')
                    table[name] = text
                    model[name] = sc.Unit(text)
                    agrees()
                if leave:
                    raise Left
        except Left:
            pass
        except ValueError:
            check('scope-refused', clash is not None, given)
            model.clear()
            model.update(outer)
            return
        for n in given:
            del model[n]
        model.update(previous)

    try:
        for _ in range(g.integer(1, 6)):
            step(0)
    finally:
        table.clear()
    g.nontrivial(len(model) > 0)


NAMED = {
    'c': 'speed of light in vacuum', 'speed_of_light': 'speed of light in vacuum',
    'mu_0': 'vacuum mag. permeability', 'epsilon_0': 'vacuum electric permittivity', 'h': 'Planck constant',
    'Planck': 'Planck constant', 'G': 'Newtonian constant of gravitation',
    'gravitational_constant': 'Newtonian constant of gravitation', 'g': 'standard acceleration of gravity',
    'e': 'elementary charge', 'elementary_charge': 'elementary charge', 'R': 'molar gas constant',
    'gas_constant': 'molar gas constant', 'alpha': 'fine-structure constant', 'fine_structure': 'fine-structure constant',
    'N_A': 'Avogadro constant', 'Avogadro': 'Avogadro constant', 'k': 'Boltzmann constant',
    'Boltzmann': 'Boltzmann constant', 'sigma': 'Stefan-Boltzmann constant', 'Stefan_Boltzmann': 'Stefan-Boltzmann constant',
    'Wien': 'Wien wavelength displacement law constant', 'Rydberg': 'Rydberg constant', 'm_e': 'electron mass',
    'electron_mass': 'electron mass', 'm_p': 'proton mass', 'proton_mass': 'proton mass', 'm_n': 'neutron mass',
    'neutron_mass': 'neutron mass', 'm_u': 'atomic mass constant', 'u': 'atomic mass constant',
    'atomic_mass': 'atomic mass constant'}
CONSTANTS = sorted(scipy.constants.physical_constants)


def constants(g):
    """Constants have the value, unit and uncertainty of the CODATA table, and cannot be altered."""
    name = g.pick(['pi', 'golden', 'golden_ratio', 'hbar', *NAMED]) if g.boolean(0.4) else None
    if name and name not in NAMED:
        want = {'pi': np.pi, 'hbar': scipy.constants.hbar}.get(name, (1 + 5 ** 0.5) / 2)
        v = getattr(scipp.constants, name)
        check('constant-named', close(v.value, want) and v.unit == (sc.Unit('J*s') if name == 'hbar' else 'one')
              and v.variance is None, name, show(v))
        return
    key = NAMED[name] if name else g.pick(CONSTANTS)
    value, unit, uncertainty = scipy.constants.physical_constants[key]
    g.note(f'{key} {value} {unit} {uncertainty}')
    try:
        u = sc.Unit(unit.replace(' ', '*'))
    except sc.UnitError:
        raise Discard from None  # not known to the stand-in for the library of units
    if name:
        check('constant-named', sc.identical(getattr(scipp.constants, name), sc.scalar(value, unit=u)), name)
    for with_variance in (False, True):
        v = sc.constants.physical_constants(key, with_variance=with_variance)
        check('constant', v.value == value and v.unit == u and v.ndim == 0, show(v))
        check('constant-variance', v.variance is None if not with_variance else v.variance == uncertainty ** 2, v.variance)
        w = sc.constants.physical_constants(key)
        try:
            v *= 2.0
            check('constant-altered', False, show(v))
        except (*REFUSED, sc.VariableError):
            pass
        check('constant-again', sc.identical(w, sc.constants.physical_constants(key)), show(w))
    g.nontrivial(True)


LAWS = {'elementwise': (6000, 150000, elementwise), 'reduce_list': (6000, 150000, reduce_list),
        'reduce_bins': (3000, 70000, reduce_bins), 'aliases': (4000, 80000, aliases), 'constants': (1000, 5000, constants)}

if __name__ == '__main__':
    main('C62', RULE, LAWS)
