"""
C02: aircraft data is validated against the variable database.

For every variable of the database: every value of a per-type alphabet (accepted and rejected
ones), every container the variable allows, and every unit of a unit alphabet, written to a
collection that already holds another value; the outcome is compared with a small typed reference.
"""
import copy
from enum import Enum
from pathlib import Path

import numpy as np

from mc.harness import call, close, pmap

REJ = object()

UNITS = ['unitless', 'ft', 'm', 'inch', 'nmi', 'lbm', 'kg', 's', 'min', 'h', 'ft/s', 'm/s', 'kn',
         'deg', 'rad', 'lbf', 'N', 'ft**2', 'm**2', 'lbf/ft**2', 'Pa', 'psi', 'hp', 'kW', 'degR',
         'degK', 'degF', 'rpm', 'rad/s', 'lbm/h', 'kg/s', 'galUS', 'ft**3', 'm**3', 'lbm/ft**3',
         '1/ft', '1/m', 'USD', 'kg/kW', 'lbm/hp', 'kW*h/kg', 'm/s**2', 'ft/s**2', 'deg/s', 'rad/s',
         'lbm/galUS', 'W*h/kg', 'ft*lbf', 'N*m', '1/rad', '1/deg', 'lbm*ft**2', 'kg*m**2']


class Other(Enum):
    FOREIGN = 'foreign'


def enum_spellings(E):
    for m in E:
        yield m, m
        if not isinstance(m.value, bool):
            yield m.value, m
        yield m.name, m
        yield m.name.lower(), m


def scalars(T):
    """(value, expected or REJ) for one scalar of type T."""
    if T is float:
        good = [(2.5, 2.5), (3, 3.0), (0, 0.0), (-1, -1.0), (np.float64(1.5), 1.5),
                (np.int64(4), 4.0), (1e30, 1e30)]
        bad = ['abc', '', None, Other.FOREIGN, {}, 1j]
    elif T is int:
        good = [(3, 3), (0, 0), (-2, -2), (np.int64(5), 5), (4.0, 4)]
        bad = ['abc', '', None, True, False, Other.FOREIGN, {}, 1j]
    elif T is bool:
        good = [(True, True), (False, False)]
        bad = ['abc', 'True', 1, 0, 2.5, None, Other.FOREIGN, {}]
    elif T is str:
        good = [('abc', 'abc'), ('', ''), ('a b.csv', 'a b.csv'), (Path('x/y.csv'), 'x/y.csv')]
        bad = []
    elif isinstance(T, type) and issubclass(T, Enum):
        # a spelling that is another member's value belongs to that member
        vals = {m.value: m for m in T}
        good = []
        for s, m in enum_spellings(T):
            if isinstance(s, str) and s in vals:
                m = vals[s]
            good.append((s, m))
        bad = ['no such member', 987, -5, Other.FOREIGN, None, 2.5, {}]
    else:
        raise AssertionError(T)
    return good, bad


def containers(T, good, bad):
    g = good[:6]
    yield 'list', [v for v, _ in g], [e for _, e in g]
    yield 'list1', [g[0][0]], [g[0][1]]
    yield 'tuple', tuple(v for v, _ in g), tuple(e for _, e in g)
    for n, (v, e) in enumerate(good):
        yield f'list_rep{n}', [good[0][0], v, good[-1][0]], [good[0][1], e, good[-1][1]]
    yield 'list_empty', [], []
    if T is float:
        yield 'arr', np.array([1.5, 2.5]), np.array([1.5, 2.5])
        yield 'arr_int', np.array([1, 2]), np.array([1.0, 2.0])
        yield 'arr_1', np.array([7.0]), np.array([7.0])
        yield 'arr_2d', np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([[1.0, 2.0], [3.0, 4.0]])
        yield 'nested', [[1.5, 2.5], [3.5]], [[1.5, 2.5], [3.5]]
        yield 'arr_str', np.array(['a', 'b']), REJ
        yield 'nested_bad', [[1.5, 'abc']], REJ
        for n in range(4):
            m = [[1.5, 2.5], [3.5, 4.5]]
            m[n // 2][n % 2] = 'abc'
            yield f'nested_bad{n}', m, REJ
        yield 'nested_mixed', [1.5, [2.5, 'abc'], 3.5], REJ
        yield 'nested_deep', [[[1.5], [None]], [[2.5]]], REJ
        yield 'nested_tuple', ([1.5, 'abc'], [2.5]), REJ
    elif T is int:
        yield 'arr', np.array([1, 2]), np.array([1, 2])
        yield 'arr_1', np.array([7]), np.array([7])
        yield 'nested', [[1, 2], [3]], [[1, 2], [3]]
        yield 'arr_str', np.array(['a', 'b']), REJ
        yield 'arr_bool', np.array([True, False]), None  # unspecified
    elif T is bool:
        yield 'arr', np.array([True, False]), np.array([True, False])
    elif T is str:
        yield 'arr', np.array(['a', 'b']), np.array(['a', 'b'])
    if T in (float, int) or (isinstance(T, type) and issubclass(T, Enum)):
        for n, b in enumerate(bad):
            if T is int and isinstance(b, bool):
                continue  # int([.., True]) is cast; unspecified
            yield f'list_bad{n}', [good[0][0], b], REJ
            yield f'list_bad_first{n}', [b, good[0][0]], REJ


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(b, Enum):
        return a is b
    if isinstance(b, bool):
        return a is b
    if isinstance(b, (int, float)):
        return isinstance(a, type(b)) and not isinstance(a, bool) and a == b
    return type(a) is type(b) and a == b


WAYS = ['update from dictionary', 'update from pairs', 'update from named values', 'update by keyword']


def write(av, way, key, v, u):
    from aviary.utils.named_values import NamedValues

    if way == 'update from dictionary':
        av.update({key: (v, u)})
    elif way == 'update from pairs':
        av.update([(key, (v, u))])
    elif way == 'update by keyword':
        av.update(**{key: (v, u)})
    else:
        nv = NamedValues()
        nv.set_val(key, v, u)
        av.update(nv)


def one_var(run, keys):
    from openmdao.utils.units import convert_units, is_compatible

    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for key in keys:
        meta = MD[key]
        T = meta['types']
        multi = meta['multivalue']
        if T is None:
            continue
        mixed = isinstance(T, tuple)  # (float, ..., containers)
        base = T[0] if mixed else T
        good, bad = scalars(base)
        cases = [(f's{n}', v, e) for n, (v, e) in enumerate(good)]
        cases += [(f'bad{n}', v, REJ) for n, v in enumerate(bad)]
        if not mixed:
            for nm, v, e in containers(base, good, bad):
                if not multi:
                    e = REJ
                    if nm.startswith('list_bad') or nm.startswith('nested_'):
                        continue
                cases.append((nm, v, e))
        else:
            cases = [c for c in cases if c[2] is not REJ and isinstance(c[1], float)]
            cases += [('list', [1.5, 2.5], [1.5, 2.5]), ('arr', np.array([1.5]), np.array([1.5]))]
        default = meta['default_value']
        if default is not None:
            cases.append(('default', default, 'default'))
        units = meta['units']
        seed_val = good[0]
        for nm, v, e in cases:
            if e is None:
                continue
            ck = f'type:{key}:{nm}'
            if not run.wants(ck):
                continue
            run.traces += 1
            run.transitions += 1
            run.seen([key, nm, v], outcome='rejected' if e is REJ else 'accepted')
            run.state((key, nm))
            av = AviaryValues()
            av.set_val('other', 1, 'ft')
            av.set_val(key, seed_val[0], units)
            before = repr(list(av))
            # the other ways to write come to the same
            for way in WAYS:
                a2 = AviaryValues()
                a2.set_val('other', 1, 'ft')
                a2.set_val(key, seed_val[0], units)
                st, out = call(write, a2, way, key, copy.deepcopy(v), units)
                if e is REJ:
                    if st == 'ok':
                        run.violation(ck, f'{key}: {way} accepted {v!r}')
                    elif repr(list(a2)) != before:
                        run.violation(ck, f'{key}: rejected {way} of {v!r} changed the collection')
                elif st != 'ok':
                    run.violation(ck, f'{key}: {way} rejected {v!r}: {out!r}')
                elif not (isinstance(e, str) and nm == 'default') and \
                        not equal(a2.get_val(key, units), e):
                    run.violation(ck, f'{key}: {way} of {v!r} reads back {a2.get_val(key, units)!r}')
            given = copy.deepcopy(v)
            st, out = call(av.set_val, key, given, units)
            if repr(given) != repr(v):
                run.violation(ck, f'setting {key} modified the given value {v!r} to {given!r}')
            if e is REJ:
                if st == 'ok':
                    run.violation(ck, f'{key} ({T}, multivalue={multi}) accepted {v!r} as '
                                      f'{av.get_val(key, units)!r}')
                elif repr(list(av)) != before:
                    run.violation(ck, f'rejected value {v!r} for {key} changed the collection')
                continue
            if st != 'ok':
                run.violation(ck, f'{key} ({T}, multivalue={multi}) rejected {v!r}: {out!r}')
                continue
            got = av.get_val(key, units)
            if isinstance(e, str) and e == 'default' and nm == 'default':
                ok = bool(np.all(np.asarray(got) == np.asarray(v)))
                want = v
            else:
                ok = equal(got, e)
                want = e
            if not ok:
                run.violation(ck, f'{key} set to {v!r} reads back {got!r}, expected {want!r}')
            if av.get_val('other', 'ft') != 1 or len(av) != 2:
                run.violation(ck, f'setting {key} changed other content')
        # units
        v0, e0 = good[0]
        for u in UNITS + [units, None, 3, 'notaunit', 'ft/', 'kgf/cm**2']:
            ck = f'unit:{key}:{u!r}'
            if not run.wants(ck):
                continue
            run.traces += 1
            run.transitions += 1
            valid = isinstance(u, str)
            if valid:
                try:
                    valid = is_compatible(units, u)
                except Exception:
                    valid = False
            run.seen([key, u], outcome='unit ok' if valid else 'unit rejected')
            run.state((key, 'unit', u))
            av = AviaryValues()
            av.set_val(key, v0, units)
            before = repr(list(av))
            for way in WAYS:
                if way == 'update from named values' and not isinstance(u, str):
                    continue
                a2 = AviaryValues()
                a2.set_val(key, v0, units)
                st, out = call(write, a2, way, key, v0, u)
                if (st == 'ok') != valid or (not valid and repr(list(a2)) != before) or \
                        (valid and a2.get_item(key)[1] != u):
                    run.violation(ck, f'{key} [{units}] {way} with units {u!r}: {st} {out!r}')
            st, out = call(av.set_val, key, v0, u)
            if not valid:
                if st == 'ok':
                    run.violation(ck, f'{key} [{units}] accepted units {u!r}')
                elif repr(list(av)) != before:
                    run.violation(ck, f'rejected units {u!r} for {key} changed the collection')
                continue
            if st != 'ok':
                run.violation(ck, f'{key} [{units}] rejected units {u!r}: {out!r}')
                continue
            if av.get_item(key)[1] != u or not equal(av.get_item(key)[0], e0):
                run.violation(ck, f'{key} set in {u} is stored as {av.get_item(key)!r}')
            if base in (float, int):
                want = convert_units(float(e0), u, units)
                st, got = call(av.get_val, key, units)
                if st != 'ok' or not close(got, want):
                    run.violation(ck, f'{key} set to {v0} {u} reads {got!r} {units}, not {want!r}')


def extension(run):
    """A caller's own database is used instead of the core one, and the core one is not touched."""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    before = set(MD)
    mine = {
        'my:x': dict(units='kg', default_value=1.0, types=float, multivalue=False, option=False,
                     desc='', historical_name=None),
        'my:n': dict(units='unitless', default_value=1, types=int, multivalue=True, option=True,
                     desc='', historical_name=None),
    }
    for key, v, u, ok in [('my:x', 2, 'lbm', True), ('my:x', 2, 'ft', False),
                          ('my:x', 'abc', 'kg', False), ('my:x', [1.0], 'kg', False),
                          ('my:n', [1, 2], 'unitless', True), ('my:n', 'abc', 'unitless', False),
                          ('my:n', 3, 'kg', False)]:
        ck = f'ext:{key}:{v}:{u}'
        run.seen([key, v, u], outcome='extension')
        av = AviaryValues()
        st, out = call(av.set_val, key, v, u, meta_data=mine)
        if (st == 'ok') != ok:
            run.violation(ck, f'{key}={v!r} [{u}] with a user database: {st} {out!r}')
        if st == 'err' and len(av):
            run.violation(ck, 'rejected value was stored')
    if set(MD) != before:
        run.violation('ext:core', 'the core database changed')


def main(run):
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    run.level = 'model_checking'
    run.rule = (
        'every variable of the database x (every value of the per-type alphabet, every container, '
        'every unit of the unit alphabet), written over an existing value; one state per '
        '(variable, value or unit)'
    )
    run.extra['variables'] = len(MD)
    pmap(run, one_var, list(MD), chunk=20)
    extension(run)
