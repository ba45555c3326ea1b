"""
C06: aircraft input files. Every variable of the database x value x unit x spelling of its row is read; every
sequence of rows in bounds is read and compared with "the last row of a name wins"; every variable is saved
to a file and loaded again; verbosity given in the file and to the loader in every combination.
"""
import itertools
import os
from enum import Enum

import numpy as np

from mc.harness import call, pmap

UNITS = ['ft', 'm', 'nmi', 'lbm', 'kg', 's', 'h', 'ft/s', 'kn', 'deg', 'rad', 'lbf', 'N', 'ft**2', 'm**2',
         'lbf/ft**2', 'Pa', 'hp', 'kW', 'degR', 'degK', 'rpm', 'rad/s', 'lbm/h', 'kg/s', 'galUS', 'ft**3',
         'm/s**2', 'deg/s', 'lbm/ft**3', '1/ft', '1/m', 'kg/kW', 'lbm/hp', 'lbm/(hp*h)', 'kW*h/kg',
         'ft*lbf', 'N*m', 'unitless']


def alphabet(T):
    """[(text, expected)]"""
    if T is float:
        return [('2.5', 2.5), ('3', 3.0), ('-0.25', -0.25), ('0', 0.0), ('1e-05', 1e-5), ('2.5E+6', 2.5e6),
                ('123456789.125', 123456789.125), ('1e3', 1000.0), ('.5', 0.5), ('7.', 7.0)]
    if T is int:
        return [('3', 3), ('0', 0), ('-2', -2), ('120', 120)]
    if T is bool:
        return [('True', True), ('False', False), ('true', True), ('FALSE', False)]
    if T is str:
        return [('abc', 'abc'), ('dir/some file.csv', 'dir/some file.csv'), ('CFM56', 'CFM56')]
    out = []
    vals = {m.value: m for m in T}
    for m in T:
        if isinstance(m.value, bool):
            continue
        out.append((str(m.value), m))
        nm = vals.get(m.name.lower(), m)
        if m.name.lower() not in ('true', 'false'):
            out.append((m.name, vals.get(m.name, m)))
            out.append((m.name.lower(), nm))
    return out


def spellings(name, vals, units):
    """every way in the alphabet to write one row"""
    u = [units] if units else []
    row = [name, *vals, *u]
    yield 'plain', ','.join(row)
    yield 'spaces', '  ' + ' , '.join(row) + '  '
    yield 'tabs', '\t,'.join(row)
    yield 'trailing commas', ','.join(row) + ',,,'
    yield 'inner commas', ',,'.join(row)
    yield 'comment', ','.join(row) + ' # note, 5, ft'
    yield 'comment tight', ','.join(row) + ',#'
    yield 'brackets', ','.join([name, *(['[' + vals[0], *vals[1:-1], vals[-1] + ']'] if len(vals) > 1
                                        else ['[' + vals[0] + ']']), *u])


def flat(v):
    if isinstance(v, np.ndarray):
        return [x.item() if isinstance(x, np.generic) else x for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v.item() if isinstance(v, np.generic) else v]


def same(a, b):
    """values a (read) and b (expected), flattened"""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(y, Enum):
            if x is not y:
                return False
        elif isinstance(y, bool) or isinstance(x, bool):
            if x is not y:
                return False
        elif x != y:
            return False
    return True


def write(text, eol='\n', name='v'):
    fn = os.path.abspath(f'{name}_{os.getpid()}.csv')
    with open(fn, 'w', newline='') as f:
        f.write(text.replace('\n', eol))
    return fn


def base_type(meta):
    T = meta['types']
    return T[0] if isinstance(T, tuple) else T


def rows(run, keys):
    from openmdao.utils.units import is_compatible

    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for key in keys:
        meta = MD[key]
        T = base_type(meta)
        if T is None:
            continue
        al = alphabet(T)
        groups = [[a] for a in al]
        if meta['multivalue']:
            groups += [[al[0], al[1 % len(al)]], [al[-1], al[0], al[1 % len(al)]],
                       [al[0]] * 4, [al[2 % len(al)], al[3 % len(al)]], al[:6]]
        units = [None, meta['units']]
        if T is float:
            units += [u for u in UNITS if u != meta['units'] and meta['units'] != 'unitless'
                      and is_compatible(u, meta['units'])]
        for gi, g in enumerate(groups):
            for ui, u in enumerate(units):
                for si, (sn, text) in enumerate(spellings(key, [t for t, _ in g], u)):
                    # every value x unit plainly; every spelling for some of them
                    if si and (run.quick and (gi + ui + si) % 4) and not (gi in (0, len(groups) - 1)):
                        continue
                    if sn == 'brackets' and (len(g) == 1 and not meta['multivalue']):
                        continue
                    ck = f'row:{text!r}'
                    if not run.wants(ck):
                        continue
                    run.seen(ck, outcome=(T.__name__, len(g), sn))
                    with run.guard(ck, ck):
                        av, ig = create_vehicle(write(text + '\n'))
                        val, un = av.get_item(key)
                        if not same(val, [e for _, e in g]):
                            run.violation(ck, f'read {val!r}, the file says {[e for _, e in g]!r}', ck)
                        if meta['multivalue']:
                            if len(g) > 1 and not isinstance(val, (list, tuple, np.ndarray)):
                                run.violation(ck, f'a list became {val!r}', ck)
                        elif isinstance(val, (list, tuple, np.ndarray)):
                            run.violation(ck, f'a single value became {val!r}', ck)
                        if un != (u or meta['units']):
                            run.violation(ck, f'units {un}, the file says {u or meta["units"]}', ck)


ROWS = [
    ('aircraft:wing:span', ['100'], 'ft'), ('aircraft:wing:span', ['40.5'], 'm'),
    ('aircraft:wing:span', ['117.83'], None), ('aircraft:engine:num_engines', ['2', '1'], None),
    ('aircraft:engine:num_engines', ['4'], 'unitless'),
    ('aircraft:design:range', ['1e3'], 'nmi'),
    ('initialization_guesses:reserves', ['4500'], None), ('reserves', ['0.1'], None),
    ('initialization_guesses:flight_duration', ['2.5'], None),
    ('initialization_guesses:made_up_guess', ['7.5'], None),
    ('aircraft:no:such_variable', ['5'], 'ft'), ('settings:verbosity', ['2'], None),
    ('settings:problem_type', ["off_design_max_range"], None), ('mission:made_up', ['1', '2'], None),
    ('', [], None), ('#', [], None), (',,,', [], None),
]


def fmt(r):
    name, vals, u = r
    if name == '#':
        return '# aircraft:wing:span, 1, ft'
    if name == ',,,':
        return ' ,,, '
    return ','.join([name, *vals, *([u] if u else [])])


def num(t):
    try:
        return int(t)
    except ValueError:
        try:
            return float(t)
        except ValueError:
            return t


def sequences(run, items):
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.enums import ProblemType, Verbosity
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    base_av, base_ig = create_vehicle(write(''))
    base = {k: (v, u) for k, (v, u) in base_av}
    for seq, eol in items:
        ck = 'file:' + '|'.join(fmt(ROWS[i]) for i in seq) + ':' + repr(eol)
        if not run.wants(ck):
            continue
        text = '\n'.join(fmt(ROWS[i]) for i in seq)
        exp, ig = dict(base), dict(base_ig)
        for i in seq:
            n, vals, u = ROWS[i]
            if n in MD:
                v = [num(t) for t in vals]
                if n == 'settings:problem_type':
                    v = [ProblemType.OFF_DESIGN_MAX_RANGE]
                if n == 'settings:verbosity':
                    v = [Verbosity(2)]
                exp[n] = (v, u or MD[n]['units'])
            elif n.startswith('initialization_guesses:'):
                ig[n.split(':', 1)[1]] = num(vals[0])
            elif n in base_ig:
                ig[n] = num(vals[0])
        run.seen(ck, outcome=len(exp))
        run.state((tuple(sorted((k, str(v)) for k, v in exp.items())), tuple(sorted(ig.items()))))
        run.transitions += len(seq)
        with run.guard(ck, ck):
            av, got_ig = create_vehicle(write(text, eol), verbosity=None)
            got = {k: (v, u) for k, (v, u) in av}
            run.traces += 1
            if set(got) != set(exp):
                run.violation(ck, f'variables {sorted(set(got) ^ set(exp))} are missing or should not be there', ck)
                continue
            for k in exp:
                if not same(got[k][0], exp[k][0]) or got[k][1] != exp[k][1]:
                    run.violation(ck, f'{k}: read {got[k]}, the last row of it gives {exp[k]}', ck)
            if got_ig != ig:
                run.violation(ck, f'initial guesses {got_ig}, expected {ig}', ck)


def verbosity(run):
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.enums import Verbosity

    for infile, pos, arg in itertools.product([None, 0, 1, 2, 3, 'brief', 'DEBUG'], [0, 1],
                                              [None, 0, 1, 2, 3, *Verbosity]):
        ck = f'verbosity in file={infile} pos={pos} given={arg!r}'
        if not run.wants(ck):
            continue
        lines = ['aircraft:wing:span,100,ft']
        if infile is not None:
            lines.insert(pos, f'settings:verbosity,{infile}')
        run.seen(ck, outcome=str(arg))
        with run.guard(ck, ck):
            av, _ = create_vehicle(write('\n'.join(lines)), verbosity=arg)
            got = av.get_val('settings:verbosity')
            if arg is not None:
                exp = Verbosity(arg)
            elif infile is None:
                exp = Verbosity.BRIEF
            else:
                exp = Verbosity[infile.upper()] if isinstance(infile, str) else Verbosity(infile)
            if got is not exp:
                run.violation(ck, f'verbosity {got!r}, expected {exp!r}', ck)


def saving(run, keys):
    """AviaryValues -> file -> AviaryValues for every variable and kind of value."""
    from openmdao.utils.units import is_compatible

    from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for group in keys:
        # one variable alone, or all of them together
        for n in range(8):
            av = AviaryValues()
            for gi, key in enumerate(group):
                meta = MD[key]
                T = base_type(meta)
                if T is None:
                    continue
                al = [e for _, e in alphabet(T)]
                multi = meta['multivalue']
                v = al[(n + gi) % len(al)] if n < 4 or not multi else \
                    [al[(n + gi + k) % len(al)] for k in range(1 + (n + gi) % 3)]
                if n in (6, 7) and multi and T in (int, float, bool):
                    v = np.array(v)
                if n == 5 and multi:
                    v = tuple(v)
                u = meta['units']
                if T is float and u != 'unitless' and n % 2:
                    comp = [x for x in UNITS if is_compatible(x, u)]
                    u = comp[n % len(comp)] if comp else u
                av.set_val(key, v, u)
            ck = f'saved:{group[0]}{"..." if len(group) > 1 else ""}:{n}'
            if not run.wants(ck) or not len(av):
                continue
            run.seen(ck, outcome=n)
            before = {k: (flat(v), u) for k, (v, u) in av}
            with run.guard(ck, ck):
                fn = os.path.abspath(f's_{os.getpid()}.csv')
                save_to_csv_file(fn, av)
                if {k: (flat(v), u) for k, (v, u) in av} != before:
                    run.violation(ck, 'saving modified the collection', ck)
                got, _ = create_vehicle(fn, verbosity=None)
                for k, (v, u) in before.items():
                    if k not in got:
                        run.violation(ck, f'{k} is missing after loading', ck)
                        continue
                    gv, gu = got.get_item(k)
                    if not same(gv, v) or gu != u:
                        run.violation(ck, f'{k}: saved {v} {u}, loaded {gv!r} {gu}', ck)


def own_metadata(run):
    """a database of the user, with and without a default the core one has"""
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for units, rowu, multi, typ in itertools.product(
            ['ft', 'lbm', 'unitless'], [None, 'own'], [False, True], [float, int, str]):
        if typ is not float and (units != 'unitless' or rowu):
            continue
        ck = f'own variable units={units} row={rowu} multi={multi} {typ.__name__}'
        if not run.wants(ck):
            continue
        md = dict(MD)
        md['aircraft:my:thing'] = dict(units=units, default_value=None, desc='', types=typ, multivalue=multi,
                                       option=False, historical_name=None)
        t, e = alphabet(typ)[0]
        rows_ = ['aircraft:my:thing,' + t + (f',{units}' if rowu else ''), 'aircraft:wing:span,50,ft']
        run.seen(ck, outcome=typ.__name__)
        with run.guard(ck, ck):
            av, _ = create_vehicle(write('\n'.join(rows_)), meta_data=md)
            if 'aircraft:my:thing' not in av:
                run.violation(ck, 'the variable of the own database was not read', ck)
                continue
            v, u = av.get_item('aircraft:my:thing')
            if not same(v, e) or u != units or av.get_item('aircraft:wing:span') != (50, 'ft'):
                run.violation(ck, f'read {v!r} {u}', ck)


def main(run):
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    run.level = 'model_checking'
    run.rule = ('every variable of the database x every value and unit of the alphabets x every spelling of a row; '
                'every sequence of rows up to the bound x line ending, compared with the last-row-wins model; every '
                'variable x kind of value saved and loaded; every verbosity combination')
    keys = list(MD)
    pmap(run, rows, keys, chunk=12)
    depth = 3 if run.quick else 4
    seqs = [(s, '\n') for d in range(depth + 1) for s in itertools.product(range(len(ROWS)), repeat=d)]
    seqs += [(s, '\r\n') for d in range(3) for s in itertools.product(range(len(ROWS)), repeat=d)]
    pmap(run, sequences, seqs)
    pmap(run, saving, [[k] for k in keys] + [keys], chunk=12)
    verbosity(run)
    own_metadata(run)
