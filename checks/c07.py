"""
C07: combining the data of several engines. Every engine/nacelle variable of the database x number of engines x
form of the vehicle-level value x set of engines that define it; every combination of engine counts.
"""
import itertools
import os
from enum import Enum

import numpy as np

from mc.harness import pmap


def engine_vars():
    from aviary.variable_info.variables import Aircraft

    out = []
    for cls in (Aircraft.Engine, Aircraft.Nacelle):
        stack = [cls]
        while stack:
            c = stack.pop()
            for n, v in vars(c).items():
                if n.startswith('_'):
                    continue
                if isinstance(v, str):
                    out.append(v)
                elif isinstance(v, type):
                    stack.append(v)
    return sorted(out)


OTHER = {'ft': 'm', 'lbf': 'N', 'lbm': 'kg', 'rpm': 'rad/s', 'hp': 'kW', 'lbm/h': 'kg/s', 'deg': 'rad',
         'ft**2': 'm**2', 'inch': 'm', 's': 'min', 'ft/s': 'm/s', 'kW': 'hp', 'degR': 'degK'}
COUNTS = ('aircraft:engine:num_engines', 'aircraft:engine:num_wing_engines',
          'aircraft:engine:num_fuselage_engines')
MULTI = 'aircraft:engine:wing_locations'


def alphabet(T, key):
    T = T[0] if isinstance(T, tuple) else T
    if T is float:
        return [1.25, 2.5, 0.75, 7.0, 0.0, 11.5]
    if T is int:
        return [2, 4, 6, 8, 10, 12]
    if T is bool:
        return [True, False, True, True, False, False]
    if T is str:
        return ['a.csv', 'b.csv', 'c.csv', 'd.csv', 'e.csv', 'f.csv']
    return (list(T) * 6)[:6]


def flat(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [y for x in v for y in flat(x)]
    return [v.item() if isinstance(v, np.generic) else v]


def eq(a, b):
    if isinstance(b, (bool, str, Enum)) or b is None:
        return a == b and isinstance(a, type(b))
    return not isinstance(a, (str, bool)) and abs(a - b) <= 1e-9 * max(1, abs(b))


def models(opts):
    from aviary.subsystems.propulsion.engine_model import EngineModel
    from aviary.utils.aviary_values import AviaryValues

    out = []
    for i, o in enumerate(opts):
        av = AviaryValues()
        for k, (v, u) in o.items():
            av.set_val(k, v, u)
        out.append(EngineModel(name=f'eng{i}', options=av))
    return out


def vectors(run, keys):
    from openmdao.utils.units import convert_units

    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_propulsion
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for key in keys:
        meta = MD[key]
        base = meta['units']
        if not meta['multivalue']:
            single(run, key, meta)
            continue
        al = alphabet(meta['types'], key)
        num = isinstance(al[0], (int, float)) and not isinstance(al[0], bool)
        conv = base in OTHER and isinstance(al[0], float)
        for n in (1, 2, 3):
            forms = ['absent', 'scalar', 'list1', 'list', 'array', 'tuple'] + (['short'] if n == 3 else [])
            for form, which, esp, shift in itertools.product(
                    forms, itertools.product((0, 1), repeat=n), (('scalar', 'list1', 'array1') if num else
                                                                 ('scalar', 'list1')),
                    (0, 1, 2) if not run.quick else (0, 2)):
                if form == 'absent' and not any(which):
                    continue
                if not any(which) and esp != 'scalar':
                    continue
                if form in ('array', 'tuple') and not num:
                    continue
                if key == MULTI and form in ('list', 'array', 'tuple', 'short') and n > 1:
                    continue  # how a list of locations is shared among engines is not specified
                default = meta['default_value']
                if default is None and not all(which) and form in ('absent', 'short'):
                    continue  # there is no default to use
                ck = f'{key}:n={n}:{form}:engines={"".join(map(str, which))}:{esp}:{shift}'
                if not run.wants(ck):
                    continue
                uv = OTHER[base] if conv and shift == 2 else base
                ue = OTHER[base] if conv and shift == 1 else base
                if key == MULTI or isinstance(default, list):
                    ev = [[al[i], al[i] / 2] if i != 1 else [al[i]] for i in range(n)]
                else:
                    ev = [al[(i + shift) % 6] for i in range(n)]
                vv = [al[(i + 3 + shift) % 6] for i in range(n)]
                opts = []
                for i in range(n):
                    o = {}
                    if which[i]:
                        v = ev[i]
                        if not isinstance(v, list) and esp != 'scalar':
                            v = [v]
                        if esp == 'array1':
                            v = np.array(v)
                        o[key] = (v, ue)
                    opts.append(o)
                av = AviaryValues()
                av.set_val('aircraft:wing:span', 100.0, 'ft')
                if form == 'scalar':
                    av.set_val(key, vv[0], uv)
                elif form == 'list1':
                    av.set_val(key, vv[:1], uv)
                elif form == 'short':
                    av.set_val(key, vv[:2], uv)
                elif form == 'list':
                    av.set_val(key, list(vv), uv)
                elif form == 'tuple':
                    av.set_val(key, tuple(vv), uv)
                elif form == 'array':
                    av.set_val(key, np.array(vv), uv)

                def cv(x, u):
                    if isinstance(x, list):
                        return [cv(y, u) for y in x]
                    return convert_units(x, u, base) if u != base else x

                exp = []
                for i in range(n):
                    if which[i]:
                        exp.append(cv(ev[i], ue))
                    elif form in ('scalar', 'list1'):
                        exp.append(cv(vv[0], uv))
                    elif form == 'absent' or (form == 'short' and i == 2):
                        exp.append(default)
                    else:
                        exp.append(cv(vv[i], uv))
                run.seen(ck, outcome=(form, n))
                with run.guard(ck, ck):
                    eng = models(opts)
                    before = [repr(e.options) for e in eng]
                    preprocess_propulsion(av, eng, verbosity=0)
                    if [repr(e.options) for e in eng] != before:
                        run.violation(ck, 'the options of an engine were modified', ck)
                    got = av.get_val(key, base)
                    if key in COUNTS:
                        continue  # adjusted afterwards, see counts()
                    if key == MULTI:
                        g, e = flat(got), flat(exp)
                    else:
                        g, e = list(got), exp
                        if any(isinstance(x, (list, np.ndarray)) for x in e):
                            g, e = flat(got), flat(exp)
                    if len(g) != len(e) or not all(eq(a if not isinstance(a, np.generic) else a.item(), b)
                                                   for a, b in zip(g, e)):
                        run.violation(ck, f'combined value {got!r}, expected {exp!r} (one entry per engine)', ck)
                    if num and key != MULTI and not isinstance(default, list) and \
                            not (isinstance(got, np.ndarray) and got.shape == (n,)):
                        run.violation(ck, f'combined value {got!r} is not a vector of {n}', ck)
                    if av.get_item('aircraft:wing:span') != (100.0, 'ft'):
                        run.violation(ck, 'another variable was modified', ck)
                    # doing it again changes nothing
                    again = repr(list(av))
                    if key != MULTI or all(which):
                        preprocess_propulsion(av, eng, verbosity=0)
                        if repr(list(av)) != again:
                            run.violation(ck, f'preprocessing again changed {got!r} to {av.get_val(key, base)!r}', ck)


def single(run, key, meta):
    """a variable with one value for the aircraft stays what it is"""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_propulsion

    for n, v in itertools.product((1, 2, 3), alphabet(meta['types'], key)[:3]):
        ck = f'{key}:single:n={n}:{v}'
        if not run.wants(ck):
            continue
        av = AviaryValues()
        av.set_val(key, v, meta['units'])
        run.seen(ck, outcome='single')
        with run.guard(ck, ck):
            preprocess_propulsion(av, models([{}] * n), verbosity=0)
            if av.get_item(key) != (v, meta['units']):
                run.violation(ck, f'{v} became {av.get_item(key)}', ck)


def combine(run, jobs):
    """several variables, several engines at once: no cross-talk between variables or engines"""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_propulsion

    A = 'aircraft:engine:'
    names = [(A + 'mass', 'lbm', 1.0), (A + 'fixed_rpm', 'rpm', 100.0), ('aircraft:nacelle:avg_diameter', 'ft', 3.0),
             (A + 'scaled_sls_thrust', 'lbf', 1000.0)]
    for masks in jobs:  # one mask of variables per engine, last: vehicle level
        ck = 'variables ' + str(masks)
        if not run.wants(ck):
            continue
        n = len(masks) - 1
        opts = [{k: (b + 10 * i + j, u) for j, (k, u, b) in enumerate(names) if m >> j & 1}
                for i, m in enumerate(masks[:-1])]
        av = AviaryValues()
        for j, (k, u, b) in enumerate(names):
            if masks[-1] >> j & 1:
                av.set_val(k, [b + 500 + 10 * i + j for i in range(n)], u)
        run.seen(ck, outcome=n)
        with run.guard(ck, ck):
            preprocess_propulsion(av, models(opts), verbosity=0)
            from aviary.variable_info.variable_meta_data import CoreMetaData as MD

            for j, (k, u, b) in enumerate(names):
                if not any(m >> j & 1 for m in masks):
                    if k in av:
                        run.violation(ck, f'{k} appeared', ck)
                    continue
                exp = [b + 10 * i + j if m >> j & 1 else
                       (b + 500 + 10 * i + j if masks[-1] >> j & 1 else MD[k]['default_value'])
                       for i, m in enumerate(masks[:-1])]
                if flat(av.get_val(k, u)) != exp:
                    run.violation(ck, f'{k}: {av.get_val(k, u)}, expected {exp}', ck)


def counts(run, jobs):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.preprocessors import preprocess_propulsion

    for given, level in jobs:
        ck = f'counts {given} {level}'
        if not run.wants(ck):
            continue
        n = len(given)
        opts = [{k: (v, 'unitless') for k, v in zip(COUNTS, g) if v is not None} if level == 'engine' else {}
                for g in given]
        av = AviaryValues()
        if level == 'vehicle':
            for j, k in enumerate(COUNTS):
                if given[0][j] is not None:
                    av.set_val(k, np.array([g[j] for g in given]))
        run.seen(ck, outcome=(n, level))
        with run.guard(ck, ck):
            preprocess_propulsion(av, models(opts), verbosity=0)
            tot, wing, fuse = ([int(x) for x in av.get_val(k)] for k in COUNTS)
            for i, g in enumerate(given):
                dn, dw, df = (0 if x is None else x for x in g)
                if opts and level == 'engine':
                    # an engine that does not give a count has its default if another one gives it
                    from aviary.variable_info.variable_meta_data import CoreMetaData as MD
                    dn, dw, df = [
                        (x if x is not None else
                         (flat(MD[k]['default_value'])[0] if any(o.get(k) for o in opts) else 0))
                        for x, k in zip(g, COUNTS)]
                where = f'engine {i}: given total={dn} wing={dw} fuselage={df} -> {tot[i]} {wing[i]} {fuse[i]}'
                if wing[i] + fuse[i] != tot[i]:
                    run.violation(ck, f'{where}: the total is not the sum of wing and fuselage engines', ck)
                if wing[i] < dw or fuse[i] < df or tot[i] < dn:
                    run.violation(ck, f'{where}: an engine got lost', ck)
                if tot[i] != max(dn, dw + df):
                    run.violation(ck, f'{where}: expected {max(dn, dw + df)} engines', ck)
                if dw + df == 0 and ((dn > 1 and fuse[i]) or (dn == 1 and wing[i])):
                    run.violation(ck, f'{where}: engines without location go on the wing, a single one on the fuselage', ck)
                if dw + df < dn and dw + df > 0:
                    rest = dn - dw - df
                    if (rest > 1 and wing[i] != dw + rest) or (rest == 1 and fuse[i] != df + 1):
                        run.violation(ck, f'{where}: wrong location of the remaining engines', ck)
            for name, val in (('total_num_engines', tot), ('total_num_wing_engines', wing),
                              ('total_num_fuselage_engines', fuse)):
                if av.get_val('aircraft:propulsion:' + name) != sum(val):
                    run.violation(ck, f'{name} is {av.get_val("aircraft:propulsion:" + name)}, counts are {val}', ck)
            again = repr(list(av))
            if level == 'vehicle':
                preprocess_propulsion(av, models(opts), verbosity=0)
                if repr(list(av)) != again:
                    run.violation(ck, f'preprocessing again changed {again} to {list(av)}', ck)


def main(run):
    run.rule = ('case = one variable x number of engines x form of the vehicle value x set of engines that define it; one '
                'assignment of variables to sources; one combination of engine counts')
    keys = engine_vars()
    run.extra['variables'] = len(keys)
    pmap(run, vectors, keys, chunk=3)
    jobs = list(itertools.product(range(16), repeat=2)) + list(itertools.product(range(16), repeat=3))
    if not run.quick:
        jobs += list(itertools.product((0, 1, 2, 4, 8, 3, 5, 15), repeat=4))
    pmap(run, combine, jobs)
    one = list(itertools.product((None, 0, 1, 2, 3, 4, 5), (None, 0, 1, 2, 3, 4), (None, 0, 1, 2, 3)))
    jobs = [((g,), lv) for g in one for lv in ('engine', 'vehicle')]
    small = list(itertools.product((None, 1, 2, 3, 4), (None, 0, 1, 2), (None, 0, 1, 2)))
    for a, b in itertools.product(small, repeat=2):
        if all((x is None) == (y is None) for x, y in zip(a, b)):
            jobs.append(((a, b), 'vehicle'))
        jobs.append(((a, b), 'engine'))
    pmap(run, counts, jobs)
