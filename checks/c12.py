"""C12: what the aircraft data give is what the analysis uses."""
import functools

import numpy as np

from mc import pre
from mc.harness import pmap

OTHER_UNITS = {'lbm': 'kg', 'ft': 'm', 'ft**2': 'm**2', 'inch': 'm', 'lbf': 'N', 'deg': 'rad', 'nmi': 'km',
               'ft/s': 'm/s', 'kn': 'm/s', 'lbf/ft**2': 'Pa', 'ft**3': 'm**3', 'galUS': 'm**3', 'mi': 'm',
               'lbm/ft**2': 'kg/m**2', 'lbf/lbm': 'N/kg', 'lbm/ft**3': 'kg/m**3'}


# given together with other engine or tank data these are checked for conflicts and refused
REFUSED = (
    # not replaced, by design: sums outside the part of the analysis where given values replace computed ones
    'aircraft:propulsion:total_scaled_sls_thrust', 'mission:total_fuel_mass',
    'aircraft:engine:scaled_sls_thrust', 'aircraft:fuel:wing_fuel_mass_capacity',
           'aircraft:fuel:fuselage_fuel_mass_capacity', 'aircraft:fuel:auxiliary_fuel_mass_capacity',
           'aircraft:fuel:total_fuel_mass_capacity')


# follows from other options of the aircraft when it is loaded
DERIVED = {'aircraft:wing:fold_dimensional_location_specified'}


def build(path, change=None, run=True):
    return pre.build(path, change, run=run)


def consumers(p):
    """Promoted name of an output -> absolute names of the component inputs it feeds."""
    out = {}
    r = p.model._resolver
    for tgt, src in p.model._conn_global_abs_in2out.items():
        if src.startswith('_auto_ivc.'):
            name = r.abs2prom(tgt, 'input')
        else:
            name = r.abs2prom(src, 'output')
        out.setdefault(name, []).append(tgt)
    return out


def results(p):
    # a replaced output is computed under another name, from whatever is there, and nothing uses it
    known = pre.metadata()
    out = {}
    for a, v in p.model._outputs._abs_item_iter():
        if not a.startswith('_auto_ivc.') and p.model._resolver.abs2prom(a, 'output') in known:
            out[a] = np.array(v)
    return out


def units_of(p, name):
    r = p.model._resolver
    for io in ('output', 'input'):
        for a, m in p.model._var_allprocs_abs2meta[io].items():
            if not a.startswith('_auto_ivc.') and r.abs2prom(a, io) == name:
                return m['units']


def meta(p, a):
    return p.model._var_allprocs_abs2meta['input'][a]


@functools.lru_cache(maxsize=2)
def natural(path):
    p = build(path)
    comp, given = pre.sources(p)
    vals = {n: (pre.value(p, n), u) for n, u in comp.items()}
    return p, comp, given, vals, consumers(p), results(p)


def convert(v, u, new):
    from openmdao.utils.units import convert_units

    return v if u in (None, 'unitless') or u == new else convert_units(v, u, new)


def plain(v):
    v = np.asarray(v)
    return v if v.size > 1 else v.ravel()[0].item()


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.size == b.size and bool(np.allclose(a.ravel(), b.ravel(), rtol=rtol, atol=1e-12 + rtol * np.max(np.abs(b), initial=0), equal_nan=True))


def differs(a, b, rtol=1e-7):
    return not same(a, b, rtol)


def default_zero(p, name):
    """Zero stands for `the reference is the wing's own thickness` here (preprocessing)."""
    return name == 'aircraft:wing:thickness_to_chord_reference'


def given_data(run, path):
    """What the aircraft file gives is what every component that has the variable uses."""
    p, comp, given, vals, cons, _ = natural(path)
    data = pre.read(path)
    with open(path) as f:
        told = {line.split(',')[0].strip() for line in f} - DERIVED
    for a, m in p.model._var_allprocs_abs2meta['input'].items():
        for name in {a.rsplit('.', 1)[1], p.model._resolver.abs2prom(a, 'input')}:
            if name not in data or name not in told:
                continue
            v, du = data.get_item(name)
            want = np.ravel(np.asarray(data.get_val(name, m['units'] or 'unitless'), float))
            have = np.ravel(pre.value(p, a))
            run.seen([pre.short(path), 'given', a], outcome='value')
            run.state((path, 'given', a))
            if want.size < have.size:
                want = np.broadcast_to(want, have.shape) if want.size == 1 else np.full(have.shape, np.nan)
            if not same(have, want) and not (default_zero(p, name) and not want.any()):
                run.violation(f'given {name}: {pre.short(path)}, {a}',
                              f'{pre.short(path)}: {a} = {have} {m["units"]}, the aircraft data say {v} {du}',
                              dict(aircraft=path, name=name, used=have, given=v))
    for name in comp:
        if name in data and name in told and name not in REFUSED:
            run.seen([pre.short(path), 'computed', name], outcome='computed all the same')
            v, u = vals[name]
            want = np.asarray(data.get_val(name, u or 'unitless'), float)
            if not same(v, want):
                run.violation(f'{name} given: {MODEL[pre.is_gasp(path)]}',
                              f'{pre.short(path)}: {name} is computed as {v} {u}, the aircraft data say {want}',
                              dict(aircraft=path, name=name, computed=v, given=want))
    for s in p.model.system_iter(recurse=True):
        for name in s.options:
            if ':' not in name or name not in data or name not in told:
                continue
            have = s.options[name]
            units = pre.metadata()[name]['units']
            want = data.get_val(name, units or 'unitless')
            if isinstance(have, tuple) and len(have) == 2 and (have[1] is None or isinstance(have[1], str)):
                want = data.get_val(name, have[1] or 'unitless')
                have = have[0]
            run.seen([pre.short(path), 'option', s.pathname, name], outcome='option')
            run.state((path, 'option', s.pathname, name))
            if not equal(have, want):
                run.violation(f'given {name}: {pre.short(path)}, {s.pathname}',
                              f'{pre.short(path)}: {s.pathname} has {name} = {have}, the aircraft data say {want} {units}',
                              dict(aircraft=path, name=name, used=have, given=want))


MODEL = {False: 'FLOPS', True: 'GASP'}

# not perturbed: checked against each other and refused when they disagree, or replaced by preprocessing
TIED = ('fuel_mass_capacity', 'capacity_mass', 'cargo_mass', 'scale_factor', 'aircraft:engine:reference_sls_thrust')
# no component of the flown phase depends on it: no ground contact after rotation
UNUSED = ('traj.phases.ascent', 'mission:takeoff:rolling_friction_coefficient')


def inputs_by_name(p):
    outs = set()
    r = p.model._resolver
    for a in p.model._var_allprocs_abs2meta['output']:
        if not a.startswith('_auto_ivc.'):
            outs.add(r.abs2prom(a, 'output'))
    by = {}
    for a, m in p.model._var_allprocs_abs2meta['input'].items():
        n = a.rsplit('.', 1)[1]
        if n.startswith(('aircraft:', 'mission:')) and n not in outs:
            by.setdefault(n, []).append((a, m['units']))
    return by


def in_mission(run, path):
    """Every value given for the aircraft reaches every component of the whole problem, phases included."""
    md = pre.metadata()
    base = pre.mission(path, run=False)
    new = {}

    def change(data):
        for i, n in enumerate(inputs_by_name(base)):
            if n not in md or any(t in n for t in TIED):
                continue
            u = md[n]['units']
            v = data.get_val(n, u) if n in data else md[n]['default_value']
            if v is None:
                continue
            v = np.asarray(v, float)
            f = 0.001 * (1 + i % 7)
            w = np.where(v != 0, v * (1 + f), f)
            new[n] = (w, u)
            data.set_val(n, plain(w), u)

    p = pre.mission(path, change)
    for n, where in inputs_by_name(p).items():
        if n not in new:
            continue
        w, u = new[n]
        for a, iu in where:
            if a.startswith(UNUSED[0]) and n == UNUSED[1]:
                continue
            want = np.ravel(convert(w, u, iu) if iu else w)
            have = np.ravel(pre.value(p, a))
            run.seen([pre.short(path), 'mission', a], outcome='value')
            run.state((path, 'mission', a))
            if want.size < have.size:
                want = np.broadcast_to(want, have.shape) if want.size == 1 else np.full(have.shape, np.nan)
            if not same(have, want):
                ph = a.split('.')[2] if a.startswith('traj.phases.') else a
                run.violation(f'mission {n}: {pre.short(path)}, {ph}',
                              f'{pre.short(path)}: {n} = {w} {u} given, but {a} uses {have} {iu}',
                              dict(aircraft=path, given={n: w}, used=have))


def equal(have, want):
    try:
        h, w = np.ravel(np.asarray(have, float)), np.ravel(np.asarray(want, float))
        return same(h, np.broadcast_to(w, h.shape) if w.size == 1 else w)
    except (TypeError, ValueError):
        flat = lambda x: [getattr(y, 'value', y) for y in (x if isinstance(x, (list, tuple, np.ndarray)) else [x])]  # noqa: E731
        h, w = flat(have), flat(want)
        return list(map(str, h)) == list(map(str, w))


def again(run, path):
    """A value computed from a stale default shows when the same analysis runs once more."""
    with pre.quiet():
        p = build(path)
        first = results(p)
        p.run_model()
        second = results(p)
    bad = []
    for a in first:
        run.seen([pre.short(path), a, 'again'], outcome='same again')
        if differs(first[a], second[a], 1e-6):
            bad.append(a)
    if bad:
        run.violation(f'again: {pre.short(path)}',
                      f'{pre.short(path)}: the same analysis run once more changes '
                      f'{[(a, first[a], second[a]) for a in bad[:3]]} and {len(bad)} values in all',
                      dict(aircraft=path, changed=bad))


def check(run, chunk):
    for path, job in chunk:
        try:
            p, comp, given, vals, cons, res = natural(path)
        except Exception as e:  # noqa: BLE001
            run.violation(f'refused: {pre.short(path)}', f'{pre.short(path)}: {e!r}'[:1500], dict(aircraft=path))
            continue
        if job == 'given':
            given_data(run, path)
            continue
        if job == 'again':
            again(run, path)
            continue
        if job == 'mission':
            try:
                in_mission(run, path)
            except Exception as e:  # noqa: BLE001
                run.violation(f'refused in mission: {pre.short(path)}', f'{pre.short(path)}: {e!r}'[:1500], dict(aircraft=path))
            continue
        v, u = vals[job]
        if job in REFUSED:
            continue
        new = np.where(v != 0, v * 1.0625, 0.5)
        if pre.metadata()[job]['types'] in (int, (int,)):
            new = np.round(v) + 1
        nu = OTHER_UNITS.get(u, u)
        try:
            q = build(path, lambda data: data.set_val(job, plain(convert(new, u, nu)), nu or 'unitless'), run=False)
            with pre.quiet():
                q.final_setup()
        except Exception as e:  # noqa: BLE001
            run.violation(f'refused: {job}, {pre.short(path)}',
                          f'{pre.short(path)} with {job} = {new} {u} given: {e!r}'[:1200],
                          dict(aircraft=path, given={job: new}))
            continue
        run.state((path, job))
        run.transitions += 1
        for a in cons.get(job, []):
            iu = meta(p, a)['units']
            want = convert(new, u, iu)
            have = pre.value(q, a)
            run.seen([pre.short(path), job, a], outcome='used')
            if not same(have, want):
                run.violation(f'{job}: {a}, {pre.short(path)}',
                              f'{pre.short(path)}: {job} = {new} {u} given, but {a} uses {have} {iu}',
                              dict(aircraft=path, given={job: new}, used=have))
        # it keeps the value when the analysis runs; the computed value, given, changes nothing else
        try:
            with pre.quiet():
                q.run_model()
        except Exception:  # noqa: BLE001
            run.seen([pre.short(path), job, 'run'], outcome='no result')
        else:
            try:
                have = pre.value(q, job, u)
            except KeyError:
                run.seen([pre.short(path), job], outcome='nothing uses it')
                continue
            run.seen([pre.short(path), job, 'run'], outcome='kept')
            if not same(have, new):
                run.violation(f'{job} given: {MODEL[pre.is_gasp(path)]}',
                              f'{pre.short(path)}: {job} = {new} {u} given, the analysis has {have}',
                              dict(aircraft=path, given={job: new}, used=have))
                continue
        try:
            with pre.quiet():
                q.set_val(job, v if v.size > 1 else v.ravel()[0], units=u)
                q.run_model()
        except KeyError:
            continue
        except Exception as e:  # noqa: BLE001
            run.violation(f'run: {job}, {pre.short(path)}', f'{pre.short(path)} with {job} = {v} {u} given: {e!r}'[:1200],
                          dict(aircraft=path, given={job: v}))
            continue
        r = results(q)
        bad = [a for a in res if a in r and differs(r[a], res[a])]
        run.seen([pre.short(path), job, 'same'], outcome='unchanged')
        if bad:
            run.violation(f'unchanged: {job}, {pre.short(path)}',
                          f'{pre.short(path)}: {job} given as the value it has anyway changes '
                          f'{[(a, res[a], r.get(a)) for a in bad[:3]]} and {len(bad)} values in all',
                          dict(aircraft=path, given={job: v}, changed=bad))


def main(run):
    run.rule = 'one case = aircraft x variable given instead of computed x input that uses it'
    files = pre.aircraft_files()
    full = [f for f in files if pre.short(f) in (
        'large_single_aisle_1_FLOPS', 'large_single_aisle_1_GASP')] if run.quick else files
    jobs = [(f, x) for f in files for x in ('given', 'again', 'mission')]
    for f in full:
        jobs += [(f, x) for x in natural(f)[3]]
    pmap(run, check, jobs, chunk=6)
