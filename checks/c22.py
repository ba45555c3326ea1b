"""Missions flown together against the same missions flown alone, and what joins them."""
import copy

import numpy as np

from mc import pre
from mc.harness import pmap

SHARE = {'sweep': ('aircraft:wing:sweep', 'deg', 20.0, 30.0, 26.0, 23.5), 'range': ('aircraft:design:range', 'km', None, None, None, None),
         'gross mass': ('aircraft:design:gross_mass', 'kg', 30000.0, 90000.0, 62000.0, 66000.0)}
FLOPS, GASP = 'advanced_single_aisle_FLOPS', 'small_single_aisle_GASP'


def few(data):
    from aviary.api import Aircraft

    data.set_val(Aircraft.CrewPayload.NUM_PASSENGERS, 100)
    data.set_val(Aircraft.CrewPayload.NUM_ECONOMY_CLASS, 100)
    data.set_val(Aircraft.CrewPayload.NUM_BUSINESS_CLASS, 0)
    data.set_val(Aircraft.CrewPayload.NUM_FIRST_CLASS, 0)


def info(kind):
    p = pre.default_phase_info(kind == 'other')
    if kind == 'long':
        p['post_mission']['target_range'] = (4200.0, 'km')
        p['cruise']['user_options']['time_duration_bounds'] = ((60.0, 400.0), 'min')
    if kind == 'metric':  # the larger number, but not the longer range
        p['post_mission']['target_range'] = (2500.0, 'km')
    if kind == 'short':
        p['post_mission']['target_range'] = (900.0, 'nmi')
        p['cruise']['user_options']['mach_initial'] = (0.7, 'unitless')
    return p


# kind of mission: aircraft, change of its data, target range in km
KIND = {'plain': (FLOPS, None, None), 'few': (FLOPS, few, None), 'long': (FLOPS, None, 4200.0), 'metric': (FLOPS, None, 2500.0), 'short': (FLOPS, few, 900 * 1.852), 'other': (GASP, None, None)}
# missions, shared variable -> those sharing it, objective terms, reference
JOBS = [
    (('plain', 'few'), {'sweep': (0, 1), 'range': (0, 1), 'gross mass': (0, 1)}, ((0, 'mission:fuel_mass', 2), (1, 'mission:fuel_mass', 1)), 1.0),
    (('short', 'long'), {'range': (0, 1), 'sweep': (1, 0)}, ((0, 'mission:final_mass', None), (1, 'mission:gross_mass', None)), -5e4),
    (('other', 'plain'), {'sweep': (1,)}, ((1, 'mission:final_time', .25), (0, 'mission:final_mass', 3)), 100.0),
    (('few', 'other'), {'gross mass': (0,)}, ((0, 'mass', 1), (1, 'time', 4)), 10.0),
    (('long', 'few', 'short'), {'sweep': (0, 2), 'range': (0, 1, 2)}, ((2, 'time', 3), (0, 'mission:fuel_mass', None), (1, 'mission:final_mass', .5), (1, 'mission:range', 2)), 5.0),
    (('plain', 'short', 'other'), {'range': (1, 0), 'gross mass': (0, 1)}, ((1, 'range', 2), (2, 'mission:range', 1)), -1e3),
    (('long', 'plain'), {'gross mass': (1,), 'range': (0,)}, ((1, 'mission:fuel_mass', 5),), None),
    (('short', 'plain'), {'gross mass': (0, 1)}, dict(missions=(0, 1), outputs=('mission:fuel_mass', 'mission:final_mass'), weights=(3, 1), shares=(1, .25)), 50.0),
    (('metric', 'few'), {'range': (0, 1)}, ((0, 'mass', 2), (1, 'mass', 6)), -2e4),
]
DEEP = [
    (('other', 'few'), {}, dict(missions=(1, 0), outputs=('mission:final_time', 'mission:gross_mass', 'mission:range'), weights=None, shares=(2, 1, 7)), 50.0),
    (('few', 'plain'), {}, dict(missions=(1, 0), outputs=('mission:gross_mass',), weights=(.5, 2), shares=None), 1.0),
    (('other', 'other'), {}, ((0, 'mission:fuel_mass', 2), (1, 'mission:final_mass', 1)), 10.0),
    (('short', 'few', 'long', 'plain'), {'sweep': (0, 1, 2, 3), 'range': (3, 2)}, tuple((i, 'mission:fuel_mass', i + 1) for i in range(4)), 1e4),
    (('other', 'long'), {'range': (1,), 'sweep': (1,)}, ((1, 'time', None), (0, 'time', None)), 2.0),
    (('plain', 'long', 'short'), {'gross mass': (0, 1, 2)}, ((2, 'mission:range', 1), (1, 'mission:range', .2)), -1.0),
]
WORDS = {'mass': 'mission:final_mass', 'time': 'mission:final_time', 'range': 'mission:range'}
NAMES = ['first', 'second_flight', 'zeta', 'alpha']


def together(kinds, shared, terms, ref):
    import aviary.api as av
    from aviary.variable_info.enums import ProblemType

    p = av.AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0)
    for name, k in zip(NAMES, kinds):
        data = pre.read(pre.find(KIND[k][0]))
        if KIND[k][1]:
            KIND[k][1](data)
        p.add_aviary_group(name, aircraft=data, phase_info=info(k), verbosity=0)
    p.build_model()
    for s, who in shared.items():
        var, units, lower, upper, first, _ = SHARE[s]
        p.promote_inputs([NAMES[i] for i in who], [(var, 'Joint:' + s.replace(' ', '_'))])
        if s != 'range':
            p.add_design_var_default('Joint:' + s.replace(' ', '_'), lower=lower, upper=upper, units=units, default_val=first, ref=10.0)
    if isinstance(terms, dict):
        p.add_composite_objective_adv([NAMES[i] for i in terms['missions']], list(terms['outputs']), terms['weights'], terms['shares'], ref=ref)
    else:
        p.add_composite_objective(*[(NAMES[i], out) + (() if w is None else (w,)) for i, out, w in terms], ref=ref)
    p.add_driver('SLSQP', max_iter=0)
    p.add_design_variables()
    p.setup(check=False)
    if 'range' in shared:
        p.set_design_range([NAMES[i] for i in shared['range']], range='Joint:range')
    p.final_setup()
    return p


def outputs(system):
    return {m['prom_name']: np.array(m['val'], dtype=float) for _, m in system.list_outputs(out_stream=None, prom_name=True, return_format='list')}


def public(name):
    return name.startswith(('aircraft:', 'mission:')) and not name.startswith('mission:objectives') or '.timeseries.' in name


def job(run, kinds, shared, terms, ref):
    key = f'missions {", ".join(kinds)} sharing {", ".join(shared) or "nothing"}'
    with pre.quiet():
        p = together(kinds, shared, terms, ref)
        p.run_model()
    if isinstance(terms, dict):
        terms = tuple((i, o, a * b) for i, a in zip(terms['missions'], terms['weights'] or [1] * 9) for o, b in zip(terms['outputs'], terms['shares'] or [1] * 9))
    alone = []
    for k in kinds:
        q = pre.mission(pre.find(KIND[k][0]), change=KIND[k][1], phase_info=info(k), run=False)
        alone.append(q)
    # what is shared
    dvs = {n: d for n, d in p.model.get_design_vars(recurse=True, use_prom_ivc=True).items()}
    for s, who in shared.items():
        var, units, lower, upper, first, second = SHARE[s]
        name = 'Joint:' + s.replace(' ', '_')
        got = get(p, name, units)
        if s == 'range':
            want = max(KIND[kinds[i]][2] or get(alone[i], 'target_range', 'km') for i in who)
        else:
            want = first
            d = dvs.get(name)
            if d is None:
                run.violation(f'{key}: {s} not chosen', f'{key}: the shared {s} is not a design variable')
            else:
                lo, hi = (float(np.ravel(v)[0] if np.ndim(v) else v) for v in (d['lower'], d['upper']))
                src = p.model._var_allprocs_abs2meta['output'][d['source']]['units']
                from openmdao.utils.units import convert_units

                for b, w in ((lo, lower), (hi, upper)):
                    b = convert_units(b, d['units'] or src, units)
                    if not near(b, w):
                        run.violation(f'{key}: bounds of {s}', f'{key}: the shared {s} may go to {b} {units}, given {w}')
        if not near(got, want):
            run.violation(f'{key}: {s}', f'{key}: shared {s} is {got} {units}, expected {want}')
    for n in dvs:
        if n.startswith('Joint:') and n[6:].replace('_', ' ') not in shared:
            run.violation(f'{key}: {n}', f'{key}: design variable {n} nobody asked for')
    for point in range(2):
        if point:
            for s in shared:
                if s != 'range':
                    p.set_val('Joint:' + s.replace(' ', '_'), SHARE[s][5], units=SHARE[s][1])
                else:
                    p.set_val('Joint:range', 3333.0, units='km')
        for i, q in enumerate(alone):
            for s, who in shared.items():
                if i in who:
                    q.set_val(SHARE[s][0], get(p, 'Joint:' + s.replace(' ', '_'), SHARE[s][1]), units=SHARE[s][1])
            if point:
                mass = get(q, 'mission:gross_mass', 'kg') * (1.01 + .01 * i)
                q.set_val('mission:gross_mass', mass, units='kg')
                p.set_val(f'{NAMES[i]}.mission:gross_mass', mass, units='kg')
            with pre.quiet():
                q.run_model()
        if point:
            with pre.quiet():
                p.run_model()
        for i, q in enumerate(alone):
            a, b = outputs(getattr(p.model, NAMES[i])), outputs(q.model)
            missing = [n for n in b if public(n) and n not in a and 'excess_fuel' not in n]
            if missing:
                run.violation(f'{key}: results of mission {i} ({kinds[i]})', f'{key}: mission {i} ({kinds[i]}) has no {missing[0]} (alone it has; {len(missing)} in all)')
            for n, w in b.items():
                if n in a and (a[n].shape != w.shape or not np.allclose(a[n], w, rtol=2e-5, atol=1e-6 * (1 + np.max(np.abs(w), initial=0)), equal_nan=True)):
                    run.violation(f'{key}: mission {i} ({kinds[i]})', f'{key}: point {point}: mission {i} ({kinds[i]}) differs from the same mission alone: {n} {np.ravel(a[n])[:3]}, alone {np.ravel(w)[:3]}')
                    break
                run.transitions += 1
            # an aircraft flown by several missions is big enough for the heaviest
            m, d = get(p, f'{NAMES[i]}.mission:gross_mass', 'kg'), get(p, f'{NAMES[i]}.aircraft:design:gross_mass', 'kg')
            cons = p.model.get_constraints(recurse=True)
            ok = False
            for n, c in cons.items():
                if n.startswith(NAMES[i] + '.') and 'gross_mass' in n.lower() and c['lower'] is not None and c['equals'] is None:
                    v = get(p, c['source'], 'kg')
                    ok = ok or (near(v, d - m) and float(np.ravel(c['lower'])[0]) == 0)
            if not ok:
                run.violation(f'{key}: gross mass of mission {i}', f'{key}: nothing keeps the mass of mission {i} below the design gross mass')
        # objective
        value = {}
        weights = [1.0 if w is None else w for _, _, w in terms]
        want = sum(w * float(np.ravel(p.get_val(f'{NAMES[i]}.{WORDS.get(o, o)}'))[0]) for (i, o, _), w in zip(terms, weights)) / sum(weights)
        obj = list(p.model.get_objectives(recurse=True).values())
        got = float(np.ravel(p.get_val(obj[0]['source']))[0])
        if len(obj) != 1 or not near(got, want):
            run.violation(f'{key}: objective', f'{key}: point {point}: objective {got}, the weighted mean of {terms} is {want}')
        scale = p.driver.get_objective_values(driver_scaling=True)
        scaled = float(np.ravel(next(iter(scale.values())))[0])
        used = ref
        if ref is None and terms[0][1] in ('mass',):
            used = -5e4
        if not near(scaled, want / (used or 1.0)):
            run.violation(f'{key}: scale of the objective', f'{key}: scaled objective {scaled}, expected {want / (used or 1.0)}')
        run.seen((kinds, tuple(sorted(shared)), point), outcome=f'{len(kinds)} missions')


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1e-3, abs(b))


def get(p, name, units):
    return float(np.ravel(pre.value(p, name, units))[-1])


def refused(run):
    import aviary.api as av
    from aviary.variable_info.enums import ProblemType

    for kind in (ProblemType.SIZING, ProblemType.OFF_DESIGN_MIN_FUEL, None):
        p = av.AviaryProblem(problem_type=kind, verbosity=0)
        with pre.quiet():
            try:
                p.add_aviary_group('first', aircraft=pre.read(pre.find(FLOPS)), phase_info=info('plain'), verbosity=0)
                run.violation('missions in a problem of another kind', f'a mission is added to a problem of kind {kind}')
            except ValueError:
                pass
        run.seen(('refused', str(kind)), outcome='refused')


def check(run, chunk):
    for kinds, shared, terms, ref in chunk:
        if not kinds:
            refused(run)
            continue
        with run.guard(f'missions {", ".join(kinds)} sharing {", ".join(shared) or "nothing"}'):
            job(run, kinds, shared, terms, ref)


def main(run):
    run.rule = 'one case = one set of missions flown together with what they share, at one point of the design space'
    pmap(run, check, [((), {}, (), None)] + JOBS + ([] if run.quick else DEEP), chunk=1)
