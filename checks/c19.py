"""C19: the mission's books balance and its phases join up."""
import copy
import itertools
import os
import tempfile

import numpy as np

from mc import pre
from mc.harness import pmap

UNITS = dict(time='s', mass='lbm', distance='ft', altitude='ft', mach='unitless', velocity='ft/s')
PERTURB = 3          # points of every mission at which the books are checked


def phases(case):
    """phase_info of a case."""
    eom = case['eom']
    info = pre.default_phase_info(eom == '2dof')
    head = info.pop('pre_mission', {})
    tail = info.pop('post_mission', {})
    opt = lambda n: info[n]['user_options']
    if eom == 'energy':
        head['include_takeoff'] = case.get('takeoff', False)
        tail['include_landing'] = case.get('landing', False)
        for n in list(info):
            if n not in case.get('fly', ('climb', 'cruise', 'descent')):
                del info[n]
        if case.get('free'):
            for n in info:
                opt(n).update(mach_optimize=True, altitude_optimize=True)
            names = list(info)
            for a, b in zip(names, names[1:]):
                for v, none in (('mach', (None, 'unitless')), ('altitude', (None, 'ft'))):
                    if case['free'] in ('both', 'start'):
                        opt(b)[v + '_initial'] = none
                    if case['free'] in ('both', 'end'):
                        opt(a)[v + '_final'] = none
    if case.get('breguet'):
        from aviary.variable_info.enums import PhaseType

        opt('cruise').clear()
        opt('cruise').update(phase_type=PhaseType.BREGUET_RANGE, alt_cruise=(37.5e3, 'ft'), mach_cruise=0.8)
        info['cruise']['initial_guesses'] = {'mass': ([171481.0, -35000.0], 'lbm'), 'initial_distance': (200.0e3, 'ft'),
                                             'initial_time': (1516.0, 's'), 'altitude': (37.5e3, 'ft'), 'mach': (0.8, 'unitless')}
    if eom == '2dof':
        tail['include_landing'] = case.get('landing', True)
    if case.get('indirect'):
        for n in list(info)[1 if eom == 'energy' else 4:]:
            opt(n).update(mass_direct_link=False, distance_direct_link=False, time_initial_direct_link=False)
    models = [copy.deepcopy(info[n]) for n in (['cruise', 'desc1'] if eom == '2dof' else ['cruise'])]
    for k in range(case.get('reserve', 0)):
        r = copy.deepcopy(models[k % len(models)])
        r['user_options']['reserve'] = True
        if case.get('reserve_distance') and k == 0:
            r['user_options']['target_distance'] = (case['reserve_distance'], 'km')
        if case.get('indirect'):
            r['user_options'].update(mass_direct_link=False)
        if eom == 'energy':
            r['user_options']['time_initial_bounds'] = ((100.0 + 50 * k, 900.0), 'min')
        info[f'spare_{k}'] = r
    for n, d in case.get('target_distance', {}).items():
        opt(n)['target_distance'] = d
    for n, d in case.get('time_duration', {}).items():
        opt(n)['time_duration'] = d
    if case.get('target_range') == 'none':
        tail.pop('target_range', None)
    elif case.get('target_range'):
        tail['target_range'] = case['target_range']
    out = {'pre_mission': head}
    out.update(info)
    out['post_mission'] = tail
    return out


def data(case):
    def f(v):
        from aviary.api import Aircraft, Mission

        if 'margin' in case:
            v.set_val(Mission.RESERVE_FUEL_MARGIN, case['margin'], 'unitless')
        if 'extra' in case:
            v.set_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, case['extra'][0], case['extra'][1])
        if 'ignore' in case:
            v.set_val(Aircraft.Fuel.IGNORE_FUEL_CAPACITY_CONSTRAINT, case['ignore'])
        if 'taxi' in case:
            v.set_val(Mission.Taxi.FUEL_MASS_TAXI_IN, case['taxi'], 'lbm')
            if case['eom'] == 'energy':
                v.set_val(Mission.Taxi.FUEL_MASS_TAXI_OUT, 1.5 * case['taxi'], 'lbm')
                v.set_val(Mission.Takeoff.FUEL_MASS, 0.7 * case['taxi'], 'lbm')
    return f


def shake(p, k):
    """Move every design variable of the optimiser, the k-th way."""
    for j, (n, m) in enumerate(sorted(p.model.get_design_vars(recurse=True).items())):
        v = pre.value(p, m['source'])
        i = np.arange(v.size).reshape(v.shape)
        if v.size > 1 and 'mass' in n.split(':')[-1]:
            w = v * (1 - 0.002 * (k + 1) * (1 + i) / v.size + 0.0003 * ((i + j) % 3))
        else:
            w = v * (1 + 0.003 * (k + 1) * np.cos(1.7 * i + j)) + 1e-3 * (k + 1) * (1 + (j + i) % 5) * (v == 0)
        if m.get('indices') is not None:
            w = w.ravel()
            pick = np.zeros(w.size, dtype=bool)
            pick[np.asarray(m['indices'].as_array()).ravel()] = True
            w = np.where(pick, w, v.ravel()).reshape(v.shape)
        with pre.quiet():
            p.set_val(m['source'], w)


class Books:
    def __init__(self, p):
        self.p = p
        self.main = list(p.model.main_phases)
        self.reserve = list(p.model.reserve_phases)

    def end(self, phase, var, units, i=-1):
        return pre.value(self.p, f'traj.{phase}.timeseries.{var}', units).ravel()[i]

    def has(self, phase, var):
        try:
            self.end(phase, var, None)
        except KeyError:
            return False
        return True


def near(a, b, scale):
    return abs(a - b) <= 1e-8 * max(abs(a), abs(b), scale)


def conditions(p):
    """What the optimiser is made to hold: name -> (meta, values)."""
    out = {}
    with pre.quiet():
        for n, m in p.model.get_constraints(recurse=True).items():
            v = pre.value(p, m['source']).ravel()
            if m.get('indices') is not None:
                v = v[np.asarray(m['indices'].as_array()).ravel()]
            out[n] = (m, v)
    return out


def check_books(run, case, p, point):
    from aviary.api import Aircraft, Mission

    B = Books(p)
    last = B.main[-1]
    g = lambda n, u='lbm': float(pre.value(p, n, u).ravel()[0])
    gross = g(Mission.GROSS_MASS)

    def want(what, got, expected, scale=gross):
        run.transitions += 1
        if not near(got, expected, scale) and not (np.isnan(got) and np.isnan(expected)):
            run.violation(f'{what} off', f'{what} is {got!r}, the mission gives {expected!r}', dict(case, point=point))

    want('final mass', g(Mission.FINAL_MASS), B.end(last, 'mass', 'lbm'))
    want('final time', g(Mission.FINAL_TIME, 'min'), B.end(last, 'time', 'min'), 1.0)
    want('range', g(Mission.RANGE, 'nmi'), B.end(last, 'distance', 'nmi'), 1.0)
    burned = gross - B.end(last, 'mass', 'lbm')
    want('fuel burned', g(Mission.FUEL_MASS), burned)
    spare = 0.0
    if B.reserve:
        spare = B.end(B.reserve[0], 'mass', 'lbm', 0) - B.end(B.reserve[-1], 'mass', 'lbm')
        want('fuel burned in reserve', g(Mission.RESERVE_FUEL_MASS), spare)
    margin = case.get('margin', None)
    if margin is None:
        margin = float(p.aviary_inputs.get_val(Mission.RESERVE_FUEL_MARGIN))
    if 'extra' in case:
        extra = case['extra'][0] * {'lbm': 1.0, 'kg': 1 / 0.45359237}[case['extra'][1]]
    else:
        extra = float(p.aviary_inputs.get_val(Mission.RESERVE_FUEL_MASS_ADDITIONAL, 'lbm'))
    kept = margin / 100 * burned + extra + spare
    want('reserve fuel', g(Mission.TOTAL_RESERVE_FUEL_MASS), kept)
    loaded = g(Mission.TOTAL_FUEL_MASS)
    want('fuel loaded', loaded, gross - g(Mission.ZERO_FUEL_MASS))
    want('mass residual', g(Mission.Constraints.MASS_RESIDUAL), loaded - burned - kept)
    want('room for fuel', g(Mission.Constraints.EXCESS_FUEL_MASS_CAPACITY),
         g(Aircraft.Fuel.MAX_CAPACITY_MASS) - g(Aircraft.Fuel.UNUSABLE_FUEL_MASS) - loaded)
    want('block fuel', g(Mission.BLOCK_FUEL_MASS), burned + g(Mission.Taxi.FUEL_MASS_TAXI_IN))
    if 'taxi' in case:
        want('taxi in fuel', g(Mission.Taxi.FUEL_MASS_TAXI_IN), case['taxi'])
    goal = phases(case)['post_mission'].get('target_range')
    goal = goal[0] * {'km': 1 / 1.852, 'nmi': 1.0}[goal[1]] if goal else float(
        p.aviary_inputs.get_val(Aircraft.Design.RANGE, 'nmi'))
    want('range residual', g(Mission.Constraints.RANGE_RESIDUAL, 'nmi'), goal - B.end(last, 'distance', 'nmi'), 1.0)
    C = conditions(p)

    def rule(name, kind):
        return name in C and C[name][0].get('equals') is not None if kind == 'equals' else (
            name in C and C[name][0].get('lower') is not None and np.all(np.asarray(C[name][0]['lower']) == 0))

    run.transitions += 3
    if not rule(Mission.Constraints.MASS_RESIDUAL, 'equals'):
        run.violation('mass residual free', 'the optimiser is not made to burn the fuel it loads', case)
    if rule(Mission.Constraints.EXCESS_FUEL_MASS_CAPACITY, 'lower') == bool(case.get('ignore', False)):
        run.violation('tank size', 'the optimiser is ' + ('' if case.get('ignore') else 'not ') +
                      'made to fit the fuel into the tanks', case)
    if rule(Mission.Constraints.RANGE_RESIDUAL, 'equals') != (
            case['eom'] == '2dof' or 'target_range' in phases(case)['post_mission']):
        run.violation('range residual free', 'the optimiser is held to the wrong range, or to none', case)
    first = B.main[0]
    if case['eom'] == 'energy' and 'taxi' in case and not case.get('takeoff'):
        want('mass after takeoff', g(Mission.Takeoff.FINAL_MASS), gross - 1.5 * case['taxi'] - 0.7 * case['taxi'])
    if case['eom'] == 'energy' and case.get('takeoff'):
        want('mass at the start of flight', B.end(first, 'mass', 'lbm', 0), g(Mission.Takeoff.FINAL_MASS))
        want('distance at the start of flight', B.end(first, 'distance', 'ft', 0),
             g(Mission.Takeoff.GROUND_DISTANCE, 'ft'))
    total = g(Mission.Objectives.FUEL, 'unitless')
    climb = g(Mission.Takeoff.ASCENT_DURATION, 's')
    want('fuel objective', total, loaded / 10000 + climb / 30, 1.0)
    want('range objective', g(Mission.Objectives.RANGE, 'unitless'),
         -B.end(last, 'distance', 'nmi') / 1000 + climb / 30, 1.0)


def asked(case, what):
    """Phases for which the caller asks for a distance or duration, and how much."""
    return [(n, i['user_options'][what]) for n, i in phases(case).items() if what in i.get('user_options', {})]


def measure(p):
    """At the present point: the ends of all phases and what the optimiser is made to hold."""
    B = Books(p)
    ends = {}
    for seq in (B.main, B.reserve):
        for ph in seq:
            for v, u in UNITS.items():
                if B.has(ph, v):
                    x = pre.value(p, f'traj.{ph}.timeseries.{v}', u).ravel()
                    ends[ph, v] = (x[0], x[-1])
    from aviary.api import Mission
    from aviary.variable_info.enums import EquationsOfMotion

    # where the flight starts: what is left of the gross mass after the ground phases
    if p.model.mission_method is EquationsOfMotion.TWO_DEGREES_OF_FREEDOM:
        starts = float(pre.value(p, 'taxi.mass', 'lbm').ravel()[0])
    else:
        starts = float(pre.value(p, Mission.Takeoff.FINAL_MASS, 'lbm').ravel()[0])
    return ends, conditions(p), starts


def held(jumps, points):
    """Is a difference (one value per point) held at zero by an equality constraint?"""
    for n, (m, _) in points[0][1].items():
        if m.get('equals') is None or np.any(np.asarray(m['equals'], dtype=float) != 0.0):
            continue
        rows = [np.asarray(c[n][1], dtype=float) for _, c, *_ in points]
        if any(r.shape != rows[0].shape for r in rows):
            continue
        rows = np.array(rows)
        for col in rows.T:
            if not np.any(col):
                continue
            k = col[np.argmax(np.abs(jumps))] / jumps[np.argmax(np.abs(jumps))]
            if abs(k) > 1e-9 and np.allclose(col, k * jumps, rtol=1e-6, atol=1e-9 * np.max(np.abs(col))):
                return n
    return None


def check_links(run, case, p, points):
    from aviary.api import Mission

    B = Books(p)
    ends = points[0][0]

    def settled(what, gap, size):
        run.transitions += 1
        gap = np.array(gap)
        how = 'same' if np.all(np.abs(gap) <= 1e-9 * size) else 'held' if held(gap, points) else 'loose'
        run.seen((what, how), outcome=how)
        if how == 'loose':
            run.violation(f'{what} free', f'{what}: the mission is off by {gap.tolist()} and nothing closes the gap',
                          dict(case, what=what))

    units = dict(s=1.0, min=60.0, h=3600.0, ft=1.0, km=1000 / 0.3048, nmi=1852 / 0.3048)
    for ph, (d, u) in asked(case, 'target_distance'):
        settled(f'distance of phase {ph}',
                [e[ph, 'distance'][1] - e[ph, 'distance'][0] - d * units[u] for e, *_ in points], d * units[u])
    for ph, (d, u) in asked(case, 'time_duration'):
        settled(f'duration of phase {ph}',
                [e[ph, 'time'][1] - e[ph, 'time'][0] - d * units[u] for e, *_ in points], d * units[u])
    settled('mass at the start of flight', [e[B.main[0], 'mass'][0] - t for e, _, t in points], 1e5)
    pairs = [(a, b) for seq in (B.main, B.reserve) for a, b in zip(seq, seq[1:])]
    for a, b in pairs:
        for v in UNITS:
            if v == 'mach' and case['eom'] == '2dof':
                continue            # these phases fly at equivalent airspeeds or given accelerations
            if v == 'velocity' and not {a, b} <= {'groundroll', 'rotation', 'ascent', 'accel'}:
                continue
            if (a, v) not in ends or (b, v) not in ends:
                continue
            left = np.array([e[a, v][1] for e, *_ in points])
            right = np.array([e[b, v][0] for e, *_ in points])
            jump = right - left
            size = max(np.max(np.abs(left)), np.max(np.abs(right)), 1e-30)
            run.transitions += 1
            if np.all(np.abs(jump) <= 1e-9 * size):
                how = 'same'
            elif np.ptp(left) <= 1e-9 * size and np.ptp(right) <= 1e-9 * size:
                how = 'given'
            else:
                how = 'held' if held(jump, points) else 'loose'
            run.seen((a, b, v, how), outcome=how)
            if how == 'loose':
                run.violation(f'{v} loose', f'{v} at the end of {a} is {left.tolist()} and at the start of {b} '
                              f'{right.tolist()}: nothing makes them agree', dict(case, var=v, phases=(a, b)))


def check(run, chunk):
    for case in chunk:
        with run.guard(repr(case)), tempfile.TemporaryDirectory() as d:
            here = os.getcwd()
            os.chdir(d)
            try:
                p = pre.mission(pre.find(case['aircraft']), data(case), phases(case), run=False)
                points = []
                for k in range(PERTURB):
                    shake(p, k)
                    with pre.quiet():
                        p.run_model()
                    run.seen((repr(case), k), outcome='books')
                    run.state((repr(case), k))
                    check_books(run, case, p, k)
                    points.append(measure(p))
                check_links(run, case, p, points)
            finally:
                os.chdir(here)


def cases(quick):
    """Missions: every combination of a few choices that reach into the accounts or the links."""
    E, G, S = 'advanced_single_aisle_FLOPS', 'small_single_aisle_GASP', 'large_single_aisle_1_GASP'
    out = []
    extras = [dict(margin=0.0, extra=(0.0, 'lbm')), dict(margin=6.5, extra=(700.0, 'kg')), dict(margin=3.0), dict(extra=(900.0, 'lbm'))]
    ranges = [None, (2900.0, 'km')]
    # energy state
    for k, (n, ind, free) in enumerate(itertools.product((0, 1, 2, 3), (False, True), (None, 'both', 'start', 'end'))):
        if quick and k % 4 not in (0, 1 + (k // 4) % 3):
            continue
        c = dict(aircraft=E, eom='energy', reserve=n, indirect=ind, free=free, taxi=60.0 + k, **extras[(k + n) % 4])
        c.update(takeoff=k % 2 == 1, landing=k % 3 == 1, ignore=k % 3 == 0)
        if k % 4 == 2:
            c['target_range'] = (2900.0, 'km')
        if k % 4 == 3:
            c['target_range'] = 'none'
        out.append(c)
    for k, fly in enumerate((('climb', 'cruise'), ('cruise',), ('cruise', 'descent'))):
        out.append(dict(aircraft=E, eom='energy', fly=fly, reserve=k, taxi=33.0, target_distance={'cruise': (800.0 + k, 'km')},
                        reserve_distance=300.0, **extras[k + 1]))
        out.append(dict(aircraft=E, eom='energy', fly=fly, reserve=2 - k, taxi=33.0, time_duration={'cruise': (90.0 + k, 'min')}, **extras[k]))
    # two degrees of freedom
    for k, (a, n, b, ind) in enumerate(itertools.product((G, S), (0, 1, 2), (False, True), (False, True))):
        if quick and k % 4 not in (k // 4 % 2, 3 - k // 4 % 2):
            continue
        c = dict(aircraft=a, eom='2dof', reserve=n, breguet=b, indirect=ind, taxi=40.0 + k, ignore=k % 2 == 0, **extras[k % 4])
        c['landing'] = k % 3 != 0
        if k % 3 == 0:
            c['target_range'] = (2900.0, 'km')
        if k % 3 == 1:
            c['target_distance'] = {'cruise': (1700.0, 'km'), 'climb2': (90.0, 'nmi')}
        if k % 3 == 2:
            c['time_duration'] = {'cruise': (2.5, 'h'), 'desc1': (11.0, 'min')}
        if n:
            c['reserve_distance'] = 200.0
        out.append(c)
    return out


def main(run):
    run.rule = 'one case = one mission (phases, reserves, links, margins) x point'
    pmap(run, check, cases(run.quick), chunk=1)
