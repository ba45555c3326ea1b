"""C20: the optimiser works on the problem the caller describes."""
import copy
import itertools
import os
import tempfile

import numpy as np

from checks import c19
from mc import pre
from mc.harness import pmap

PRIME = 7
FREE = (None, None)


# ---------------------------------------------------------------- what a caller may ask of a phase
# every alternative: options, and what they mean as a list of
#   ('bounds', var, lower, upper, units)      every value the optimiser may choose lies between
#   ('opt', var, yes)                         the optimiser does (not) choose this control
#   ('pin', var, index, value, units)         the first or last value is this one
#   ('limit', var, where, lower, upper, units)   held along the path, or at one end
#   ('order', var, n)                         a polynomial in time
#   ('scale', var, one, zero, units)          what the optimiser sees as 1 (and as 0)
#   ('goal', var, one, units)                 what it sees as a miss of 1 at the end
#   ('span', lower, upper, units)             the duration
#   ('start', lower, upper, units)            the time at the beginning

def controls(var, unit, none, lo, hi, a, b):
    o = lambda **k: {f'{var}_{n}': v for n, v in k.items()}
    return [
        (o(optimize=False), [('opt', var, False)]),
        (o(optimize=True, bounds=((lo, hi), unit), initial=(None, unit), final=(None, unit)),
         [('opt', var, True), ('bounds', var, lo, hi, unit)]),
        (o(optimize=True, bounds=((None, hi), unit), initial=(a, unit), final=(None, unit), polynomial_order=2),
         [('opt', var, True), ('bounds', var, None, hi, unit), ('pin', var, 0, a, unit), ('order', var, 2)]),
        (o(optimize=True, bounds=((lo, None), unit), initial=(None, unit), final=(b, unit), polynomial_order=1),
         [('opt', var, True), ('bounds', var, lo, None, unit), ('pin', var, -1, b, unit), ('order', var, 1)]),
        (o(optimize=True, bounds=((None, None), unit), initial=(a, unit), final=(b, unit)),
         [('opt', var, True), ('bounds', var, None, None, unit), ('pin', var, 0, a, unit), ('pin', var, -1, b, unit)]),
        (o(optimize=True, bounds=((lo, hi), unit), initial=(a, unit), final=(b, unit), ref=(hi, unit), ref0=(lo, unit)),
         [('scale', var, hi, lo, unit), ('opt', var, True), ('bounds', var, lo, hi, unit), ('pin', var, 0, a, unit), ('pin', var, -1, b, unit)]),
        (o(optimize=True, bounds=((lo, hi), unit), initial=(b, unit), final=(a, unit), ref=(0.5 * (lo + hi), unit)),
         [('scale', var, 0.5 * (lo + hi), None, unit), ('opt', var, True), ('bounds', var, lo, hi, unit), ('pin', var, 0, b, unit), ('pin', var, -1, a, unit)]),
    ]


def states(var, unit, lo, hi, end, start, ref):
    """start is None where the state continues from the phase before."""
    o = lambda **k: {f'{var}_{n}': v for n, v in k.items()}
    first = {} if start is None else o(initial=(start, unit))
    pin = [] if start is None else [('pin', var, 0, start, unit)]
    return [
        ({}, [('bounds', var, 0.0, None, unit)]),
        (o(bounds=((lo, hi), unit)), [('bounds', var, lo, hi, unit)]),
        (o(bounds=((None, hi), unit), final=(end, unit)), [('bounds', var, None, hi, unit), ('pin', var, -1, end, unit)]),
        (o(bounds=((lo, None), unit), ref=(ref, unit)), [('scale', var, ref, None, unit), ('bounds', var, lo, None, unit)]),
        (dict(first, **o(final=(end, unit), constraint_ref=(ref, unit))), pin + [('goal', var, ref, unit), ('pin', var, -1, end, unit)]),
        (dict(first, **o(bounds=((None, None), unit), ref=(ref, unit), ref0=(0.1 * ref, unit), defect_ref=(ref, unit))),
         pin + [('bounds', var, None, None, unit), ('scale', var, ref, 0.1 * ref, unit)]),
        (o(final=(end, unit), ref=(ref, unit), bounds=((lo, hi), unit)), [('pin', var, -1, end, unit), ('bounds', var, lo, hi, unit)]),
    ]


def times(first):
    out = [
        (dict(time_duration=(31.0, 'min')), [('span', 31.0, 31.0, 'min')]),
        (dict(time_duration_bounds=((0.3, 2.5), 'h')), [('span', 0.3, 2.5, 'h')]),
        (dict(time_duration_bounds=((11.0, 340.0), 'min'), time_duration_ref=(1.5, 'h')), [('span', 11.0, 340.0, 'min')]),
        (dict(time_duration=(0.6, 'h'), time_duration_bounds=((11.0, 340.0), 'min')), [('span', 0.6, 0.6, 'h')]),
        (dict(time_duration_bounds=((700.0, 9000.0), 's')), [('span', 700.0, 9000.0, 's')]),
        (dict(time_duration_bounds=((12.0, 300.0), 'min')), [('span', 12.0, 300.0, 'min')]),
        (dict(time_duration_bounds=((0.5, 2.0), 'h'), time_duration_ref=(60.0, 'min')), [('span', 0.5, 2.0, 'h')]),
    ]
    starts = [({}, [])] if not first else [
        (dict(time_initial=(2.0, 'min')), [('start', 2.0, 2.0, 'min')]),
        (dict(time_initial=(None, 's'), time_initial_bounds=((1.0, 15.0), 'min')), [('start', 1.0, 15.0, 'min')]),
        (dict(time_initial=(None, 's'), time_initial_bounds=((50.0, 700.0), 's'), time_initial_ref=(4.0, 'min')),
         [('start', 50.0, 700.0, 's')]),
    ]
    return [(dict(o, **starts[i % len(starts)][0]), s + starts[i % len(starts)][1]) for i, (o, s) in enumerate(out)]


THROTTLE = [
    (dict(throttle_enforcement='path_constraint'), [('limit', 'throttle', 'path', 0.0, 1.0, 'unitless')]),
    (dict(throttle_enforcement='boundary_constraint'),
     [('limit', 'throttle', 'initial', 0.0, 1.0, 'unitless'), ('limit', 'throttle', 'final', 0.0, 1.0, 'unitless')]),
    (dict(throttle_enforcement=None), [('nolimit', 'throttle')]),
    (dict(throttle_enforcement='path_constraint', num_segments=2), [('limit', 'throttle', 'path', 0.0, 1.0, 'unitless')]),
    (dict(throttle_enforcement='control', throttle_optimize=True, throttle_bounds=((0.1, 0.9), 'unitless')),
     [('opt', 'throttle', True), ('bounds', 'throttle', 0.1, 0.9, 'unitless')]),
    (dict(throttle_enforcement='control', throttle_optimize=False), [('opt', 'throttle', False)]),
    (dict(throttle_enforcement='boundary_constraint', constraints={'throttle': dict(lower=0.2, type='boundary', loc='final')}),
     [('limit', 'throttle', 'final', 0.2, None, 'unitless'), ('nolimit', 'throttle', 'initial')]),
]
# aliases of one quantity share the units of its timeseries: dymos mislabels the others
RATES = [
    (dict(no_climb=True), [('limit', 'altitude_rate', 'path', None, 0.0, 'ft/s')]),
    (dict(no_descent=True), [('limit', 'altitude_rate', 'path', 0.0, None, 'ft/s')]),
    ({}, [('nolimit', 'altitude_rate')]),
    (dict(required_available_climb_rate=(1.5, 'm/s')), [('limit', 'altitude_rate_max', 'path', 1.5, None, 'm/s')]),
    (dict(required_available_climb_rate=(300.0, 'ft/min'), no_climb=True),
     [('limit', 'altitude_rate_max', 'path', 300.0, None, 'ft/min'), ('limit', 'altitude_rate', 'path', None, 0.0, 'ft/s')]),
    (dict(constraints={'altitude_rate': dict(lower=-600.0, upper=900.0, units='ft/min', type='path')}, no_climb=True),
     [('limit', 'altitude_rate', 'path', -600.0, 900.0, 'ft/min')]),
    (dict(constraints={'drag': dict(upper=90.0, units='kN', type='path'),
                       'slow': dict(target='velocity', upper=250.0, units='m/s', type='boundary', loc='initial'),
                       'fast': dict(target='velocity', lower=120.0, units='m/s', type='boundary', loc='final')}),
     [('limit', 'drag', 'path', None, 90.0, 'kN'), ('limit', 'velocity', 'initial', None, 250.0, 'm/s'),
      ('limit', 'velocity', 'final', 120.0, None, 'm/s')]),
]
RATES2 = [
    ({}, []),
    (dict(required_available_climb_rate=(1.5, 'm/s')), [('limit', 'altitude_rate', 'final', 1.5, None, 'm/s')]),
    (dict(constraints={'drag': dict(upper=90.0, units='kN', type='path')}), [('limit', 'drag', 'path', None, 90.0, 'kN')]),
    (dict(constraints={'slow': dict(target='velocity', upper=500.0, units='kn', type='boundary', loc='initial'),
                       'fast': dict(target='velocity', lower=120.0, units='kn', type='boundary', loc='final')}),
     [('limit', 'velocity', 'initial', None, 500.0, 'kn'), ('limit', 'velocity', 'final', 120.0, None, 'kn')]),
    (dict(required_available_climb_rate=(300.0, 'ft/min')), [('limit', 'altitude_rate', 'final', 300.0, None, 'ft/min')]),
    (dict(constraints={'mach': dict(equals=0.7, type='boundary', loc='final')}), [('limit', 'mach', 'final', 0.7, 0.7, 'unitless')]),
    (dict(required_available_climb_rate=(0.0, 'ft/min')), [('limit', 'altitude_rate', 'final', 0.0, None, 'ft/min')]),
]

ALTITUDES = {'climb': (0.0, 12.0, 1.0, 10.5, 'km'), 'cruise': (20e3, 41e3, 33e3, 36e3, 'ft'),
             'descent': (0.0, 41e3, 35e3, 0.0, 'ft'), 'spare_0': (6e3, 12.5e3, 9e3, 1.1e4, 'm')}
MASSES = {'climb': (9e4, 2e5, 1.7e5, None, 'lbm'), 'cruise': (40.0, 80.0, 65.0, None, 'Mg'),
          'descent': (4e4, 8e4, 6.4e4, None, 'kg'), 'spare_0': (4e4, 7e4, 6e4, 6.3e4, 'kg')}
DISTANCES = {'climb': (1.0, 500.0, 210.0, None, 'km'), 'cruise': (50.0, 3300.0, 3000.0, None, 'nmi'),
             'descent': (60e3, 7e6, 6e6, None, 'm'), 'spare_0': (300.0, 8000.0, 4000.0, 3500.0, 'km')}


def energy_dims(phase):
    a = ALTITUDES[phase]
    m, d = MASSES[phase], DISTANCES[phase]
    return [controls('mach', 'unitless', None, 0.25, 0.84, 0.6, 0.78),
            controls('altitude', a[4], None, *a[:4]),
            states('mass', m[4], *m[:4], 1e2 if m[4] == 'Mg' else 1e5),
            states('distance', d[4], *d[:4], 2 * d[2]),
            times(phase == 'climb'), THROTTLE, RATES]


def gasp_dims(phase):
    heights = {'climb1': (400.0, 11e3, 10e3, None, 'ft'), 'climb2': (3.0, 12.0, 11.0, None, 'km'),
               'desc1': (2.9, 13.0, 3.2, None, 'km'), 'desc2': (0.0, 11e3, 0.0, None, 'ft')}
    d = {'climb1': (1.0, 500.0, 30.0, None, 'km'), 'climb2': (1.0, 500.0, 180.0, None, 'nmi'),
         'desc1': (60e3, 8e6, 6e6, None, 'm'), 'desc2': (60.0, 9e3, 6.1e3, None, 'km')}[phase]
    m = (4e4, 9e4, 6e4, None, 'kg') if 'desc' in phase else (40.0, 100.0, 75.0, None, 'Mg')
    h = heights[phase]
    return [states('altitude', h[4], *h[:4], h[1]), states('mass', m[4], *m[:4], 2 * m[2]),
            states('distance', d[4], *d[:4], 2 * d[2]), times(False)[:PRIME], RATES2]


def plan(case):
    """phase_info of the case, and what it means: [(phase, meaning)]."""
    a, b = case['row']
    base = dict(case, reserve=1 if case['eom'] == 'energy' and (a + b) % 2 else 0)
    info = c19.phases(base)
    meaning = []
    subjects = [n for n in info if n in (ALTITUDES if case['eom'] == 'energy' else ('climb1', 'climb2', 'desc1', 'desc2'))]
    for i, n in enumerate(subjects):
        opts = info[n]['user_options']
        dims = (energy_dims if case['eom'] == 'energy' else gasp_dims)(n)
        for j, alts in enumerate(dims):
            o, says = alts[(a + j * b + i) % PRIME]
            o = copy.deepcopy(o)
            both = {**opts.get('constraints', {}), **o.get('constraints', {})} if 'constraints' in o else None
            for k in list(opts):        # nothing of the model mission remains
                if k.startswith(prefixes(alts)) and not k.endswith('direct_link'):
                    del opts[k]
            opts.update(o)
            if both is not None:
                opts['constraints'] = both
            meaning += [(n, s) for s in says]
        if case['eom'] == 'energy':
            info[n]['initial_guesses'] = {'distance': ([100.0 + 1200.0 * i, 1200.0 + 1200.0 * i], 'km'), 'mach': ([0.65, 0.7], 'unitless'), 'altitude': ([9.0, 9.5], 'km'),
                                          'time': ([400.0, 40.0] if n == 'spare_0' else [2.0 if i == 0 else 60.0 * i, 50.0], 'min')}
        if n == 'spare_0':
            meaning.append((n, ('start', 100.0, 900.0, 'min')))
    return info, meaning


def prefixes(alts):
    return tuple({s for o, _ in alts for k in o for s in ('mach_', 'altitude_', 'mass_', 'distance_', 'time_duration', 'time_initial')
                  if k.startswith(s) and not (s == 'time_initial' and not any('time_initial' in x for x in o))}) or ('//',)


# ---------------------------------------------------------------- what the optimiser is given
def convert(v, a, b):
    from openmdao.utils.units import convert_units

    if v is None or a == b or 'unitless' in (a, b) or a is None or b is None:
        return v
    return convert_units(v, a, b)


def same(got, want):
    if want is None and got is None:
        return True
    got = np.asarray(got, dtype=float)
    if want is None:
        return bool(np.all(np.abs(got) > 1e20))
    return bool(np.all(np.abs(got - want) <= 1e-7 * max(1e-6, abs(want))))


def scaled(m, x):
    """As the optimiser sees it."""
    add, mul = m.get('total_adder'), m.get('total_scaler')
    return (x + (0.0 if add is None else add)) * (1.0 if mul is None else mul)


def tail(name):
    return name.split(':')[-1]


class Given:
    """The problem the optimiser is given."""

    def __init__(self, p):
        with pre.quiet():
            self.vars = dict(p.model.get_design_vars(recurse=True))
            self.held = dict(p.model.get_constraints(recurse=True))
        self.p = p
        meta = p.model._var_allprocs_abs2meta['output']
        self.units = {s: meta[s]['units'] for s in {m['source'] for m in [*self.vars.values(), *self.held.values()]}}

    def var(self, phase, name):
        out = []
        for n, m in self.vars.items():
            if f'.{phase}.' in '.' + n and tail(n.split('.')[-1]) == name:
                u = m['units'] or self.units[m['source']]
                out.append((m, u))
        return out

    def limits(self, phase, name):
        """Constraints on a quantity of a phase: (lower, upper, units, where)."""
        out = []
        for n, m in self.held.items():
            s = m['source']
            if f'.{phase}.' not in s or 'timeseries' not in s:
                continue
            if s.split('.')[-1] != name:        # it may go by another name
                try:
                    a, b = pre.value(self.p, s, m['units']), pre.value(self.p, f'traj.{phase}.timeseries.{name}', m['units'])
                except (TypeError, KeyError, ValueError):
                    continue
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-12, atol=0):
                    continue
            eq = m.get('equals')
            lo, hi = (eq, eq) if eq is not None else (m['lower'], m['upper'])
            size = np.size(pre.value(self.p, s))
            if m.get('indices') is None:
                where = 'path'
            else:
                idx = set(np.asarray(m['indices'].as_array()).ravel() % size)
                where = 'path' if len(idx) == size > 1 else 'initial' if idx == {0} else 'final' if idx == {size - 1} else 'some'
            out.append((lo, hi, m['units'] or self.units[s], where))
        return out


def pinned(gaps, points):
    """Is a gap (one value per point) held at zero by an equality constraint?"""
    gaps = np.asarray(gaps)
    if np.ptp(gaps) <= 1e-9 * np.max(np.abs(gaps)):
        return None             # whatever the optimiser does, it stays
    for n, (m, _) in points[0][1].items():
        if m.get('equals') is None:
            continue
        rows = [np.asarray(c[n][1], dtype=float) for _, c, *_ in points]
        if any(r.shape != rows[0].shape for r in rows):
            continue
        for col in (np.array(rows) - np.asarray(m['equals'], dtype=float)).T:
            if not np.any(col):
                continue
            i = np.argmax(np.abs(gaps))
            k = col[i] / gaps[i]
            if abs(k) > 1e-9 and np.allclose(col, k * gaps, rtol=1e-6, atol=1e-8 * np.max(np.abs(col))):
                return n
    return None


def conditions(p):
    """As c19.conditions, in the units of the constraint."""
    out = {}
    with pre.quiet():
        for n, m in p.model.get_constraints(recurse=True).items():
            v = pre.value(p, m['source'], m['units']).ravel()
            if m.get('indices') is not None:
                v = v[np.asarray(m['indices'].as_array()).ravel()]
            out[n] = (m, v)
    return out


def check_options(run, case, p, meaning):
    G = Given(p)
    points = []
    lines = {}
    for k in range(3):
        c19.shake(p, k)
        with pre.quiet():
            p.run_model()
        run.state((repr(case), k))
        points.append((None, conditions(p)))
        for ph, say in meaning:
            var = say[1] if say[0] in ('pin', 'order') else 'time'
            u = {'pin': say[-1], 'order': None}.get(say[0], 's')
            lines.setdefault((ph, var, u), []).append(pre.value(p, f'traj.{ph}.timeseries.{var}', u).ravel())
            if say[0] == 'order':
                lines.setdefault((ph, 'time', 's'), [])
                if len(lines[ph, 'time', 's']) <= k:
                    lines[ph, 'time', 's'].append(pre.value(p, f'traj.{ph}.timeseries.time', 's').ravel())
    for key in lines:
        n = len(lines[key]) // 3
        lines[key] = lines[key][::n]

    def fail(what, msg, ph, say):
        run.violation(f'{what} {say[1] if len(say) > 1 else ""} in {case["eom"]}', f'{ph}: {say}: {msg}',
                      dict(case, phase=ph, asked=list(say)))

    for ph, say in meaning:
        run.transitions += 1
        kind = say[0]
        run.seen((case['eom'], ph, say), outcome=kind)
        if kind == 'opt':
            if bool(G.var(ph, say[1])) != say[2]:
                fail('choice', 'the optimiser does ' + ('not ' if say[2] else '') + 'choose it', ph, say)
        elif kind == 'bounds':
            for m, u in G.var(ph, say[1]):
                for end, want in (('lower', say[2]), ('upper', say[3])):
                    if not same(m[end], convert(want, say[4], u)):
                        fail('bound', f'{end} bound is {m[end]} {u}', ph, say)
        elif kind == 'scale':
            for m, u in G.var(ph, say[1]):
                # (x - zero) / (one - zero)
                one, zero = (scaled(m, convert(x, say[4], u)) for x in (say[2], say[3] or 0.0))
                if not (np.allclose(one, 1, atol=1e-7) and np.allclose(zero, 0, atol=1e-7)):
                    fail('scale', f'the optimiser sees {one} and {zero}', ph, say)
        elif kind == 'goal':
            got = [m for n, m in G.held.items() if f'.{ph}.' in n and m.get('equals') is not None
                   and 'timeseries' in m['source'] and m['source'].split('.')[-1] == say[1]]
            seen = [scaled(m, np.asarray(m['equals']) + convert(say[2], say[3], m['units'] or say[3])) - scaled(m, np.asarray(m['equals']))
                    for m in got]
            if not any(np.allclose(np.abs(x), 1, atol=1e-7) for x in seen):
                fail('scale of end value', f'the optimiser sees {seen}', ph, say)
        elif kind == 'pin':
            gaps = [r[say[2]] - say[3] for r in lines[ph, say[1], say[4]]]
            tol = 1e-9 * max(1.0, abs(say[3]))
            if max(np.abs(gaps)) > tol and not pinned(gaps, points):
                fail('end value', f'it flies {say[3] + gaps[0]} and nothing makes it {say[3]}', ph, say)
        elif kind == 'order':
            for t, y in zip(lines[ph, 'time', 's'], lines[ph, say[1], None]):
                x = (t - t[0]) / (t[-1] - t[0])
                c = np.polynomial.Polynomial.fit(x, y, say[2])
                if np.max(np.abs(c(x) - y)) > 1e-7 * max(1e-3, np.max(np.abs(y))):
                    fail('polynomial', f'it is not a polynomial: {y.tolist()}', ph, say)
                    break
        elif kind == 'limit':
            got = G.limits(ph, say[1])
            ok = [w for lo, hi, u, w in got if same(lo, convert(say[3], say[5], u) if say[3] is not None else None)
                  and same(hi, convert(say[4], say[5], u) if say[4] is not None else None)]
            if say[2] not in ok:
                fail('limit', f'the optimiser is held to {got}', ph, say)
        elif kind == 'nolimit':
            got = [g for g in G.limits(ph, say[1]) if len(say) == 2 or g[3] in ('path', say[2])]
            if got:
                fail('limit', f'the optimiser is held to {got} without having been asked', ph, say)
        elif kind in ('span', 'start'):
            lo, hi = (convert(x, say[3], 's') for x in say[1:3])
            rows = lines[ph, 'time', 's']
            got = [r[-1] - r[0] if kind == 'span' else r[0] for r in rows]
            V = G.var(ph, 't_duration' if kind == 'span' else 't_initial')
            if lo == hi:
                if V or max(abs(g - lo) for g in got) > 1e-7 * max(1.0, lo):
                    fail(kind, f'it is {got}, and {"free" if V else "fixed"}', ph, say)
            elif not V:
                fail(kind, 'it is fixed', ph, say)
            else:
                for m, u in V:
                    if not (same(m['lower'], convert(lo, 's', m['units'] or u)) and same(m['upper'], convert(hi, 's', m['units'] or u))):
                        fail(kind, f'the optimiser may choose {m["lower"]} to {m["upper"]}', ph, say)
    # whatever is scaled is scaled by a positive finite factor
    for what, table in (('choice', G.vars), ('constraint', G.held)):
        for n, m in table.items():
            s = m.get('total_scaler', m.get('scaler'))
            s = 1.0 if s is None else np.asarray(s, dtype=float)
            run.transitions += 1
            if not np.all(np.isfinite(s)) or np.any(s == 0):
                run.violation('scaling', f'{what} {n} is scaled by {s}', dict(case))


# ---------------------------------------------------------------- objectives and problem types
def check_goal(run, case):
    import aviary.api as av
    from aviary.api import Aircraft, Mission
    from aviary.variable_info.enums import ProblemType

    info = c19.phases(case)
    kind = getattr(ProblemType, case['problem'])
    with pre.quiet():
        p = av.AviaryProblem(verbosity=0)
        p.load_inputs(pre.find(case['aircraft']), info)
        p.problem_type = kind
        c19.data(case)(p.aviary_inputs)
        p.check_and_preprocess_inputs()
        p.build_model()
        p.add_driver('SLSQP', max_iter=0)
        p.add_design_variables()
        kw = {k: v for k, v in (('objective_type', case.get('objective')), ('ref', case.get('ref'))) if v is not None}
        p.add_objective(**kw)
        p.setup(check=False)
        p.final_setup()
    last = p.model.main_phases[-1]
    rows = []
    for k in range(3):
        c19.shake(p, k)
        with pre.quiet():
            p.run_model()
            got = [float(np.ravel(v)[0]) for v in p.driver.get_objective_values().values()]
        run.state((repr(case), k))
        g = lambda n, u: float(pre.value(p, n, u).ravel()[0])
        end = lambda v, u: pre.value(p, f'traj.{last}.timeseries.{v}', u).ravel()[-1]
        climb = g(Mission.Takeoff.ASCENT_DURATION, 's') / 30
        fuel = (g(Mission.GROSS_MASS, 'lbm') - g(Mission.ZERO_FUEL_MASS, 'lbm')) / 10000 + climb
        want = {
            'mass': end('mass', 'kg'),
            'time': end('time', 's'),
            'fuel_burned': g(Mission.GROSS_MASS, 'lbm') - end('mass', 'lbm'),
            'fuel': fuel,
            'hybrid_objective': -end('mass', 'lbm') / float(p.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, 'lbm'))
            + end('time', 'h') / 5,
            'range': -end('distance', 'nmi') / 1000 + climb,
        }[case.get('objective') or ('range' if case['problem'] == 'OFF_DESIGN_MAX_RANGE' else 'fuel')]
        rows.append((got, want))
    run.transitions += 3
    run.seen((case['eom'], case['problem'], case.get('objective'), case.get('ref')), outcome='goal')
    if any(len(got) != 1 for got, _ in rows):
        run.violation('number of objectives', f'{len(rows[0][0])} objectives', case)
        return
    f = np.array([r[0][0] for r in rows])
    w = np.array([r[1] for r in rows])
    df, dw = np.diff(f), np.diff(w)
    i = np.argmax(np.abs(dw))
    if abs(dw[i]) < 1e-9 * np.max(np.abs(w)):       # nothing the optimiser may choose matters to it
        df, dw = f, w
        i = 0
    slope = df[i] / dw[i]
    sign = 1 if (case.get('ref') or 1) > 0 else -1
    if not np.allclose(df, slope * dw, rtol=1e-5, atol=1e-7 * np.max(np.abs(df))) or slope * sign <= 0:
        run.violation(f'objective {case.get("objective")}', f'the optimiser minimises {f.tolist()}, '
                      f'asked for {w.tolist()}', case)
    if 'ref' in case and case.get('objective') != 'hybrid_objective' and not np.allclose(f * case['ref'], w, rtol=1e-6):
        run.violation(f'scale of objective {case.get("objective")}', f'{f.tolist()} x {case["ref"]} is not {w.tolist()}', case)
    # the masses the optimiser may choose, and what ties them
    G = Given(p)
    masses = {n: m for n, m in G.vars.items() if n in (Aircraft.Design.GROSS_MASS, Mission.GROSS_MASS)}
    expected = {'SIZING': {Aircraft.Design.GROSS_MASS, Mission.GROSS_MASS}, 'OFF_DESIGN_MIN_FUEL': {Mission.GROSS_MASS},
                'OFF_DESIGN_MAX_RANGE': set()}[case['problem']]
    run.transitions += 3
    if set(masses) != expected:
        run.violation('masses to choose', f'the optimiser chooses {sorted(masses)}, not {sorted(expected)}', case)
    if case['problem'] == 'OFF_DESIGN_MIN_FUEL':
        m = masses.get(Mission.GROSS_MASS)
        most = float(p.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, 'lbm'))
        if m is not None and not same(m['upper'], convert(most, 'lbm', m['units'] or 'lbm')):
            run.violation('heaviest takeoff', f'the aircraft is sized for {most} lbm, the mission may take off with {m["upper"]}', case)
    C = conditions(p)
    held = Mission.Constraints.RANGE_RESIDUAL in C and C[Mission.Constraints.RANGE_RESIDUAL][0].get('equals') is not None
    need = {'SIZING': case['eom'] == '2dof' or 'target_range' in info['post_mission'], 'OFF_DESIGN_MIN_FUEL': True,
            'OFF_DESIGN_MAX_RANGE': False}[case['problem']]
    if held != need:
        run.violation('range held', f'the range is {"" if held else "not "}held', case)
    if case['problem'] == 'SIZING':
        # the mission takes off with the mass the aircraft is sized for
        diff, points = [], []
        for a, b in ((1.0, 1.0), (1.01, 1.0), (1.0, 1.02)):
            with pre.quiet():
                p.set_val(Aircraft.Design.GROSS_MASS, 170e3 * a, 'lbm')
                p.set_val(Mission.GROSS_MASS, 169e3 * b, 'lbm')
                p.run_model()
            diff.append(169e3 * b / (170e3 * a) - 1)
            points.append((None, conditions(p)))
        if not any(tie(n, diff, points) for n in points[0][1]):
            run.violation('masses tied', 'the mission need not take off with the mass the aircraft is sized for', case)


def tie(n, diff, points):
    """An equality whose residual has the sign, and vanishes with, the difference."""
    m = points[0][1][n][0]
    if m.get('equals') is None:
        return False
    rows = np.array([c[n][1] - np.asarray(m['equals'], dtype=float) for _, c in points])
    if rows.ndim != 2 or rows.shape[1] != 1:
        return False
    r = rows[:, 0] / np.array(diff)
    return bool(np.all(np.abs(r) > 0) and np.ptp(r) <= 0.05 * np.max(np.abs(r)))


def check(run, chunk):
    for case in chunk:
        with run.guard(repr(case)), tempfile.TemporaryDirectory() as d:
            here = os.getcwd()
            os.chdir(d)
            try:
                if 'row' in case:
                    info, meaning = plan(case)
                    p = pre.mission(pre.find(case['aircraft']), c19.data(case), info, run=False)
                    check_options(run, case, p, meaning)
                else:
                    check_goal(run, case)
            finally:
                os.chdir(here)


def cases(quick):
    E, G = 'advanced_single_aisle_FLOPS', 'small_single_aisle_GASP'
    out = []
    # an orthogonal array: all pairs of alternatives of two groups of options; any one row of b
    # contains every alternative of every group in every phase
    for b in ((1, 3) if quick else range(PRIME)):
        for a in range(PRIME):
            out.append(dict(aircraft=E, eom='energy', row=(a, b)))
            if not quick or b == 1:
                out.append(dict(aircraft=G, eom='2dof', row=(a, b)))
    for k, (eom, problem, goal) in enumerate(itertools.product(
            ('energy', '2dof'), ('SIZING', 'OFF_DESIGN_MIN_FUEL', 'OFF_DESIGN_MAX_RANGE'),
            (None, 'mass', 'time', 'hybrid_objective', 'fuel_burned', 'fuel'))):
        if quick and eom == '2dof' and (k % 6 + k // 6) % 3:
            continue
        c = dict(aircraft=E if eom == 'energy' else G, eom=eom, problem=problem, reserve=(k + k // 6) % 3, free='both',
                 indirect=k % 2 == 1)
        if goal:
            c['objective'] = goal
        if (k + k // 6) % 2:
            c['ref'] = -7e4 if goal == 'mass' else 1234.0
        out.append(c)
    return out


def main(run):
    run.rule = 'one case = one mission (options of every phase, or objective and problem type) x point'
    pmap(run, check, cases(run.quick), chunk=1)
