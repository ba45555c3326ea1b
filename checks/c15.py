"""C15: flight conditions follow the selected atmosphere at every altitude and speed."""
import itertools
import os
import warnings

import numpy as np

from mc.harness import VERIF, pmap

# constants of the three planets, written down from the documentation of the models
PLANET = {'Earth': dict(radius=6371009.0, M=28.97, gamma=1.4, S=110.4, beta=1.458e-6),
          'Mars': dict(radius=3386200.0, M=43.34, gamma=1.36, S=222.0, beta=1.503e-6),
          'Venus': dict(radius=6051800.0, M=43.45, gamma=1.29, S=222.0, beta=1.503e-6)}
RS = 8314.32
DATA = os.path.join(VERIF, 'data', 'atmosphere.npz')
FT, SLUG = 0.3048, 14.593902937206364
MODELS = ('STANDARD', 'TROPICAL', 'POLAR', 'HOT', 'COLD', 'MARS_REFERENCE', 'MARS_HELLAS_HOT', 'MARS_HELLAS_COLD',
          'MARS_EQUATOR_HOT', 'MARS_EQUATOR_COLD', 'MARS_POLAR_HOT', 'MARS_POLAR_COLD', 'VENUS_REFERENCE')


def planet(model):
    return PLANET[{'M': 'Mars', 'V': 'Venus'}.get(model[0], 'Earth') if model.split('_')[0] in ('MARS', 'VENUS') else 'Earth']


_TAB = {}


def table(model):
    """Altitude (geopotential, m), temperature (K), pressure (Pa) and density (kg/m**3)."""
    if model not in _TAB:
        with np.load(DATA) as f:
            _TAB[model] = f[model]
    return _TAB[model]


def spline(model, column, h, slope=False):
    """The Akima spline through the tabulated values, as OpenMDAO computes it."""
    from openmdao.components.interp_util.interp import InterpND

    t = table(model)
    i = InterpND(method='1D-akima', points=t[0], values=t[column], extrapolate=True)
    h = np.atleast_1d(h)
    x = np.r_[h, h] if len(h) == 1 else h
    if slope:
        return i.interpolate(x, compute_derivative=True)[1].ravel()[: len(h)]
    return i.interpolate(x).ravel()[: len(h)]


def sea_level(model):
    return float(spline(model, 3, 0.0)[0])


def expected(model, h, dT):
    c = planet(model)
    T, P, rho = (spline(model, k, h) for k in (1, 2, 3))
    T = T + dT
    rho = 1 / (1 / rho + RS / c['M'] * dT / P)
    return dict(temperature=T, static_pressure=P, density=rho, speed_of_sound=np.sqrt(c['gamma'] * RS / c['M'] * T),
                dynamic_viscosity=c['beta'] * T ** 1.5 / (T + c['S']))


UNITS = dict(temperature='degK', static_pressure='Pa', density='kg/m**3', speed_of_sound='m/s', dynamic_viscosity='Pa*s')


def altitudes(model, deep):
    a = table(model)[0]
    d = np.diff(a)[:, None]
    fr = np.array([1e-7, .1, .25, .5, .75, .9, 1 - 1e-7] if not deep else [1e-9, 1e-7, 1e-4] + [k / 40 for k in range(1, 40)] + [1 - 1e-4, 1 - 1e-7, 1 - 1e-9])
    return np.unique(np.r_[a, (a[:-1, None] + d * fr).ravel()])


_P = {}


def problem(model, n, speed='TAS', density=None, **options):
    """The flight conditions as a mission uses them."""
    key = (model, n, speed, density, tuple(sorted(options.items())))
    if key not in _P:
        import openmdao.api as om

        from aviary.subsystems.atmosphere.atmosphere import Atmosphere
        from aviary.variable_info.enums import AtmosphereModel, SpeedType

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = om.Problem(reports=None)
            p.model.add_subsystem('a', Atmosphere(num_nodes=n, input_speed_type=SpeedType[speed], **options), promotes=['*'])
            p.model_options['*'] = {'settings:atmosphere_model': AtmosphereModel[model]}
            if density is not None:
                p.model_options['*']['mission:sea_level_density'] = density
            p.setup()
            p.final_setup()
        if len(_P) > 3:
            _P.clear()
        _P[key] = p
    return _P[key]


def column(model, h_def, dT, alt, run, form='group'):
    """The atmosphere at altitudes (m)."""
    if form == 'group':
        p = problem(model, len(alt), h_def=h_def, delta_T_Celcius=dT)
    else:
        import openmdao.api as om

        from aviary.subsystems.atmosphere.atmosphere import AtmosphereComp
        from aviary.variable_info.enums import AtmosphereModel

        p = om.Problem(reports=None)
        p.model.add_subsystem('a', AtmosphereComp(num_nodes=len(alt), h_def=h_def, delta_T_Celcius=dT,
                                                  **{'settings:atmosphere_model': AtmosphereModel[model]}), promotes=['*'])
        p.setup()
    p.set_val('altitude', alt, units='m')
    p.run_model()
    out = {k: p.get_val(k, units=u).copy() for k, u in UNITS.items()}
    out['dsos_dh'] = p.get_val('dsos_dh', units='1/s').copy()
    return out


def worst(a, b, scale=None):
    with np.errstate(all='ignore'):
        e = np.abs(a - b) / (np.abs(b) if scale is None else scale)
    e = np.where(np.isfinite(e), e, np.inf)
    j = int(np.argmax(e))
    return e[j], j


def do_tables(run, jobs):
    """Temperature, pressure, density and what follows from them, at and between the tabulated altitudes."""
    for model, h_def, dT, form, deep in jobs:
        h = altitudes(model, deep)
        r = planet(model)['radius']
        alt = h if h_def == 'geopotential' else r * h / (r - h)
        exp = expected(model, h, dT)
        key = f'tables {model} {h_def} dT={dT} {form}'
        with run.guard(key):
            out = column(model, h_def, dT, alt, run, form)
            for k, e in exp.items():
                # the spline chooses between slopes that are equal to rounding in a few intervals
                tol = 1e-4 if k == 'density' and model in ('POLAR', 'TROPICAL') else 2e-6
                w, j = worst(out[k], e)
                if not w < tol:
                    run.violation(f'{key} {k} at {h[j]:.6g} m', f'{k} {out[k][j]:.9g}, expected {e[j]:.9g} at altitude {alt[j]:.9g} m')
            # the table itself, without the interpolant
            t = table(model)
            at = np.searchsorted(h, t[0])
            for k, y in (('temperature', t[1] + dT), ('static_pressure', t[2])) + ((('density', t[3]),) if dT == 0 else ()):
                w, j = worst(out[k][at], y)
                if not w < 1e-9 * (1e4 if h_def == 'geometric' else 1):
                    run.violation(f'{key} {k} at node {t[0][j]:.6g} m', f'{k} {out[k][at][j]:.9g}, tabulated {y[j]:.9g}')
            # slope of the speed of sound with altitude, at the tabulated altitudes inside the table
            slope = spline(model, 1, t[0], slope=True)
            zh = (r / (r + alt[at])) ** 2 if h_def == 'geometric' else 1.0
            c = planet(model)
            e = 0.5 * np.sqrt(c['gamma'] * RS / c['M'] / (t[1] + dT)) * slope * zh
            w, j = worst(out['dsos_dh'][at][1:-1], e[1:-1], np.max(np.abs(e)))
            if not w < 1e-6:
                run.violation(f'{key} slope at node {t[0][j + 1]:.6g} m', f'speed of sound changes by {out["dsos_dh"][at][j + 1]:.9g} 1/s, expected {e[j + 1]:.9g}')
        run.seen([model, h_def, dT, form])
        run.evaluations += len(h) - 1
        run.transitions += len(h)


def do_speeds(run, jobs):
    """True and equivalent airspeed, Mach number and dynamic pressure describe the same flight condition."""
    for model, kind, dT, density, h_def in jobs:
        t = table(model)[0]
        h = np.unique(np.r_[t[:: max(1, len(t) // 12)], t[-1], 0.0, 1234.5, 10000.0])
        h = h[(h >= t[0]) & (h <= t[-1])]
        r = planet(model)['radius']
        atm = expected(model, h, dT)
        grid = (0.0, 1e-3, 0.05, 0.3, 0.78, 0.999, 1.0, 1.001, 1.6, 3.0)
        rho0 = sea_level(model) if density is None else density[0] * {'kg/m**3': 1.0, 'slug/ft**3': SLUG / FT ** 3}[density[1]]
        hh, mach = (x.ravel() for x in np.meshgrid(h, grid, indexing='ij'))
        sos, rho = (np.repeat(atm[k], len(grid)) for k in ('speed_of_sound', 'density'))
        tas = mach * sos
        eas = tas * np.sqrt(rho / rho0)
        exp = {'velocity': (tas, 'm/s'), 'EAS': (eas, 'm/s'), 'mach': (mach, 'unitless'), 'dynamic_pressure': (0.5 * rho * tas ** 2, 'Pa')}
        given = {'TAS': 'velocity', 'EAS': 'EAS', 'MACH': 'mach'}[kind]
        key = f'speeds {model} {kind} dT={dT} rho0={density} {h_def}'
        with run.guard(key):
            # the model's own sea-level density is what preprocessing puts into the options
            p = problem(model, len(hh), kind, density or (rho0, 'kg/m**3'), delta_T_Celcius=dT, h_def=h_def)
            p.set_val('altitude', hh if h_def == 'geopotential' else r * hh / (r - hh), units='m')
            p.set_val(given, exp[given][0], units=exp[given][1] if given != 'mach' else None)
            p.run_model()
            for k, (e, u) in exp.items():
                v = p.get_val(k, units=u if k != 'mach' else None)
                w, j = worst(v, e, np.maximum(np.abs(e), 1e-9))
                if not w < (5e-5 if model in ('POLAR', 'TROPICAL') else 1e-5):
                    run.violation(f'{key} {k} at {hh[j]:.6g} m mach {mach[j]}', f'{k} {v[j]:.9g}, expected {e[j]:.9g} {u}')
        run.seen([model, kind, dT, density, h_def])
        run.evaluations += len(hh) - 1
        run.transitions += len(hh)


def do_missions(run, jobs):
    """The selected atmosphere holds in every flight phase of a mission."""
    from mc import pre
    from aviary.variable_info.enums import AtmosphereModel

    for aircraft, model, density in jobs:
        key = f'mission {aircraft} {model} rho0={density}'

        def change(values):
            values.set_val('settings:atmosphere_model', AtmosphereModel[model])
            if density is not None:
                values.set_val('mission:sea_level_density', *density)

        rho0 = sea_level(model) if density is None else density[0]
        r = planet(model)['radius']
        with run.guard(key):
            p = pre.mission(pre.find(aircraft), change, run=False)
            with pre.quiet():
                try:
                    p.run_model()
                except Exception:  # noqa: BLE001 - a mission far from feasible; conditions below are still computed
                    pass
            found = 0
            outs = p.model._var_allprocs_abs2meta['output']
            for a in list(outs):
                if not a.endswith('.temperature'):
                    continue
                base = a[: -len('.temperature')]
                comp = p.model._get_subsystem(base)
                if comp is None or f'{base}.altitude' not in p.model._var_allprocs_abs2meta['input']:
                    continue
                with pre.quiet():
                    alt = p.get_val(f'{base}.altitude', units='m').ravel()
                h = r * alt / (r + alt)
                t = table(model)[0]
                ok = (h >= t[0]) & (h <= t[-1])
                if not ok.any():
                    continue
                exp = expected(model, h, 0.0)
                for k, e in exp.items():
                    v = p.get_val(f'{base}.{k}', units=UNITS[k]).ravel()
                    w, j = worst(v[ok], e[ok])
                    if not w < 1e-4:
                        run.violation(f'{key} {base} {k}', f'{k} {v[ok][j]:.9g} at {alt[ok][j]:.6g} m, expected {e[ok][j]:.9g} {UNITS[k]}')
                fc = base.rsplit('.', 1)[0] + '.flight_conditions'
                names = {n: f'{fc}.{n}' for n in ('velocity', 'EAS', 'mach', 'dynamic_pressure')}
                known = set(outs) | set(p.model._var_allprocs_abs2meta['input'])
                if all(n in known for n in names.values()):
                    v = {k: p.get_val(n, units={'mach': None, 'dynamic_pressure': 'Pa'}.get(k, 'm/s')).ravel() for k, n in names.items()}
                    rho = exp['density']
                    for k, e in (('EAS', v['velocity'] * np.sqrt(rho / rho0)), ('mach', v['velocity'] / exp['speed_of_sound']),
                                 ('dynamic_pressure', 0.5 * rho * v['velocity'] ** 2)):
                        w, j = worst(v[k][ok], e[ok], np.maximum(np.abs(e[ok]), 1e-6))
                        if not w < 2e-4:
                            run.violation(f'{key} {fc} {k}', f'{k} {v[k][ok][j]:.9g}, expected {e[ok][j]:.9g} at {alt[ok][j]:.6g} m')
                found += 1
            if not found:
                run.violation(key, 'no flight conditions found')
        run.seen([aircraft, model, density], outcome=f'{found} flight conditions')
        run.transitions += found


FAMILIES = dict(tables=do_tables, speeds=do_speeds, missions=do_missions)


def check(run, chunk):
    for family, jobs in chunk:
        FAMILIES[family](run, jobs)


def main(run):
    run.rule = 'one case = one flight condition (model, altitude definition, temperature offset, altitude, speed)'
    deep = not run.quick
    it = itertools.product
    offsets = (0, 15.0, -22.5, 40) if not deep else (0, 1e-3, 5, 15.0, -22.5, -40.0, 40)
    jobs = []
    jobs += [('missions', [j]) for j in missions(deep)]
    jobs += [('tables', [j]) for j in it(MODELS, ('geopotential', 'geometric'), offsets, ('group', 'component'), (deep,))]
    dens = (None, (1.3, 'kg/m**3'), (0.002, 'slug/ft**3'))
    jobs += [('speeds', [(m, k, d, r, g)]) for m, k, d, r, g in
             it(MODELS, ('TAS', 'EAS', 'MACH'), (0, 15.0, -22.5), dens, ('geometric', 'geopotential'))]
    pmap(run, check, jobs, chunk=4)


def missions(deep):
    files = ('advanced_single_aisle_FLOPS', 'large_single_aisle_1_GASP')
    models = MODELS if deep else ('STANDARD', 'TROPICAL', 'POLAR', 'HOT', 'COLD', 'MARS_REFERENCE', 'VENUS_REFERENCE')
    out = [(f, m, None) for f in files for m in models]
    return out + [(f, 'HOT', (1.1, 'kg/m**3')) for f in files]
