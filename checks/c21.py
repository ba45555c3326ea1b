"""Takeoff and landing distances and speeds against flying them step by step."""
import itertools

import numpy as np

from mc import pre
from mc.harness import pmap

G = 9.80665
FT, LB, NM = .3048, .45359237, 1852.0
L, T = 'mission:landing:', 'mission:takeoff:'
DOF2 = [(L + 'airport_altitude', 'ft', (0.0, 5000.0, -400.0)), (L + 'obstacle_height', 'ft', (50.0, 35.0)), (L + 'maximum_sink_rate', 'ft/min', (900.0, 650.0)),
        (L + 'glide_to_stall_ratio', 'unitless', (1.3, 1.18)), (L + 'maximum_flare_load_factor', 'unitless', (1.15, 1.3)), (L + 'touchdown_sink_rate', 'ft/s', (5.0, 2.5)),
        (L + 'braking_delay', 's', (1.0, 2.5)), (L + 'braking_friction_coefficient', 'unitless', (.4, .3))]
ENERGY = [(T + 'airport_altitude', 'ft', (0.0, 3000.0, 8000.0)), (T + 'lift_coefficient_max', 'unitless', (2.0, 2.4)), (T + 'climbout_thrust_fraction', 'unitless', (1.0, .5)), (T + 'fuel_mass', 'lbm', (577.0, 200.0)), (L + 'lift_coefficient_max', 'unitless', (2.5, 3.1)),
          ('mission:taxi:fuel_mass_taxi_out', 'lbm', (0.0, 300.0))]


def air(h):
    """Density of the standard atmosphere at a geometric altitude in the troposphere."""
    z = 6356766 * h / (6356766 + h)
    return 1.225 * (1 - 2.25577e-5 * z) ** 4.25588


def near(a, b, tol):
    return abs(a - b) <= tol * abs(b)


def braking(v, mass, s, rho, cd, cl, mu, thrust):
    """Distance to stop from speed v."""
    x, w = np.polynomial.legendre.leggauss(40)
    u = v * (x + 1) / 2
    q = .5 * rho * u * u * s
    a = (q * cd + mu * (mass * G - q * cl) - thrust) / mass
    return float(np.sum(w * v / 2 * u / a))


def grid(dims, first):
    """All combinations of the settings with the first one given."""
    for rest in itertools.product(*[d[2] for d in dims[1:]]):
        yield (first,) + rest


def get(p, name, units):
    return float(np.ravel(pre.value(p, name, units))[-1])


def do_dof2(run, file, first):
    p = pre.mission(pre.find(file))
    done = {}
    for case in grid(DOF2, first):
        for (name, units, _), v in zip(DOF2, case):
            p.set_val(name, v, units=units)
        with pre.quiet():
            p.run_model()
        alt, obs, sink, ratio, load, td, delay, mu = case
        alt, obs, sink, td = alt * FT, obs * FT, sink * FT / 60, td * FT
        key = f'{file}: landing at an airport at {case[0]:.0f} ft'
        where = f'{key} ({", ".join(f"{d[0].split(":")[-1]} {v}" for d, v in zip(DOF2[1:], case[1:]))})'
        mass, s = get(p, 'mission:final_mass', 'kg'), get(p, 'aircraft:wing:area', 'm**2')
        rho = air(alt)
        vs = np.sqrt(2 * mass * G / (rho * s * get(p, 'landing.CL_max', 'unitless')))
        va, vt = vs * ratio, vs * (1 + ratio) / 2
        total = get(p, L + 'ground_distance', 'm')
        th, gt = np.arcsin(sink / va), td / va
        r = va * va / G / (load - 1)
        flare = r * (np.cos(gt) - np.cos(th))
        parts = dict(glide=(obs - flare) / np.tan(th), flare=r * (np.sin(th) - np.sin(gt)), delay=vt * delay,
                     braking=braking(vt, mass, s, rho, get(p, 'landing.touchdown_CD', 'unitless'), get(p, 'landing.touchdown_CL', 'unitless'), mu, get(p, 'landing.thrust_idle', 'N')))
        for what, got, want, tol in (('stall speed', get(p, L + 'stall_velocity', 'm/s'), vs, 2e-3), ('approach speed', get(p, L + 'initial_velocity', 'm/s'), va, 2e-3),
                                     ('initial altitude', get(p, L + 'initial_altitude', 'm'), alt + obs, 1e-6), ('distance', total, sum(parts.values()), 6e-3)):
            if not near(got, want, tol):
                run.violation(f'{key}: {what}', f'{where}: {what} {got:.8g}, expected {want:.8g}' + (f' ({ {k: round(float(v), 2) for k, v in parts.items()} })' if what == 'distance' else ''), case)
        # what one setting changes, without the tolerance of the parts it does not touch
        done[case] = total
        for i, name, d in ((1, 'obstacle height', lambda a, b: (a - b) * FT / np.tan(th)), (6, 'delay', lambda a, b: (a - b) * vt)):
            other = case[:i] + (DOF2[i][2][0],) + case[i + 1:]
            if other in done and other != case:
                want = d(case[i], other[i])
                if not near(total - done[other], want, 4e-3):
                    run.violation(f'{key}: {name}', f'{where}: {name} {other[i]} to {case[i]} changes the distance by {total - done[other]:.8g} m, expected {want:.8g} m', case)
        run.transitions += 1
        run.seen((file,) + case, outcome='landing')


def do_energy(run, file, first):
    info = pre.default_phase_info(False)
    info['pre_mission']['include_takeoff'] = True
    info['post_mission']['include_landing'] = True
    p = pre.mission(pre.find(file), phase_info=info)
    for case in grid(ENERGY, first):
        for (name, units, _), v in zip(ENERGY, case):
            p.set_val(name, v, units=units)
        with pre.quiet():
            p.run_model()
        alt, clmax, frac, fuel, clland, taxi = case
        key = f'{file}: takeoff at an airport at {alt:.0f} ft'
        where = f'{key} ({", ".join(f"{d[0].split(":", 1)[-1]} {v}" for d, v in zip(ENERGY[1:], case[1:]))})'
        gross, s = get(p, 'mission:gross_mass', 'lbm'), get(p, 'aircraft:wing:area', 'ft**2')
        thrust = get(p, 'aircraft:propulsion:total_scaled_sls_thrust', 'lbf')
        w, lod = gross - taxi, get(p, T + 'lift_over_drag', 'unitless')
        rho, sigma = air(alt * FT), air(alt * FT) / 1.225
        v2 = np.sqrt(2 * w * LB * G / (rho * s * FT ** 2 * clmax * .66))
        roll = 17 * w / (s * clmax * (thrust / w - (.2 + .0055 * w / s) / lod))
        rotate = 140 * np.sqrt(w / (s * clmax * sigma))
        climb = 140 * np.sqrt(w / s) / (1 + frac * thrust / w - .9 / lod)
        end, h = get(p, 'mission:final_mass', 'lbm'), get(p, L + 'initial_altitude', 'ft')
        last = [n for n in p.model.mission_info if not p.model.mission_info[n]['user_options'].get('reserve')][-1]
        flown = get(p, f'traj.{last}.timeseries.altitude', 'ft')
        rho2 = air(h * FT)
        va = 1.3 * np.sqrt(2 * end * LB * G / (rho2 * s * FT ** 2 * clland))
        field = 2500 + 105 * end / (s * rho2 / 1.225 * clland)
        for what, got, want, tol in (('speed', get(p, T + 'final_velocity', 'm/s'), v2, 2e-3), ('distance', get(p, T + 'ground_distance', 'ft'), roll + rotate + climb, 1e-3),
                                     ('mass', get(p, T + 'final_mass', 'lbm'), w - fuel, 1e-8), ('altitude at the end', get(p, T + 'final_altitude', 'ft'), alt + 35, 1e-8),
                                     ('Mach number', get(p, T + 'final_mach', 'unitless'), v2 / np.sqrt(1.4 * 287.053 * (288.15 - .0065 * alt * FT)), 3e-3),
                                     ('altitude of the landing', h, flown, 1e-6), ('approach speed', get(p, L + 'initial_velocity', 'm/s'), va, 2e-3),
                                     ('landing field length', get(p, L + 'ground_distance', 'ft'), field, 2e-3)):
            if not near(got, want, tol):
                run.violation(f'{key}: {what}', f'{where}: {what} {got:.8g}, expected {want:.8g}', case)
        run.transitions += 1
        run.seen((file,) + case, outcome='takeoff')


def check(run, chunk):
    for kind, file, first in chunk:
        with run.guard(f'{file}: {"landing" if kind == "dof2" else "takeoff"} at an airport at {first:.0f} ft'):
            (do_dof2 if kind == 'dof2' else do_energy)(run, file, first)


def main(run):
    run.rule = 'one case = one aircraft with one combination of airport altitudes and takeoff or landing settings, analysed with its mission'
    dof2 = ['large_single_aisle_1_GASP', 'small_single_aisle_GASP']
    energy = ['advanced_single_aisle_FLOPS', 'large_single_aisle_2_FLOPS']
    if not run.quick:
        energy += ['large_single_aisle_1_FLOPS', 'large_single_aisle_2_altwt_FLOPS']
    jobs = [('dof2', f, a) for f in dof2 for a in DOF2[0][2]] + [('energy', f, a) for f in energy for a in ENERGY[0][2]]
    pmap(run, check, jobs, chunk=1)
