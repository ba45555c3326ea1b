"""C16: state rates follow Newton's laws in every formulation of the equations of motion."""
import importlib
import itertools
import warnings

import numpy as np

from mc import pre
from mc.harness import pmap

G0 = 9.80665
LB = 0.45359237
LBF = LB * G0
FT = 0.3048
DEG = np.pi / 180
V, H, X = 'velocity', 'altitude_rate', 'distance_rate'
VD, GD = 'velocity_rate', 'flight_path_angle_rate'
T, D, L, M = 'thrust_net_total', 'drag', 'lift', 'mass'
A, GA = 'angle_of_attack', 'flight_path_angle'
INC, MU = 'aircraft:wing:incidence', 'mission:takeoff:rolling_friction_coefficient'
UNITS = {V: 'm/s', H: 'm/s', X: 'm/s', VD: 'm/s**2', GD: 'rad/s', T: 'N', D: 'N', L: 'N', M: 'kg', A: 'rad', GA: 'rad', INC: 'rad', MU: 'unitless',
         'normal_force': 'N', 'fuselage_pitch': 'rad', 'load_factor': 'unitless', 'required_lift': 'N', 'angle_of_attack_rate': 'rad/s',
         'forces_horizontal': 'N', 'forces_vertical': 'N', 'acceleration_horizontal': 'm/s**2', 'acceleration_vertical': 'm/s**2',
         'climb_gradient_forces_horizontal': 'N', 'climb_gradient_forces_vertical': 'N', 'forces_perpendicular': 'N', 'required_thrust': 'N',
         'thrust_required': 'N', 'thrust_net_max_total': 'N', 'specific_energy_rate': 'm/s', 'specific_energy_rate_excess': 'm/s',
         'density': 'kg/m**3', 'aircraft:wing:area': 'm**2', 'lift_coefficient_max': 'unitless', 'stall_speed': 'm/s',
         'net_alpha_rate': 'rad/s', 'mission:landing:flare_rate': 'rad/s'}


# ---------------------------------------------------------------- the laws
def along(i, g, mu=0.0, alpha=None, clamp=True):
    """Forces and rates of a point mass on a path of angle gamma; SI units."""
    gam = i.get(GA, 0.0)
    a = alpha if alpha is not None else i.get(A, 0.0) - i.get(INC, 0.0)
    W = i[M] * g
    tn = i[T] * np.sin(a)
    N = W - i[L] - tn
    n = np.maximum(N, 0) if clamp else N
    return dict(vdot=(i[T] * np.cos(a) - i[D] - W * np.sin(gam) - mu * n) / i[M],
                gdot=(tn + i[L] - W * np.cos(gam)) / (i[M] * i[V]), N=N, n=n, hdot=i[V] * np.sin(gam), xdot=i[V] * np.cos(gam),
                load=(i[L] + tn) / (W * np.cos(gam)))


def two_dof(mode):
    """What the equations of motion with the wing incidence have to give; mode air, ground or rotation."""
    def f(i, o):
        ground = mode != 'air'
        alpha = 0.0 if mode == 'ground' else None
        r = along(i, G0, i[MU] if ground else 0.0, alpha)
        a = i[INC] if mode == 'ground' else i[A]
        out = {VD: r['vdot'], X: r['xdot'], 'fuselage_pitch': i[GA] - i[INC] + a, 'load_factor': r['load']}
        return out, r
    return f


def f_takeoff(mode):
    def f(i, o):
        out, r = two_dof(mode)(i, o)
        ground = mode != 'air'
        out.update({H: r['hdot'], GD: 0 * i[V] if ground else r['gdot'], 'normal_force': r['n'] if ground else 0 * i[V],
                    'angle_of_attack_rate': (o.get('rotation_pitch_rate', 3.33) * DEG if mode == 'rotation' else 0.0) + 0 * i[V]})
        return out, True
    return f


def f_path(mode):
    def f(i, o):
        out, r = two_dof(mode)(i, o)
        if mode == 'air':
            out.update({H: r['hdot'], GD: r['gdot']})
            return out, True
        out['normal_force'] = r['N']
        return out, r['N'] >= 0  # with more lift than weight there is no ground roll
    return f


def f_groundroll(i, o):
    r = along(i, G0, i[MU])
    return {VD: r['vdot'], X: r['xdot'], H: r['hdot'], GD: 0 * i[V], 'normal_force': r['n'], 'fuselage_pitch': i[GA] - i[INC] + i[A],
            'angle_of_attack_rate': 0 * i[V]}, True


def f_climb(i, o):
    """Climb or descent without acceleration: the excess thrust lifts the aircraft."""
    s = (i[T] - i[D]) / (i[M] * G0)
    ok = np.abs(s) < 1
    gam = np.arcsin(np.where(ok, s, 0))
    return {GA: gam, H: i[V] * np.sin(gam), X: i[V] * np.cos(gam), 'required_lift': i[M] * G0 * np.cos(gam) - i[T] * np.sin(i[A])}, ok


def f_accel(i, o):
    return {VD: (i[T] - i[D]) / i[M], X: i[V]}, True


def f_unsteady(ground):
    def f(i, o):
        r = along(i, G0, i[MU] if ground else 0.0)
        out = {'dTAS_dt': r['vdot'], 'dt_dr': 1 / r['xdot'], 'load_factor': r['load'],
               'fuselage_pitch': i.get(GA, 0.0) - i[INC] + i[A]}
        if ground:
            out['normal_force'] = r['N']
            return out, r['N'] >= 0
        out['dgam_dt'] = r['gdot']
        # d(arctan(dh/dr))/dt
        out['dgam_dt_approx'] = i['d2h_dr2'] / (1 + i['dh_dr'] ** 2) * r['xdot']
        return out, True
    return f


def body(o):
    return o['mission:takeoff:thrust_incidence'][0] - o['mission:takeoff:angle_of_attack_runway'][0]


def f_energy_takeoff(climbing):
    def f(i, o):
        g = o['mission:gravity'][0]
        if climbing:
            a = i[A] + body(o)
            r = along(i, g, alpha=a)
            gam = i[GA]
            fh = r['vdot'] * i[M] * np.cos(gam) - r['gdot'] * i[M] * i[V] * np.sin(gam)
            fv = r['vdot'] * i[M] * np.sin(gam) + r['gdot'] * i[M] * i[V] * np.cos(gam)
            ok = True
        else:
            j = dict(i)
            j[GA] = 0 * i[GA]
            r = along(j, g, o['$mu'], o['mission:takeoff:thrust_incidence'][0])
            r['gdot'] = 0 * i[V]
            fh, fv = r['vdot'] * i[M], 0 * i[V]
            ok = r['N'] >= 0
        W = i[M] * g
        a = i[A] + body(o)
        out = {VD: r['vdot'], GD: r['gdot'], X: r['xdot'], H: r['hdot'], 'forces_horizontal': fh, 'forces_vertical': fv,
               'climb_gradient_forces_horizontal': i[T] * np.cos(a) - i[D] - W * np.sin(i[GA]),
               'climb_gradient_forces_vertical': i[L] + i[T] * np.sin(a) - W * np.cos(i[GA])}
        return out, ok
    return f


def f_flare(i, o):
    a = i[A] + body(o)
    g = o['mission:gravity'][0]
    r = along(i, g, alpha=a)
    W = i[M] * g
    # thrust that balances the forces along the path and across it; they agree on a steady glide
    t1 = (i[D] + W * np.sin(i[GA])) / np.cos(a)
    t2 = (W * np.cos(i[GA]) - i[L]) / np.sin(a)
    out = {VD: r['vdot'], GD: r['gdot'], X: r['xdot'], H: r['hdot'], 'forces_perpendicular': t1 - t2, 'required_thrust': (t1 + t2) / 2,
           'net_alpha_rate': i['mission:landing:flare_rate'] - i['angle_of_attack_rate']}
    return out, np.abs(np.sin(a)) > 1e-3


def f_energy(i, o):
    """The energy method: thrust for the given climb and acceleration, speed over ground, excess power."""
    g = o['mission:gravity'][0]
    ok = np.abs(i[H]) < i[V]
    with np.errstate(all='ignore'):
        gam = np.arcsin(np.where(ok, i[H] / i[V], 0))
    ps = i[V] * (i['thrust_net_max_total'] - i[D]) / (i[M] * g)
    return {'thrust_required': i[D] + i[M] * (g * np.sin(gam) + i[VD]), X: i[V] * np.cos(gam), 'specific_energy_rate_excess': ps,
            'altitude_rate_max': ps - i[V] * i[VD] / g}, ok


def f_ps(i, o):
    return {'specific_energy_rate': i[V] * (i[T] - i[D]) / (i[M] * o['mission:gravity'][0])}, True


def f_hdot(i, o):
    return {H: i['specific_energy_rate'] - i[V] * i[VD] / o['mission:gravity'][0]}, True


def f_stall(i, o):
    return {'stall_speed': np.sqrt(2 * i[M] * o['mission:gravity'][0] / (i['density'] * i['aircraft:wing:area'] * i['lift_coefficient_max']))}, True


def f_gamma(i, o):
    return {GA: np.arctan(i['dh_dr']), 'dgam_dr': i['d2h_dr2'] / (1 + i['dh_dr'] ** 2)}, True


# ---------------------------------------------------------------- the formulations
E = 'aviary.mission.energy_state.ode.'
Q = 'aviary.mission.two_dof.ode.'
S = 'aviary.mission.solved_two_dof.ode.'
O = 'aviary.mission.ode.'
MASS, THRUST, DRAG, LIFT = (5e4, 8e4), (0.0, 6e4, 2.5e5), (2e4, 9e4), (0.0, 4e5, 9e5)
SPEED, GAMMA, ALPHA = (3.0, 70.0, 230.0), (-.06, 0.0, .17), (-.04, .03, .15)
FORCES = {M: MASS, T: THRUST, D: DRAG, L: LIFT, V: SPEED, GA: GAMMA, A: ALPHA}
TWO = dict(FORCES, **{INC: (0.0, .03), MU: (.02, .3)})
GRAVITY = [{'mission:gravity': (g, 'm/s**2')} for g in (G0, 3.712, 8.87)]
RUNWAY = [dict(g, **{'mission:takeoff:thrust_incidence': (a, 'rad'), 'mission:takeoff:angle_of_attack_runway': (b, 'rad')})
          for g in GRAVITY for a in (0.0, .04) for b in (0.0, .05)]
DH = {'dh_dr': (-.1, 0.0, .12), 'd2h_dr2': (-1e-4, 0.0, 3e-5)}
# what: class, options, inputs (unspecified scalar ones have one value per run), the law, units where they are not the ones above
FORM = {
    'climb and descent at constant speed': (Q + 'flight_eom.EOMRates', [{}], {k: FORCES[k] for k in (V, T, D, M, A)}, f_climb),
    'acceleration in level flight': (Q + 'accel_eom.AccelerationRates', [{}], {k: FORCES[k] for k in (V, T, D, M)}, f_accel),
    'flight path': (Q + 'flight_path_eom.FlightPathEOM', [{}], TWO, f_path('air')),
    'flight path, ground roll': (Q + 'flight_path_eom.FlightPathEOM', [{'ground_roll': True}], {k: v for k, v in TWO.items() if k != A}, f_path('ground')),
    'takeoff': (Q + 'takeoff_eom.TakeoffEOM', [{}], TWO, f_takeoff('air')),
    'takeoff, ground roll': (Q + 'takeoff_eom.TakeoffEOM', [{'ground_roll': True}], {k: v for k, v in TWO.items() if k != A}, f_takeoff('ground')),
    'takeoff, rotation': (Q + 'takeoff_eom.TakeoffEOM', [{'rotation': True}, {'rotation': True, 'rotation_pitch_rate': 2.5}], TWO, f_takeoff('rotation')),
    'solved ground roll': (S + 'groundroll_eom.GroundrollEOM', [{}], TWO, f_groundroll),
    'solved flight': (S + 'unsteady_solved_eom.UnsteadySolvedEOM', [{}], {**{k: v for k, v in TWO.items() if k not in (GA, MU)}, '$path': DH}, f_unsteady(False)),
    'solved flight, ground roll': (S + 'unsteady_solved_eom.UnsteadySolvedEOM', [{'ground_roll': True}], {k: v for k, v in TWO.items() if k != GA}, f_unsteady(True)),
    'path from its slope': (S + 'gamma_comp.GammaComp', [{}], DH, f_gamma),
    'energy method': (E + 'mission_EOM.MissionEOM', GRAVITY, {M: MASS, D: DRAG, V: (30.0, 120.0, 230.0), H: (-8.0, 0.0, 15.0), VD: (-.5, 0.0, 1.2), 'thrust_net_max_total': THRUST}, f_energy),
    'specific energy rate': (O + 'specific_energy_rate.SpecificEnergyRate', GRAVITY, {k: FORCES[k] for k in (V, T, D, M)}, f_ps),
    'altitude rate': (O + 'altitude_rate.AltitudeRate', GRAVITY, {V: SPEED, VD: (-.5, 0.0, 1.2), 'specific_energy_rate': (-9.0, 0.0, 20.0)}, f_hdot),
    'detailed takeoff, climbing': (E + 'takeoff_eom.TakeoffEOM', [dict(o, climbing=True, **{'$mu': .02}) for o in RUNWAY], FORCES, f_energy_takeoff(True)),
    'detailed takeoff, on ground': (E + 'takeoff_eom.TakeoffEOM', [dict(o, **{'$mu': mu}) for o in RUNWAY for mu in (.02, .3)],
                                    {k: v if k != GA else (0.0,) for k, v in FORCES.items()}, f_energy_takeoff(False)),
    'flare': (E + 'landing_eom.FlareEOM', RUNWAY, {**FORCES, 'mission:landing:flare_rate': (.05,), 'angle_of_attack_rate': (0.0, .02)}, f_flare),
    'stall speed': (E + 'takeoff_eom.StallSpeed', GRAVITY, {M: MASS, 'density': (.9, 1.225), 'aircraft:wing:area': (90.0, 130.0), 'lift_coefficient_max': (1.5, 3.0)}, f_stall),
}
EXTRA = {'dTAS_dt': 'm/s**2', 'dt_dr': 's/m', 'dgam_dt': 'rad/s', 'dgam_dt_approx': 'rad/s', 'dh_dr': 'm/distance_units', 'd2h_dr2': 'm/distance_units**2',
         'dgam_dr': 'rad/distance_units', 'altitude_rate_max': 'm/s'}


EXTRA['required_lift'] = 'N'


def unit(what, k):
    return UNITS.get(k) or EXTRA[k]


def load(path):
    mod, _, name = path.rpartition('.')
    return getattr(importlib.import_module(mod), name)


def build(path, n, options):
    import openmdao.api as om

    opts = {k: v for k, v in options.items() if ':' not in k and not k.startswith('$')}
    glob = {k: v for k, v in options.items() if ':' in k}
    if '$mu' in options:
        from aviary.api import AviaryValues, Mission

        vals = AviaryValues()
        vals.set_val(Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT, options['$mu'])
        opts.update(friction_key=Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT, aviary_options=vals)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = om.Problem(reports=None)
        if glob:
            # options given in another unit than the component asks for are converted on the way in
            p.model_options['*'] = glob
        p.model.add_subsystem('c', load(path)(num_nodes=n, **opts), promotes=['*'])
        p.setup()
        p.final_setup()
    return p


def grid(spec, deep):
    """All combinations of the values of the inputs."""
    ax = {}
    for k, v in spec.items():
        if k == '$path':
            ax.update(v)
        else:
            v = np.array(v, float)
            if deep and len(v) > 1:
                v = np.unique(np.r_[v, (v[1:] + v[:-1]) / 2])
            ax[k] = v
    return ax


def do_form(run, jobs):
    import openmdao.api as om  # noqa: F401

    for what, io, deep, part in jobs:
        path, options, spec, law = FORM[what]
        o = options[io]
        ax = grid(spec, deep)
        text = ', '.join(f'{k}={v[0] if isinstance(v, tuple) else v}' for k, v in o.items())
        key = f'{what}{": " + text if text else ""}'
        with run.guard(key):
            from aviary import constants  # noqa: F401 - declares distance_units

            scalars = [k for k in ax if k in (INC, MU, 'aircraft:wing:area', 'lift_coefficient_max', 'mission:landing:flare_rate')]
            vec = [k for k in ax if k not in scalars]
            mesh = [m.ravel() for m in np.meshgrid(*[ax[k] for k in vec], indexing='ij')]
            base = dict(zip(vec, mesh))
            if 'dh_dr' in base and V in base:
                base[GA] = np.arctan(base['dh_dr'])
            sizes = (len(mesh[0]), 1) if part == 'all' else (len(mesh[0]),)
            for n in sizes:
                p = build(path, n, o)
                for combo in itertools.product(*[ax[k] for k in scalars]):
                    sc = dict(zip(scalars, combo))
                    picks = [None] if n > 1 else range(0, len(mesh[0]), max(1, len(mesh[0]) // 40))
                    for pick in picks:
                        i = {k: (v if pick is None else v[pick:pick + 1]) for k, v in base.items()}
                        i.update(sc)
                        for k, v in i.items():
                            p.set_val(k, v, units=unit(what, k))
                        p.run_model()
                        exp, ok = law(i, o)
                        ok = np.broadcast_to(ok, i[vec[0]].shape)
                        run.transitions += int(ok.sum())
                        for name, e in exp.items():
                            got = p.get_val(name, units=unit(what, name))
                            e = np.broadcast_to(e, got.shape)
                            scale = np.maximum(np.abs(e), SCALE.get(unit(what, name), 1e-3))
                            bad = ok & ~(np.abs(got - e) <= 1e-6 * scale)
                            if bad.any():
                                j = int(np.argmax(bad))
                                at = {k: float(v[j] if np.ndim(v) else v) for k, v in i.items()}
                                run.violation(f'{key}: {name}', f'{what}: {name} {got[j]:.10g} {unit(what, name)}, expected {e[j]:.10g}, at '
                                              + ', '.join(f'{k.split(":")[-1]}={v:.6g}' for k, v in at.items()), at)
                        run.seen((key, n, tuple(sc.items()), pick), outcome=what)


# what a rounding error in the sums of forces may amount to
SCALE = {'N': 1e5, 'm/s**2': 1.0, 'rad/s': .1, 'rad': .1, 'm/s': 1.0, 'unitless': .1, 'rad/distance_units': 1e-5, 's/m': 1e-3}


# ---------------------------------------------------------------- cruise
def profiles(n, kind):
    """Speed (m/s), mass (kg) and fuel flow (kg/s) as functions of the fraction of the fuel burnt."""
    s = np.linspace(0, 1, n)
    v0, v1 = {'constant': (235, 235), 'faster': (215, 255), 'slower': (255, 200)}[kind[0]]
    f0, f1 = {'constant': (.75, .75), 'less': (.9, .6), 'more': (.6, .85)}[kind[1]]
    m = 78000 - kind[2] * s
    return v0 + (v1 - v0) * s, m, f0 + (f1 - f0) * s


def do_cruise(run, jobs):
    from scipy.integrate import quad

    for kind, t0, r0 in jobs:
        burn = kind[2]
        key = f'cruise: speed {kind[0]}, fuel flow {kind[1]}, {burn} kg of fuel'
        with run.guard(key):
            def at(s):
                v, m, f = profiles(2, kind)
                return v[0] + (v[1] - v[0]) * s, f[0] + (f[1] - f[0]) * s

            ends = (1 / 3, 1.0)
            time = [quad(lambda s: burn / at(s)[1], 0, e)[0] for e in ends]
            dist = [quad(lambda s: at(s)[0] * burn / at(s)[1], 0, e)[0] for e in ends]
            for n in (4, 301):
                p = build(Q + 'breguet_cruise_eom.RangeComp', n, {})
                v, m, f = profiles(n, kind)
                p.set_val('TAS_cruise', v, units='m/s')
                p.set_val('mass', m, units='kg')
                p.set_val('fuel_flow_rate_negative_total', -f, units='kg/s')
                p.set_val('cruise_time_initial', t0, units='s')
                p.set_val('cruise_distance_initial', r0, units='m')
                p.run_model()
                t, r = p.get_val('cruise_time', units='s') - t0, p.get_val('cruise_range', units='m') - r0
                run.transitions += n
                # the trapezium of the integrand on each interval; the steps are coarse with few points
                tol = 2e-6 if n > 100 else (.02 if kind[1] != 'constant' or kind[0] != 'constant' else 2e-3)
                for e, tt, dd in zip(ends, time, dist):
                    j = int(round(e * (n - 1)))
                    if not abs(r[j] - dd) < tol * dd:
                        run.violation(f'{key}: distance', f'{key}: distance {r[j]:.8g} m after {m[0] - m[j]:.6g} kg with {n} points, expected {dd:.8g} m')
                    if not abs(t[j] - tt) < tol * tt:
                        run.violation(f'{key}: time', f'{key}: time {t[j]:.8g} s after {m[0] - m[j]:.6g} kg with {n} points, expected {tt:.8g} s')
                if abs(r[0]) + abs(t[0]) > 1e-6:
                    run.violation(f'{key}: start', f'{key}: cruise starts at {r[0]} m, {t[0]} s after its start')
                run.seen((key, n, t0, r0), outcome='cruise')


def do_electric(run, jobs):
    from scipy.integrate import quad

    for kind, e0, t0, r0 in jobs:
        key = f'electric cruise: speed {kind[0]}, power {kind[1]}'
        with run.guard(key):
            v0, v1 = {'constant': (135, 135), 'faster': (115, 155)}[kind[0]]
            w0, w1 = {'constant': (7e6, 7e6), 'less': (8e6, 5e6)}[kind[1]]
            used = 4e10
            ends = (1 / 3, 1.0)
            time = [quad(lambda s: used / (w0 + (w1 - w0) * s), 0, e)[0] for e in ends]
            dist = [quad(lambda s: (v0 + (v1 - v0) * s) * used / (w0 + (w1 - w0) * s), 0, e)[0] for e in ends]
            n = 301
            s = np.linspace(0, 1, n)
            p = build(Q + 'breguet_cruise_eom.ElectricRangeComp', n, {})
            p.set_val('TAS_cruise', v0 + (v1 - v0) * s, units='m/s')
            p.set_val('cumulative_electric_energy_used', e0 + used * s, units='J')
            p.set_val('electric_power_in_total', w0 + (w1 - w0) * s, units='W')
            p.set_val('cruise_time_initial', t0, units='s')
            p.set_val('cruise_distance_initial', r0, units='m')
            p.run_model()
            t, r = p.get_val('cruise_time', units='s') - t0, p.get_val('cruise_range', units='m') - r0
            run.transitions += n
            bad = []
            for e, tt, dd in zip(ends, time, dist):
                j = int(round(e * (n - 1)))
                if not abs(r[j] - dd) < 1e-5 * dd:
                    bad.append(f'distance {r[j]:.8g} m, expected {dd:.8g} m')
                if not abs(t[j] - tt) < 1e-5 * tt:
                    bad.append(f'time {t[j]:.8g} s, expected {tt:.8g} s')
            if bad:
                run.violation(key, f'{key}: {bad[0]}')
            run.seen((key, e0, t0, r0), outcome='electric cruise')


def do_simple(run, jobs):
    for v0, v1, t0, r0 in jobs:
        key = f'simple cruise: speed {v0} to {v1} m/s'
        with run.guard(key):
            n = 5
            v, t = np.linspace(v0, v1, n), t0 + np.array([0, 90, 700, 5000, 9000.0])
            p = build(Q + 'simple_cruise_eom.DistanceComp', n, {})
            p.set_val('time', t, units='s')
            p.set_val('TAS_cruise', v, units='m/s')
            p.set_val('cruise_distance_initial', r0, units='m')
            p.run_model()
            got, expected = p.get_val('distance', units='m'), r0 + v * (t - t0)
            run.transitions += n
            if not np.all(np.abs(got - expected) < 1e-6 * (1 + np.abs(expected))):
                run.violation(key, f'{key}: distances {got} m at {t} s, expected {expected} m')
            run.seen((key, t0, r0), outcome='simple cruise')


# ---------------------------------------------------------------- phases outside the default missions
def f_ground_ode(i, o):
    r = along(i, G0, i[MU], 0.0)
    flow = i['fuel_flow_rate_negative_total']
    ok = np.abs(r['vdot']) > 1e-3
    with np.errstate(all='ignore'):
        return {VD: r['vdot'], X: r['xdot'], H: r['hdot'], 'normal_force': r['n'], 'over_a': i[V] / r['vdot'], 'dt_dv': 1 / r['vdot'],
                'dmass_dv': flow / r['vdot']}, ok


def f_path_ode(mode):
    def f(i, o):
        out, ok = f_path(mode)(i, o)
        return {k: v for k, v in out.items() if k not in ('load_factor', 'normal_force', 'fuselage_pitch')}, ok
    return f


def f_detailed(law, clmax):
    def f(i, o):
        out, ok = law(i, o)
        out = {k: v for k, v in out.items() if not k.startswith(('forces_h', 'forces_v', 'climb'))}
        stall = np.sqrt(2 * i[M] * G0 / (1.225 * i['aircraft:wing:area'] * i[clmax]))
        out['v_over_v_stall'] = i[V] / stall
        return out, ok
    return f


CL = {k: f'mission:{k}:lift_coefficient_max' for k in ('takeoff', 'landing')}
DETAILED = {'aircraft:wing:area': (110.0,), 'altitude': (0.0,)}
STUB = (T, D, L, 'fuel_flow_rate_negative_total')
EARTH = [o for o in RUNWAY if o['mission:gravity'][0] == G0]
MUS = [('mission:takeoff:rolling_friction_coefficient', .03), ('mission:takeoff:braking_friction_coefficient', .35)]
FLOW = {'fuel_flow_rate_negative_total': (-2.5,)}
ODES = {
    'detailed takeoff phase, climbing': (E + 'takeoff_ode.TakeoffODE', [dict(o, climbing=True, friction_key=MUS[0][0]) for o in EARTH],
                                         {**FORCES, **DETAILED, CL['takeoff']: (2.1,)}, f_detailed(f_energy_takeoff(True), CL['takeoff'])),
    'detailed takeoff phase, on ground': (E + 'takeoff_ode.TakeoffODE', [dict(o, friction_key=k, **{'$mu': mu}) for o in EARTH for k, mu in MUS],
                                          {**FORCES, **DETAILED, GA: (0.0,), CL['takeoff']: (2.1,)}, f_detailed(f_energy_takeoff(False), CL['takeoff'])),
    'detailed landing phase, in the air': (E + 'landing_ode.LandingODE', [dict(o, climbing=True, friction_key=MUS[0][0]) for o in EARTH],
                                           {**FORCES, **DETAILED, CL['landing']: (2.7,)}, f_detailed(f_energy_takeoff(True), CL['landing'])),
    'detailed landing phase, on ground': (E + 'landing_ode.LandingODE', [dict(o, friction_key=k, **{'$mu': mu}) for o in EARTH for k, mu in MUS],
                                          {**FORCES, **DETAILED, GA: (0.0,), CL['landing']: (2.7,)}, f_detailed(f_energy_takeoff(False), CL['landing'])),
    'flare phase': (E + 'landing_ode.FlareODE', EARTH, {**FORCES, **DETAILED, CL['landing']: (2.7,), 'mission:landing:flare_rate': (.05,),
                                                        'angle_of_attack_rate': (0.0, .02)}, f_detailed(f_flare, CL['landing'])),
    'flight path phase': (Q + 'flight_path_ode.FlightPathODE', [{'clean': True}], {**{k: v for k, v in TWO.items() if k != MU}, 'altitude': (0.0,)}, f_path_ode('air')),
    'solved ground roll phase': (S + 'groundroll_ode.GroundrollODE', [{'set_input_defaults': False}], {**{k: v for k, v in TWO.items() if k not in (A, GA)}, 'altitude': (0.0,), **FLOW}, f_ground_ode),
}
EXTRA.update({'altitude': 'm', CL['takeoff']: 'unitless', CL['landing']: 'unitless', 'v_over_v_stall': 'unitless', 'over_a': 's', 'dt_dv': 's**2/m', 'dmass_dv': 'kg*s/m',
              'fuel_flow_rate_negative_total': 'kg/s'})


def stub(n):
    """Aerodynamics and propulsion in one: the forces are what they are set to."""
    import openmdao.api as om

    from aviary.api import SubsystemBuilder

    class Stub(SubsystemBuilder):
        def build_mission(self, num_nodes, aviary_inputs, user_options=None, subsystem_options=None, **kw):
            g = om.Group()
            c = g.add_subsystem('forces', om.IndepVarComp(), promotes=['*'])
            for k in STUB:
                c.add_output(k, np.ones(num_nodes), units=unit('', k))
            g.add_subsystem('speed', om.ExecComp('unused = mach', mach=np.zeros(num_nodes), unused=np.zeros(num_nodes)), promotes_inputs=['mach'])
            return g

        def mission_inputs(self, *a, **k):
            return ['mach']

        def mission_outputs(self, *a, **k):
            return ['*']

    return Stub(name='forces')


def do_ode(run, jobs):
    import openmdao.api as om

    from aviary.api import AviaryValues

    for what, io, deep in jobs:
        path, options, spec, law = ODES[what]
        o = options[io]
        ax = grid(spec, deep)
        text = ', '.join(f'{k.split(":")[-1]}={v[0] if isinstance(v, tuple) else v}' for k, v in o.items())
        key = f'{what}{": " + text if text else ""}'
        with run.guard(key):
            scalars = [k for k in ax if ':' in k]
            vec = [k for k in ax if k not in scalars]
            mesh = [m.ravel() for m in np.meshgrid(*[ax[k] for k in vec], indexing='ij')]
            base = dict(zip(vec, mesh))
            n = len(mesh[0])
            vals = AviaryValues()
            for k, v in {**dict(MUS), **o}.items():
                if ':' in k:
                    vals.set_val(k, *(v if isinstance(v, tuple) else (v,)))
            if '$mu' in o:
                vals.set_val(o['friction_key'], o['$mu'])
            with pre.quiet():
                p = om.Problem(reports=None)
                p.model_options['*'] = {k: v for k, v in o.items() if k.startswith('mission:') and isinstance(v, tuple)}
                extra = {k: v for k, v in o.items() if ':' not in k and not k.startswith('$')}
                p.model.add_subsystem('c', load(path)(num_nodes=n, aviary_options=vals, subsystems=[stub(n)], **extra), promotes=['*'])
                p.setup()
                p.final_setup()
            for combo in itertools.product(*[ax[k] for k in scalars]):
                i = {**base, **dict(zip(scalars, combo))}
                with pre.quiet():
                    for k, v in i.items():
                        p.set_val(k, v, units=unit('', k))
                    p.run_model()
                i.setdefault(GA, 0.0)
                exp, ok = law(i, o)
                ok = np.broadcast_to(ok, (n,))
                run.transitions += int(ok.sum())
                for name, e in exp.items():
                    with pre.quiet():
                        got = np.ravel(p.get_val(name, units=unit('', name)))
                    e = np.broadcast_to(e, got.shape)
                    tol = 2e-4 if name == 'v_over_v_stall' else 1e-6
                    bad = ok & ~(np.abs(got - e) <= tol * np.maximum(np.abs(e), SCALE.get(unit('', name), 1e-3)))
                    if bad.any():
                        j = int(np.argmax(bad))
                        at = {k: float(v[j] if np.ndim(v) else v) for k, v in i.items()}
                        run.violation(f'{key}: {name}', f'{what}: {name} {got[j]:.10g} {unit("", name)}, expected {e[j]:.10g}, at '
                                      + ', '.join(f'{k.split(":")[-1]}={v:.6g}' for k, v in at.items()), at)
                run.seen((key, combo), outcome=what)


# ---------------------------------------------------------------- whole missions
def do_mission(run, jobs):
    for aircraft, tweak in jobs:
        key = f'mission of {aircraft}, {tweak}'
        with run.guard(key):
            p = mission(aircraft, tweak)
            for ph in p.model.traj._phases:
                judge_phase(run, p, f'{key}: {ph}', ph)


TWEAKS = {'as set up': {}, 'lighter and slower': {'mass': .9, 'velocity': .9, 'mach': .93, 'altitude': .9},
          'heavier and faster': {'mass': 1.06, 'velocity': 1.1, 'mach': 1.04, 'altitude': 1.05},
          'turned up': {'mass': 1.01, 'angle_of_attack': 1.5, 'flight_path_angle': 1.4, 'mach': .99}}


def mission(aircraft, tweak):
    """The whole problem at its initial guess, the states and controls of every phase changed."""
    file = pre.find(aircraft)
    p = pre.mission(file, run=tweak == 'as set up')
    if tweak != 'as set up':
        with pre.quiet():
            for ph in p.model.traj._phases.values():
                for kind, opts in (('states', ph.state_options), ('controls', ph.control_options)):
                    for k, f in TWEAKS[tweak].items():
                        if k in opts:
                            n = f'traj.{ph.name}.{kind}:{k}'
                            try:
                                v = np.array(p.get_val(n))
                            except KeyError:
                                continue
                            # not only larger, but of another shape
                            w = np.linspace(1, 1.02, v.size).reshape(v.shape)
                            p.set_val(n, v * f * w)
            p.run_model()
    return p


def judge_phase(run, p, key, ph):
    found = {p.model._resolver.abs2prom(a, 'output') for a in p.model._var_allprocs_abs2meta['output']}
    found |= {p.model._resolver.abs2prom(a, 'input') for a in p.model._var_allprocs_abs2meta['input']}
    rhs = next((r for r in ('rhs_all', 'rhs_disc', 'ode_all', 'ode') if any(n.startswith(f'traj.{ph}.{r}.') for n in found)), None)
    if rhs is None:
        run.seen((key, 'no right-hand side'), nontrivial=False)
        return
    base = f'traj.{ph}.{rhs}.'

    def get(k, u=None):
        if base + k not in found:
            return None
        with pre.quiet():
            return np.array(p.get_val(base + k, units=u or unit('', k)), float).ravel()

    v = {k: get(k) for k in (V, H, X, VD, GD, T, D, L, M, A, GA, 'thrust_required', 'required_lift', 'thrust_net_max_total',
                             'specific_energy_rate_excess', 'altitude_rate_max', 'normal_force', 'fuselage_pitch', 'load_factor')}
    with pre.quiet():
        inc = float(np.ravel(p.get_val(INC, units='rad'))[0]) if INC in found else 0.0
        mu = float(np.ravel(p.get_val(MU))[0]) if MU in found else 0.025
    done = []

    def same(name, got, exp):
        if got is None:
            return
        done.append(name)
        run.transitions += np.size(got)
        exp = np.broadcast_to(exp, got.shape)
        e = np.abs(got - exp) / np.maximum(np.abs(exp), SCALE.get(unit('', name), 1e-3))
        e = np.where(np.isfinite(exp) | np.isfinite(got), np.where(np.isfinite(e), e, np.inf), 0)
        if not np.all(e < 1e-6):
            j = int(np.argmax(e))
            run.violation(f'{key}: {name}', f'{key}: {name} {got[j]:.9g} {unit("", name)}, expected {exp[j]:.9g} at node {j}',
                          {k: float(x[j] if len(x) > 1 else x[0]) for k, x in v.items() if x is not None})

    W = v[M] * G0
    vel, gam = v[V], v[GA] if v[GA] is not None else 0.0
    if v['thrust_required'] is not None:
        same('thrust_required', v['thrust_required'], v[D] + W * v[H] / vel + v[M] * v[VD])
        same(X, v[X], np.sqrt(vel ** 2 - v[H] ** 2))
        same(L, v[L], W)
    elif v['required_lift'] is not None:
        gam = np.arcsin((v[T] - v[D]) / W)
        same(GA, v[GA], gam)
        same(H, v[H], vel * np.sin(gam))
        same(X, v[X], vel * np.cos(gam))
        same('required_lift', v['required_lift'], W * np.cos(gam) - v[T] * np.sin(v[A]))
        same(L, v[L], v['required_lift'])
    elif v['fuselage_pitch'] is not None:
        a = inc if ph == 'groundroll' else v[A]
        ground = ph in ('groundroll', 'rotation')
        tn = v[T] * np.sin(a - inc)
        N = np.maximum(W - v[L] - tn, 0) if ground else 0 * W
        same('normal_force', v['normal_force'], N)
        vdot = (v[T] * np.cos(a - inc) - v[D] - W * np.sin(gam) - mu * N) / v[M]
        same(VD, v[VD], vdot)
        same(GD, v[GD], 0 * W if ground else (tn + v[L] - W * np.cos(gam)) / (v[M] * vel))
        same(H, v[H], vel * np.sin(gam))
        same(X, v[X], vel * np.cos(gam))
        same('fuselage_pitch', v['fuselage_pitch'], gam - inc + a)
        same('load_factor', v['load_factor'], (v[L] + tn) / (W * np.cos(gam)))
        # on the runway time, mass and distance are integrated over speed
        for k, u, e in (('dt_dv', 's**2/m', 1 / vdot), ('dmass_dv', 'kg*s/m', get('fuel_flow_rate_negative_total', 'kg/s')), ('over_a', 's', None)):
            g = get(k, u) if base + k in found else None
            if g is None:
                continue
            e = {'dt_dv': 1 / vdot, 'dmass_dv': get('fuel_flow_rate_negative_total', 'kg/s') / vdot, 'over_a': vel / vdot}[k]
            done.append(k)
            run.transitions += g.size
            r = np.abs(g - e) / np.maximum(np.abs(e), 1e-6)
            if not np.all(r < 1e-6):
                j = int(np.argmax(r))
                run.violation(f'{key}: {k}', f'{key}: {k} {g[j]:.9g} {u}, expected {e[j]:.9g} at node {j}')
    elif v[L] is not None:
        same(L, v[L], W)
        if v[X] is not None:
            same(X, v[X], vel)
            same(VD, v[VD], (v[T] - v[D]) / v[M])
        else:
            same(T, v[T], v[D])
    if v['specific_energy_rate_excess'] is not None:
        ps = vel * (v['thrust_net_max_total'] - v[D]) / W
        same('specific_energy_rate_excess', v['specific_energy_rate_excess'], ps)
        same('altitude_rate_max', v['altitude_rate_max'], ps - vel * (v[VD] if v[VD] is not None else 0.0) / G0)
    # what drives the states
    flow = get('fuel_flow_rate_negative_total', 'kg/s')
    rates = {'mass': ('kg/s', flow), 'distance': ('m/s', v[X] if v[X] is not None else vel), 'altitude': ('m/s', v[H]), 'velocity': ('m/s**2', v[VD]),
             'flight_path_angle': ('rad/s', v[GD]), 'angle_of_attack': ('rad/s', get('angle_of_attack_rate', 'rad/s'))}
    phase = p.model.traj._phases[ph]
    col = phase.options['transcription'].grid_data.subset_node_indices['col']
    for k, (u, e) in rates.items():
        n = f'traj.{ph}.collocation_constraint.f_computed:{k}'
        if n not in found or rhs != 'rhs_all':
            continue
        if e is None:
            run.violation(f'{key}: {k} driven', f'{key}: {k} is a state, but its rate is not computed')
            continue
        with pre.quiet():
            g = np.array(p.get_val(n, units=u), float).ravel()
        e = np.broadcast_to(e, phase.options['transcription'].grid_data.num_nodes)[col]
        done.append(f'{k} driven')
        run.transitions += g.size
        r = np.abs(g - e) / np.maximum(np.abs(e), SCALE.get(u, 1e-3) * 1e-3)
        if g.shape != e.shape or not np.all(r < 1e-6):
            run.violation(f'{key}: {k} driven', f'{key}: {k} changes by {g[int(np.argmax(r))]:.9g} {u}, expected {e[int(np.argmax(r))]:.9g}')
    run.seen((key, tuple(done)), outcome=', '.join(done))


FAMILIES = dict(forms=do_form, cruise=do_cruise, electric=do_electric, simple=do_simple, odes=do_ode, missions=do_mission)


def check(run, chunk):
    for family, jobs in chunk:
        FAMILIES[family](run, jobs)


def main(run):
    run.rule = 'one case = one formulation of the equations of motion with one combination of options and inputs'
    deep = not run.quick
    jobs = [('forms', [(w, i, deep, 'all')]) for w, f in FORM.items() for i in range(len(f[1]))]
    jobs += [('odes', [(w, i, deep)]) for w, f in ODES.items() for i in range(len(f[1]))]
    kinds = itertools.product(('constant', 'faster', 'slower'), ('constant', 'less', 'more'), (500, 9000))
    jobs += [('cruise', [(k, t0, r0)]) for k in kinds for t0, r0 in ((0.0, 0.0), (1800.0, 3e5))]
    jobs += [('electric', [((a, b), e0, 900.0, 1e5)]) for a in ('constant', 'faster') for b in ('constant', 'less') for e0 in (0.0, 2e10)]
    jobs += [('simple', [(a, b, t, r)]) for a, b in ((200, 200), (180, 230), (120, 120)) for t in (0.0, 1800.0) for r in (0.0, 4e5)]
    files = ('advanced_single_aisle_FLOPS', 'large_single_aisle_1_GASP') + (('small_single_aisle_GASP', 'large_single_aisle_2_FLOPS') if deep else ())
    jobs = [('missions', [(f, t)]) for f in files for t in TWEAKS] + jobs
    pmap(run, check, jobs, chunk=1)
