"""C11: every mass total is the sum of its parts."""
import functools

import numpy as np

from mc import pre
from mc.harness import pmap

AC, CP, D, E, F, P, W, M = (
    'aircraft:', 'aircraft:crew_and_payload:', 'aircraft:design:', 'aircraft:engine:', 'aircraft:fuel:',
    'aircraft:propulsion:', 'aircraft:wing:', 'mission:')

EQUIPMENT = [AC + n + ':mass' for n in (
    'air_conditioning', 'anti_icing', 'apu', 'avionics', 'electrical', 'hydraulics', 'instruments')]
ITEMS = [CP + n for n in ('cargo_container_mass', 'cabin_crew_mass', 'flight_crew_mass',
                          'passenger_service_mass')] + [
    F + 'unusable_fuel_mass', P + 'total_engine_oil_mass', M + 'operating_items_mass_additional']
GEAR = AC + 'landing_gear:'
COMMON = [
    (M + 'operating_mass', [D + 'empty_mass', M + 'operating_items_mass']),
    (M + 'zero_fuel_mass', [M + 'operating_mass', CP + 'total_payload_mass']),
    (D + 'useful_load_mass', [D + 'gross_mass', ('-', D + 'empty_mass')]),
    (M + 'total_fuel_mass', [M + 'gross_mass', ('-', M + 'zero_fuel_mass')]),
    (GEAR + 'total_mass', [GEAR + 'main_gear_mass', GEAR + 'nose_gear_mass']),
]


# computed together with a total of them, which does not see a given value (listed in known_findings.json)
TOGETHER = (E + 'mass', E + 'thrust_reversers_mass', CP + 'passenger_payload_mass')


def n(part):
    """Marks a mass per engine: multiplied by the number of engines of the type."""
    return ('n', part)


def flops(alt):
    out = COMMON + [
        (D + 'empennage_mass', [AC + x + ':mass' for x in ('canard', 'fins', 'horizontal_tail', 'vertical_tail')]),
        (D + 'structure_mass', [W + 'mass', D + 'empennage_mass', AC + 'fuselage:mass', GEAR + 'total_mass',
                                n(AC + 'nacelle:mass'), AC + 'paint:mass']),
        (P + 'mass', [P + 'total_thrust_reversers_mass', P + 'total_misc_mass', F + 'fuel_system_mass',
                      P + 'total_engine_mass', AC + 'battery:mass']),
        (AC + 'controls:mass', [W + 'surface_control_mass']),
        (D + 'empty_mass', [D + 'structure_mass', P + 'mass', D + 'systems_and_equipment_mass',
                            D + 'empty_mass_margin', D + 'external_subsystems_mass']),
        (M + 'operating_items_mass', ITEMS),
        (CP + 'cargo_mass', [CP + 'wing_cargo', CP + 'misc_cargo']),
        (CP + 'passenger_payload_mass', [CP + 'passenger_mass_total', CP + 'baggage_mass']),
        (CP + 'total_payload_mass', [CP + 'passenger_payload_mass', CP + 'cargo_mass']),
        (W + 'mass', [W + 'bending_material_mass', W + 'shear_control_mass', W + 'misc_mass',
                      W + 'bwb_aftbody_mass'], W + 'mass_scaler'),
        (P + 'total_misc_mass', [P + 'total_starter_mass', n(E + 'additional_mass'),
                                 P + 'total_engine_controls_mass'], P + 'misc_mass_scaler'),
        (P + 'total_engine_mass', [n(E + 'mass')]),
        (P + 'total_thrust_reversers_mass', [('s', E + 'thrust_reversers_mass')]),
    ]
    if not alt:
        out.append((D + 'systems_and_equipment_mass',
                    EQUIPMENT + [AC + 'furnishings:mass', W + 'surface_control_mass']))
    return out


def gasp():
    return COMMON + [
        (D + 'empennage_mass', [AC + 'horizontal_tail:mass', AC + 'vertical_tail:mass']),
        (D + 'structure_mass', [W + 'mass', D + 'empennage_mass', AC + 'fuselage:mass', GEAR + 'total_mass',
                                P + 'total_engine_pod_mass', D + 'structural_mass_increment']),
        (D + 'systems_and_equipment_mass', EQUIPMENT + [AC + 'furnishings:mass', AC + 'controls:mass',
                                                        AC + 'oxygen_system:mass']),
        (D + 'empty_mass', [D + 'structure_mass', P + 'mass', D + 'systems_and_equipment_mass',
                            D + 'external_subsystems_mass']),
        (M + 'operating_items_mass', ITEMS + [D + 'emergency_equipment_mass']),
        (CP + 'total_payload_mass', [CP + 'passenger_payload_mass', CP + 'cargo_mass']),
        (AC + 'controls:mass', [AC + 'controls:cockpit_control_mass', W + 'surface_control_mass',
                                AC + 'controls:stability_augmentation_system_mass',
                                AC + 'controls:control_mass_increment']),
        (P + 'mass', [F + 'fuel_system_mass', AC + 'battery:mass', 'engines', n(E + 'additional_mass'),
                      n(E + 'propeller:mass'), 'hybrid']),
    ]


class Extra:
    """External subsystems that have masses."""

    def __init__(self, masses):
        self.masses = masses

    def __call__(self, data):
        import openmdao.api as om
        from aviary.subsystems.subsystem_builder import SubsystemBuilder

        class Extra(SubsystemBuilder):
            def __init__(self, name, masses):
                super().__init__(name)
                self.masses = masses

            def build_pre_mission(self, aviary_inputs=None, subsystem_options=None, **kw):
                c = om.IndepVarComp()
                for nm, v, u in self.masses:
                    c.add_output(nm, v, units=u)
                return c

            def get_mass_names(self, aviary_inputs=None):
                return [m[0] for m in self.masses]

        return [Extra(f'extra_{i}', m) for i, m in enumerate(self.masses)]


VARIANTS = {
    'as given': {},
    'two types': dict(subsystems=pre.engine_types(((2, 0), (2, 0)))),
    '2 + 4 engines': dict(subsystems=pre.engine_types(((2, 0), (4, 0)))),
    '4 + 2 engines, types unlike': dict(subsystems=pre.engine_types(((4, 0), (2, 0)), alike=False)),
    'three types unlike': dict(subsystems=pre.engine_types(((2, 0), (0, 1), (4, 0)), alike=False)),
    'wing and fuselage engines': dict(subsystems=pre.engine_types(((2, 0), (0, 1)))),
    'one extra subsystem': dict(subsystems=Extra([[('aircraft:extra:mass', 1234.0, 'lbm')]]), extra=1234.0),
    'extra subsystems': dict(subsystems=Extra([[('aircraft:extra:mass_1', 1000.0, 'lbm'), ('aircraft:extra:mass_2', 10.0, 'kg')],
                                               [('aircraft:extra:mass_3', 70.5, 'lbm')]]),
                             extra=1070.5 + 10.0 / 0.45359237),
}


def relations(p, path):
    if pre.is_gasp(path):
        return gasp()
    return flops(bool(p.aviary_inputs.get_val(D + 'use_alt_mass')) if D + 'use_alt_mass' in p.aviary_inputs else False)


def parts(rels):
    out = []
    for r in rels:
        for x in [r[0]] + list(r[1]):
            x = x[1] if isinstance(x, tuple) else x
            if x not in ('engines', 'hybrid') and x not in out:
                out.append(x)
    return out


def get(p, name, units='lbm'):
    """Value in the model; of what the model leaves out, the given one, else None."""
    try:
        return np.ravel(pre.value(p, name, units))
    except KeyError:
        pass
    if name in p.aviary_inputs:
        return np.ravel(p.aviary_inputs.get_val(name, units)).astype(float)
    return None


MODEL = {False: 'FLOPS', True: 'GASP'}


def judge(run, p, path, variant, label, key, skip, rep):
    comp, _ = pre.sources(p)
    counts = np.ravel(p.aviary_inputs.get_val(E + 'num_engines')).astype(float)
    for r in relations(p, path):
        total, ps = r[0], r[1]
        t = get(p, total)
        if t is None or total in skip or total not in comp:
            continue
        if total == GEAR + 'total_mass' and pre.is_gasp(path) and skip & {GEAR + 'main_gear_mass', GEAR + 'nose_gear_mass'}:
            continue  # the total comes first here, the gears are shares of it
        terms, size = [], 0.0
        for x in ps:
            if x == 'engines':
                v = np.dot(counts, get(p, E + 'mass_scaler', 'unitless') * get(p, E + 'mass_specific', 'lbm/lbf')
                           * get(p, E + 'scaled_sls_thrust', 'lbf'))
            elif x == 'hybrid':
                v = get(p, 'pre_mission.aug_mass')
                v = 0.0 if v is None else v[0]
            else:
                kind, x = x if isinstance(x, tuple) else ('', x)
                v = get(p, x)
                if v is None:
                    v = 0.0
                else:
                    v = np.dot(counts, np.broadcast_to(v, counts.shape)) if kind == 'n' else np.sum(v)
                    v = -v if kind == '-' else v
            terms.append(float(v))
        s = sum(terms)
        if len(r) > 2:
            s *= get(p, r[2], 'unitless')[0]
        if not np.isfinite(s) and not np.all(np.isfinite(t)):
            run.seen([pre.short(path), variant, label, total], outcome='no result')
            continue
        run.seen([pre.short(path), variant, label, total], outcome='compared')
        if not np.all(np.abs(t - s) <= 1e-9 * max(abs(s), float(np.max(np.abs(t))), sum(map(abs, terms))) + 1e-12):
            run.violation(
                f'{total}, {key}: {MODEL[pre.is_gasp(path)]}' if key else f'{total}: {pre.short(path)}, {variant}, {label}',
                f'{pre.short(path)}, {variant}, {label}: {total} = {t} lbm, sum of its parts {s} ({list(zip(map(str, ps), terms))})',
                dict(aircraft=pre.short(path), variant=variant, given=rep, total=t, parts=terms))
    x = VARIANTS[variant].get('extra')
    if x is not None and D + 'external_subsystems_mass' not in skip:
        v = get(p, D + 'external_subsystems_mass')[0]
        run.seen([pre.short(path), variant, label, 'extra'], outcome='compared')
        if abs(v - x) > 1e-9 * x:
            run.violation(f'external subsystems: {pre.short(path)}, {variant}, {label}',
                          f'external subsystem masses {v} lbm, their sum is {x}',
                          dict(aircraft=pre.short(path), variant=variant, given=rep))


def build(path, variant, change=None):
    return pre.build(path, change, subsystems=VARIANTS[variant].get('subsystems'))


@functools.lru_cache(maxsize=2)
def natural(path, variant):
    p = build(path, variant)
    comp, given = pre.sources(p)
    vals = {}
    for x in parts(relations(p, path)):
        v = get(p, x)
        if v is not None:
            vals[x] = v
    return p, comp, given, vals


def other(k, v):
    """A distinct nonzero mass for the k-th part."""
    return v * 1.25 + 100.0 + 7.0 * k + np.arange(v.size)


def prepared(x, v, units):
    from openmdao.utils.units import convert_units

    v = np.array([convert_units(float(t), 'lbm', units) for t in v])
    return v if v.size > 1 else float(v[0])


def check(run, chunk):
    for path, variant, job in chunk:
        try:
            p, comp, given, vals = natural(path, variant)
        except Exception as e:  # noqa: BLE001
            run.violation(f'refused: {pre.short(path)}, {variant}',
                          f'{pre.short(path)} with {variant}: {e!r}'[:1500], dict(aircraft=path, variant=variant))
            continue
        names = list(vals)
        if job == 'natural':
            run.state((path, variant, job))
            judge(run, p, path, variant, 'as computed', '', set(), {})
            # every given mass that is not computed, in turn, in the same model
            for k, x in enumerate(names):
                if x in given and x not in comp:
                    for new in (other(k, vals[x]), vals[x] * 0.0, vals[x]):
                        if not new.any() and x.endswith('gross_mass'):
                            continue
                        try:
                            with pre.quiet():
                                p.set_val(x, new if new.size > 1 else new[0], units='lbm')
                                p.run_model()
                        except Exception as e:  # noqa: BLE001
                            run.seen([pre.short(path), variant, x, 'no result'], outcome='no result')
                            continue
                        run.state((path, variant, x, tuple(new)))
                        run.transitions += 1
                        judge(run, p, path, variant, f'{x} changed to {new}', f'{x} given', set(), {x: new})
            continue
        if job == 'all':
            tops = {r[0] for r in relations(p, path)}
            chosen = {x: other(k, vals[x]) for k, x in enumerate(names) if x not in tops and x not in TOGETHER}
        else:
            chosen = {x: other(names.index(x), vals[x]) for x in job}

        def change(data):
            for k, (x, v) in enumerate(chosen.items()):
                u = ('lbm', 'kg')[k % 2]
                data.set_val(x, prepared(x, v, u), u)

        try:
            q = build(path, variant, change)
        except Exception as e:  # noqa: BLE001
            run.violation(f'refused: {pre.short(path)}, {variant}, {job}',
                          f'masses {chosen} given: {e!r}'[:1500], dict(aircraft=path, given=chosen))
            continue
        run.state((path, variant, job))
        run.transitions += 1
        judge(run, q, path, variant, 'all parts given' if job == 'all' else f'{" and ".join(job)} given',
              '' if job == 'all' else f'{" and ".join(job)} given', set(chosen), chosen)


def main(run):
    run.rule = 'one case = aircraft x variant x masses given instead of computed x total; exact sum of the parts'
    files = pre.aircraft_files()
    full = [f for f in files if pre.short(f) in (
        'large_single_aisle_1_FLOPS', 'large_single_aisle_1_GASP')]
    jobs = [(f, 'as given', 'natural') for f in files] + [(f, 'as given', 'all') for f in files]
    for f in full if run.quick else files:
        for v in VARIANTS:
            if v != 'as given':
                jobs += [(f, v, 'natural'), (f, v, 'all')]
    for f in full if run.quick else files:
        p, comp, given, vals = natural(f, 'as given')
        one = [x for x in vals if x in comp and x != M + 'gross_mass']
        jobs += [(f, 'as given', (x,)) for x in one]
        if not run.quick:
            if f in full:
                jobs += [(f, '2 + 4 engines', (x,)) for x in one]
                two = [x for x in one if x not in TOGETHER]
                same = [set(parts([r])) for r in relations(p, f)]
                jobs += [(f, 'as given', (x, y)) for i, x in enumerate(two) for y in two[i + 1:]
                         if any({x, y} <= t for t in same)]
    pmap(run, check, jobs, chunk=2)
