"""C13: passenger, crew, cargo, tank and layout data are completed consistently."""
import itertools
import warnings

import numpy as np

from mc.harness import pmap

CP = 'aircraft:crew_and_payload:'
D = CP + 'design:'
CLASSES = ('num_passengers', 'num_first_class', 'num_business_class', 'num_economy_class')
FUEL = 'aircraft:fuel:'
TANKS = (FUEL + 'max_capacity_mass', FUEL + 'wing_fuel_mass_capacity', FUEL + 'fuselage_fuel_mass_capacity',
         FUEL + 'auxiliary_fuel_mass_capacity')


def enums():
    from aviary.variable_info.enums import AircraftTypes, AtmosphereModel, LegacyCode, ProblemType

    return dict(
        code={'FLOPS': LegacyCode.FLOPS, 'GASP': LegacyCode.GASP},
        type={'transport': AircraftTypes.TRANSPORT, 'BWB': AircraftTypes.BLENDED_WING_BODY},
        problem={p.name: p for p in ProblemType}, atmosphere={a.name: a for a in AtmosphereModel})


class Broken(str):
    """An error other than a refusal."""


def complete(given, code, repeat=1):
    """given: name -> (value, units); the aircraft data after loading and preprocessing, or the refusal."""
    from aviary.api import AviaryValues, preprocess_options
    from aviary.utils.process_input_decks import create_vehicle

    data = AviaryValues()
    data.set_val('settings:mass_method', enums()['code'][code])
    for k, (v, u) in given.items():
        data.set_val(k, v, u or 'unitless')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = create_vehicle(data, verbosity=0)[0]
        try:
            for _ in range(repeat):
                preprocess_options(out)
        except UserWarning as e:
            return str(e)
        except Exception as e:  # noqa: BLE001
            return Broken(f'{type(e).__name__}: {e}')
    return out


def get(out, k, u=None):
    if k not in out:
        return None
    v = out.get_val(k, u) if u else out.get_item(k)[0]
    return v


def items(out):
    return {k: (np.asarray(v).tolist() if isinstance(v, np.ndarray) else v, u) for k, (v, u) in out.items()}


def passengers(t, f, b, e):
    """Total and classes of one side, None where not given."""
    t, f, b, e = (x or 0 for x in (t, f, b, e))
    s = f + b + e
    return (t, 0, 0, t) if s == 0 else (s, f, b, e)


def judge(run, what, given, code, expected, touched=()):
    """expected: name -> (value, units) after completion, or None for a refusal."""
    key = f'{what}: {code}, ' + ', '.join(f'{k.split(":", 1)[1]}={v}{"" if u in (None, "unitless") else " " + u}' for k, (v, u) in given.items())
    run.transitions += 1
    run.state((what, code, repr(sorted(given.items(), key=lambda x: x[0]))))
    out = complete(given, code)
    case = dict(given={k: [v, u] for k, (v, u) in given.items()}, code=code)
    run.seen(key, outcome='refused' if isinstance(out, str) else what)
    if isinstance(out, str) or expected is None:
        if expected is not None or isinstance(out, Broken) or not isinstance(out, str):
            run.violation(key, f'{key}: ' + (f'refused ({out[:200]})' if isinstance(out, str) else 'not refused'), case)
        return
    for k, (v, u) in expected.items():
        have = get(out, k, u)
        ok = (have is None) if v is None else have is not None and (
            bool(np.allclose(np.asarray(have, float), v, rtol=1e-9)) if isinstance(v, (int, float)) and not isinstance(v, bool) else have == v)
        if not ok:
            run.violation(key, f'{key}: {k} = {have}, not {v} {u or ""}', case)
            return
    for k, (v, u) in given.items():
        if k not in expected and k not in touched:
            if not np.array_equal(get(out, k), v) or out.get_item(k)[1] != (u or 'unitless'):
                run.violation(key, f'{key}: {k} = {out.get_item(k)} after completion', case)
                return
    if what == 'cargo':
        return
    again = complete(given, code, repeat=2)
    if isinstance(again, str) or items(again) != items(out):
        run.violation(key, f'{key}: completing the completed data changes it', case)


def pick(keys, values, units=None):
    return {k: (v, units[k] if units else None) for k, v in zip(keys, values) if v is not None}


# ---------------------------------------------------------------- passengers and classes
def do_passengers(run, jobs):
    for code, design, mission in jobs:
        n = 4 if code == 'FLOPS' else 1
        given = pick([D + k for k in CLASSES[:n]], design)
        given.update(pick([CP + k for k in CLASSES[:n]], mission))
        d, m = design, mission
        if all(x is None for x in d):
            d = m
        elif all(x is None for x in m):
            m = d
        pad = (None,) * (4 - n)
        d, m = passengers(*d, *pad), passengers(*m, *pad)
        exp = {D + k: (v, None) for k, v in zip(CLASSES[:n], d)}
        exp.update({CP + k: (v, None) for k, v in zip(CLASSES[:n], m)})
        judge(run, 'passengers', given, code, exp)


# ---------------------------------------------------------------- cargo
def do_cargo(run, jobs):
    P = enums()['problem']
    for problem, cargo, top, des, unit in jobs:
        keys = (CP + 'cargo_mass', D + 'max_cargo_mass', D + 'cargo_mass')
        given = {k: (v, unit) for k, v in zip(keys, (cargo, top, des)) if v is not None}
        if problem is not None:
            given['settings:problem_type'] = (P[problem], None)
        if cargo is not None:
            if top is not None:
                if des is not None:
                    if problem in (None, 'SIZING'):
                        cargo = des
                else:
                    des = top
            elif des is not None:
                top = des
            else:
                des = top = cargo
        elif top is not None:
            cargo = 0
            if des is None:
                des = 0
        elif des is not None:
            top, cargo = des, 0
        else:
            cargo = top = des = 0
        exp = None
        if cargo <= top and des <= top:
            exp = {k: (float(v), unit) for k, v in zip(keys, (cargo, top, des))}
        judge(run, 'cargo', given, 'GASP', exp)


def do_bags(run, jobs):
    for both, pax, bag in jobs:
        keys = (CP + 'mass_per_passenger_with_bags', CP + 'mass_per_passenger', CP + 'baggage_mass_per_passenger')
        units = dict(zip(keys, ('lbm', 'kg', 'lbm')))
        given = pick(keys, (both, pax, bag), units)
        want = both
        if both is None:
            if pax is None and bag is None:
                judge(run, 'passenger mass', given, 'GASP', {keys[0]: (None, 'lbm')})
                continue
            want = (165.0 if pax is None else pax / 0.45359237) + (bag or 0)
        judge(run, 'passenger mass', given, 'GASP', {keys[0]: (float(want), 'lbm')})


# ---------------------------------------------------------------- crew and baggage
def do_crew(run, jobs):
    for pax, att, gal, fly, cab in jobs:
        given = {D + 'num_passengers': (pax, None)}
        keys = [CP + k for k in ('num_flight_attendants', 'num_galley_crew', 'num_flight_crew', 'num_cabin_crew')]
        given.update(pick(keys, (att, gal, fly, cab)))
        if att is None or att < 0:
            att = 0 if pax <= 0 else 1 if pax < 51 else 1 + pax // 40
        if gal is None or gal < 0:
            gal = 0 if pax <= 150 else 1 + pax // 250
        if fly is None:
            fly = 2 if pax < 151 else 3
        if cab is not None:
            cab = att + gal
        judge(run, 'crew', given, 'FLOPS', {k: (v, None) for k, v in zip(keys, (att, gal, fly, cab))},
              touched=(D + 'num_passengers',))


def do_baggage(run, jobs):
    for rng, unit, bag in jobs:
        given = {} if rng is None else {'aircraft:design:range': (rng, unit)}
        if bag is not None:
            given[CP + 'baggage_mass_per_passenger'] = (bag, 'kg')
            exp = {CP + 'baggage_mass_per_passenger': (float(bag), 'kg')}
        else:
            nmi = None if rng is None else rng * {'nmi': 1.0, 'km': 1 / 1.852, 'm': 1 / 1852.0}[unit]
            exp = {CP + 'baggage_mass_per_passenger':
                   (35.0 if nmi is None or nmi <= 900 else 40.0 if nmi <= 2900 else 44.0, 'lbm')}
        judge(run, 'baggage', given, 'FLOPS', exp)


def do_tail(run, jobs):
    T = enums()['type']
    for engines, typ, tail in jobs:
        given = {}
        k = 'aircraft:horizontal_tail:vertical_tail_mount_location'
        if engines is not None:
            given['aircraft:engine:num_fuselage_engines'] = (np.array(engines) if isinstance(engines, list) else engines, None)
        if typ is not None:
            given['aircraft:design:type'] = (T[typ], None)
        if tail is not None:
            given[k] = (tail, None)
        want = tail if tail is not None else int(engines is not None and np.sum(engines) > 1 and typ != 'BWB')
        judge(run, 'tail', given, 'FLOPS', {k: (float(want), None)}, touched=list(given)[:1])


# ---------------------------------------------------------------- tanks
def do_tanks(run, jobs):
    for code, total, parts, unit in jobs:
        given = {k: (v, unit) for k, v in zip(TANKS, (total,) + parts) if v is not None}
        exp = dict(given)
        if code == 'FLOPS':
            some = [p for p in parts if p is not None]
            if total is None:
                for k, v in zip(TANKS[2:], parts[1:]):
                    if v is None:
                        exp[k] = (0.0, 'lbm')
            elif (len(some) == 3 and abs(sum(some) - total) > 1e-9) or (len(some) < 3 and sum(some) - total > 1e-9):
                exp = None
        judge(run, 'tanks', given, code, exp)


# ---------------------------------------------------------------- other options that follow from others
def do_layout(run, jobs):
    E = enums()
    S = 'aircraft:fuselage:'
    seats = [S + f'seat_width_{c}' for c in ('economy', 'business', 'first')]
    for code, typ, simple, widths in jobs:
        given = {}
        if typ is not None:
            given['aircraft:design:type'] = (E['type'][typ], None)
        if simple is not None:
            given[S + 'simple_layout'] = (simple, None)
        given.update(pick(seats, widths, dict.fromkeys(seats, 'cm')))
        is_simple = simple if simple is not None else not (code == 'GASP' and typ == 'BWB')
        exp = {S + 'simple_layout': (is_simple, None)}
        if not is_simple and (code == 'GASP') == (typ == 'BWB'):
            for k, w, d in zip(seats, widths, (20.0, 22.0, 28.0 if code == 'GASP' else 25.0)):
                exp[k] = (float(w), 'cm') if w is not None else (d, 'inch')
        judge(run, 'layout', given, code, exp)


def do_reference(run, jobs):
    W = 'aircraft:wing:'
    for name, own, ref in jobs:
        given = {}
        if own is not None:
            given[W + name] = (own, None)
        if ref is not None:
            given[W + name + '_reference'] = (ref, None)
        exp = {}
        if own is not None and ref == 0:
            exp[W + name + '_reference'] = (own, None)
        judge(run, 'reference', given, 'FLOPS', exp)




def do_environment(run, jobs):
    from aviary.subsystems.atmosphere.utils.get_atmosphere_data import get_atmosphere_data
    E = enums()
    for model, g, rho, aero, exc in jobs:
        given = {}
        if model is not None:
            given['settings:atmosphere_model'] = (E['atmosphere'][model], None)
        if g is not None:
            given['mission:gravity'] = (g, 'm/s**2')
        if rho is not None:
            given['mission:sea_level_density'] = (rho, 'kg/m**3')
        if aero is not None:
            given['settings:aerodynamics_method'] = (E['code'][aero], None)
        if exc is not None:
            given['aircraft:design:percent_excrescence_drag'] = (exc, None)
        from aviary.api import CoreMetaData
        used = E['atmosphere'][model] if model else CoreMetaData['settings:atmosphere_model']['default_value']
        data = get_atmosphere_data(used)
        exp = {'settings:atmosphere_model': (used, None),
               'mission:gravity': (float(g), 'm/s**2') if g is not None else (float(data[3][0]), data[3][1]),
               'mission:sea_level_density': (float(rho), 'kg/m**3') if rho is not None else (float(data[4][0]), data[4][1])}
        e = exc if exc is not None else 0.06 if aero == 'FLOPS' else None
        exp['aircraft:design:percent_excrescence_drag'] = (e, None)
        judge(run, 'environment', given, 'FLOPS', exp)


FAMILIES = dict(passengers=do_passengers, cargo=do_cargo, bags=do_bags, crew=do_crew, baggage=do_baggage, tail=do_tail,
                tanks=do_tanks, layout=do_layout, reference=do_reference, environment=do_environment)


def check(run, chunk):
    for family, jobs in chunk:
        FAMILIES[family](run, jobs)


def batches(family, jobs, n=200):
    jobs = list(jobs)
    return [(family, jobs[i:i + n]) for i in range(0, len(jobs), n)]


def main(run):
    run.rule = 'one case = data given for one group of related variables; exact expected completion'
    deep = not run.quick
    it = itertools.product
    cls = lambda k: (None, 0, k) if not deep else (None, 0, k, 3 * k)  # noqa: E731
    side = [tuple(x) for x in it(cls(100), cls(12), cls(24), cls(60))] + [(96, 12, 24, 60), (120, 20, 40, 60), (60, None, None, 60)]
    jobs = batches('passengers', [('FLOPS', d, m) for d in side for m in side], 800)
    one = [(None,), (0,), (1,), (50,), (100,)]
    jobs += batches('passengers', [('GASP', d, m) for d in one for m in one])
    amounts = (None, 0, 1000, 2500, 4000.5)
    problems = (None,) + tuple(enums()['problem'])
    jobs += batches('cargo', it(problems, amounts, amounts, amounts, ('lbm', 'kg')))
    jobs += batches('bags', it((None, 0, 200.5), (None, 0, 80, 90.25), (None, 0, 35, 44.5)))
    pax = range(0, 802) if deep else (0, 1, 49, 50, 51, 52, 79, 80, 81, 119, 120, 149, 150, 151, 249, 250, 251, 300, 499, 500, 501)
    crew = list(it(pax, (None, -1, 0, 3), (None, -1, 0, 2), (None, 0, 4), (None, 0, 5)))
    jobs += batches('crew', crew, 500)
    ranges = [(r, 'nmi') for r in (0, 899, 900, 900.5, 2899, 2900, 2901, 8000)] + [(None, None), (1500, 'km'), (1700, 'km'), (6e6, 'm')]
    jobs += batches('baggage', [(r, u, b) for r, u in ranges for b in (None, 0, 20)])
    jobs += batches('tail', it((None, 0, 1, 2, [0], [1], [2], [0, 2], [2, 0], [1, 1], [0, 1]), (None, 'transport', 'BWB'), (None, 0, 0.5, 1)))
    amounts = (None, 0, 10.1, 20.2, 30.3, 40.4, 0.1, 0.2, 0.3) if deep else (None, 0, 10.1, 20.2, 30.3)
    totals = amounts + ((50.5, 60.6) if deep else (40.4, 60.6))
    jobs += batches('tanks', [(c, t, p, u) for c in ('FLOPS', 'GASP') for t in totals
                              for p in it(amounts, repeat=3) for u in ('lbm', 'kg')], 500)
    jobs += batches('layout', it(('FLOPS', 'GASP'), (None, 'transport', 'BWB'), (None, True, False),
                                 list(it((None, 45.5), (None, 55.5), (None, 65.5)))))
    jobs += batches('reference', it(('aspect_ratio', 'thickness_to_chord'), (None, 0.11, 11.5), (None, 0, 0.12)))
    jobs += batches('environment', it((None,) + tuple(enums()['atmosphere']), (None, 3.7), (None, 0.02), (None, 'FLOPS', 'GASP'), (None, 0, 0.04)))
    pmap(run, check, jobs, chunk=1)
