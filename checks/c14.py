"""C14: legacy input decks are converted variable by variable."""
import contextlib
import csv
import io
import itertools
import json
import math
import os
import warnings

from openmdao.utils.units import convert_units

from mc.harness import VERIF, pmap

with open(os.path.join(VERIF, 'data', 'legacy_names.json')) as f:
    NAMES = json.load(f)

A = 'aircraft:'
REQUIRED = dict(
    ALPHL0=-1.2, AR=10.13, ARHT=4.75, ARVT=1.67, CATD=3, DELP=7.5, DELTT=.1677, DFLPLD=40, DFLPTO=10, DLMC4=25,
    EYEW=0, PAX=180, PS=32, SAB=6, SAH=0, SLM=.33, SLMH=.352, SLMV=.801, TCHT=.12, TCR=.15, TCT=.12, TCVT=.12,
    UWNAC=3, UWPAX=200, VMLFSL=402.5, WAS=24, WS=20.2, YMG=.15, YP=.35)
DEFAULTED = ('DELTT', 'DFLPLD', 'DFLPTO', 'EYEW', 'YMG')
BASE = {
    'GASP': [(f'INGASP.{k}', v) for k, v in REQUIRED.items()] + [('INGASP.KNAC', 2)],
    'FLOPS': [('OPTION.IFITE', 0), ('CONFIN.TR', .3), ('CONFIN.SWEEP', 25), ('CONFIN.AR', 11), ('WTIN.ARHT', 5),
              ('WTIN.ARVT', 2), ('WTIN.SWPHT', 20), ('WTIN.SWPVT', 30)],
}
FULDEN = convert_units(6.7, 'lbm/galUS', 'lbm/ft**3')  # jet fuel


def deck(items):
    """The deck in its plainest spelling: one variable per line in its namelist."""
    out = []
    for name, v in items:
        if '.' in name and name.split('.')[0].isupper() and ':' not in name:
            nl, nm = name.split('.')
            out += [f' ${nl}', f'  {nm} = {v},', ' $END']
        else:
            out.append(f'{name} = {v}')
    return '\n'.join(out) + '\n'


def convert(text, code, name='deck.dat', out='deck.csv', **kw):
    from aviary.utils.fortran_to_aviary import fortran_to_aviary
    from aviary.variable_info.enums import LegacyCode

    here = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c14_{os.getpid()}')
    os.makedirs(here, exist_ok=True)
    src, dst = os.path.join(here, name), os.path.join(here, out)
    with open(src, 'w') as f:
        f.write(text)
    kw.setdefault('force', True)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        fortran_to_aviary(src, LegacyCode[code], dst, verbosity=0, **kw)
    return load(dst)


def number(x):
    try:
        return float(x)
    except ValueError:
        return x


def load(path):
    """Aviary variables name -> (values, units), initial guesses name -> value, and what was not converted."""
    part = None
    out = {'v': {}, 'g': {}, 'u': {}}
    with open(path, newline='') as f:
        for row in csv.reader(f):
            if not row:
                continue
            if row[0].startswith('#'):
                part = {'# Input Values': 'v', '# Initialization Guesses': 'g', '# Unconverted Values': 'u'}.get(row[0], part)
            elif part == 'v':
                out['v'][row[0]] = [number(x) for x in row[1:-1]] + [row[-1]]
            elif part:
                out[part][row[0]] = [number(x) for x in row[1:]]
    return out


def same(a, b):
    if a is None or b is None or len(a) != len(b):
        return a is None and b is None
    return all(x == y or (isinstance(x, float) and isinstance(y, float) and math.isclose(x, y, rel_tol=1e-9))
               for x, y in zip(a, b))


def diff(got, want, parts='vgu'):
    bad = []
    for p in parts:
        for k in sorted(set(got[p]) | set(want[p])):
            if p == 'u':
                g = {k.upper(): v for k, v in got[p].items()}.get(k.upper())
                w = {k.upper(): v for k, v in want[p].items()}.get(k.upper())
            else:
                g, w = got[p].get(k), want[p].get(k)
            if not same(g, w):
                bad.append((k, g, w))
    return bad


def copy(r):
    return {p: {k: list(v) for k, v in d.items()} for p, d in r.items()}


def put(r, name, *values, units=None):
    r['v'][name] = list(values) + [units]


_BASE = {}


def base(code, items=None):
    key = code, repr(items)
    if key not in _BASE:
        _BASE[key] = convert(deck(items or BASE[code]), code)
    return _BASE[key]


# legacy variables whose value means something else in Aviary: what a value adds to or changes in the result


def whole(name):
    return lambda r, v: put(r, name, float(int(v)), units='unitless')


def seats(name, default):
    return lambda r, v: put(r, name, float(int(v)) or default, units='unitless')


def tail(*names, units='unitless', factor=1.0):
    def rule(r, v):
        for n in names:
            put(r, n, v * factor, units=units)
    return rule


def misc(fraction, mass):
    def rule(r, v):
        if v >= 1:
            put(r, mass, v, units='lbm')
        put(r, fraction, v if v < 1 else 0.0, units='unitless')
    return rule


def wing_fuel(r, v):
    if v < 50:
        put(r, A + 'fuel:wing_fuel_fraction', v / (FULDEN * 2 / 3), units='unitless')
        r['v'].pop(A + 'fuel:wing_fuel_mass_capacity', None)
    else:
        put(r, A + 'fuel:wing_fuel_mass_capacity', v, units='lbm')


def first_class(r, v):
    put(r, A + 'crew_and_payload:design:num_first_class', float(int(v * 180)), units='unitless')
    put(r, A + 'crew_and_payload:design:num_economy_class', float(180 - int(v * 180)), units='unitless')


def design_range(r, v):
    put(r, A + 'design:range', v, units='NM')
    r['v'].pop('settings:problem_type', None)
    if v == 0:
        put(r, 'settings:problem_type', 'off_design_max_range', units='unitless')


def strut(r, v):
    put(r, A + 'strut:attachment_location', abs(v) if abs(v) >= 1 else v, units='ft')
    put(r, A + 'wing:has_strut', str(v != 0), units='unitless')
    put(r, A + 'strut:dimensional_location_specified', str(abs(v) >= 1), units='unitless')
    r['v'].pop(A + 'strut:attachment_location_dimensionless', None)
    if abs(v) < 1:
        put(r, A + 'strut:attachment_location_dimensionless', abs(v), units='unitless')
    if v < 0:
        put(r, A + 'wing:has_fold', 'True', units='unitless')
        put(r, A + 'wing:choose_fold_location', 'False', units='unitless')
        put(r, A + 'wing:fold_dimensional_location_specified', 'True', units='unitless')


def fold(r, v):
    put(r, A + 'wing:folded_span', v, units='ft')
    put(r, A + 'wing:has_fold', str(v != 0), units='unitless')
    put(r, A + 'wing:choose_fold_location', 'True', units='unitless')
    put(r, A + 'wing:fold_dimensional_location_specified', str(v > 1), units='unitless')


FLAPS = (('plain', .62, 60, .9, .12), ('split', 1., 60, .8, .23), ('single_slotted', .733, 40, 1.18, .13),
         ('double_slotted', 1.2, 55, 1.4, .23), ('triple_slotted', 1.32, 55, 1.6, .23), ('fowler', .633, 30, 1.67, .1),
         ('double_slotted_fowler', .678, 30, 2.25, .15))


def flaps(r, v):
    t = FLAPS[int(v) - 1]
    put(r, A + 'wing:flap_type', t[0], units='unitless')
    put(r, A + 'wing:high_lift_mass_coefficient', t[1], units='unitless')
    put(r, A + 'wing:optimum_flap_deflection', float(t[2]), units='deg')
    put(r, A + 'wing:flap_lift_increment_optimum', t[3], units='unitless')
    put(r, A + 'wing:flap_drag_increment_optimum', t[4], units='unitless')


def reserve(r, v):
    """Up to 0: margin as a share of the mission fuel; from 10: a mass (in between there is no rule)."""
    if v <= 0:
        put(r, 'mission:reserve_fuel_margin', -100 * v, units='unitless')
        v = 0.0
    put(r, 'mission:reserve_fuel_mass_additional', v, units='lbm')


def unless(name, units, drop):
    def rule(r, v):
        r['v'].pop(name, None)
        if not drop(v):
            put(r, name, v, units=units)
    return rule


def small(v):
    return v in (.25, 2.5, 3.)


def nacelle(r, v):
    r['u']['INGASP.KNAC'] = [v]
    if v != 2:
        r['v'].pop(A + 'nacelle:avg_diameter', None)
        r['v'].pop(A + 'nacelle:avg_length', None)


INTEGERS = (0., 1., 2., 3., 6., 12.)
NUMBERS = (.25, 2.5, 3., 125.75)
# name: (values, rule)
SPECIAL = {
    'FLOPS': {
        'WTIN.WPMISC': (NUMBERS + (1., .99, 0.), misc(A + 'engine:additional_mass_fraction', A + 'engine:additional_mass')),
        'WTIN.WPMSC': (NUMBERS + (1., .99, 0.), misc(A + 'propulsion:misc_mass_scaler', A + 'propulsion:total_misc_mass')),
        'WTIN.FULDEN': ((.25, 1., 1.1), tail(A + 'fuel:density', units='lbm/galUS', factor=6.7)),
        'WTIN.FULWMX': ((0., 20., 49.5, 50., 60., 24000.), wing_fuel),
        'WTIN.XL': ((.25, 125.75), lambda r, v: (put(r, A + 'fuselage:length', v, units='ft'),
                                                 put(r, A + 'fuselage:simple_layout', 'True', units='unitless'))),
        'WTIN.TRHT': ((.25, 2.5), tail(A + 'horizontal_tail:taper_ratio', A + 'vertical_tail:taper_ratio')),
        'WTIN.ETAW': (NUMBERS, lambda r, v: (put(r, A + 'wing:input_station_distribution', v, units='unitless'),
                                             put(r, A + 'wing:detailed_wing', 'True', units='unitless'))),
        'CONFIN.TR': ((.25, 2.5), tail(A + 'wing:taper_ratio', A + 'horizontal_tail:taper_ratio', A + 'vertical_tail:taper_ratio')),
        'CONFIN.TCA': ((.25, 2.5), tail(A + 'wing:thickness_to_chord', A + 'horizontal_tail:thickness_to_chord',
                                        A + 'vertical_tail:thickness_to_chord')),
        'WTIN.BPP': ((-1., 0., 35.), unless(A + 'crew_and_payload:baggage_mass_per_passenger', 'lbm', lambda v: v < 0)),
        'WTIN.WF': ((0., 12.5), unless(A + 'fuselage:max_width', 'ft', lambda v: v == 0)),
        'WTIN.DF': ((0., 12.5), unless(A + 'fuselage:max_height', 'ft', lambda v: v == 0)),
        'WTIN.XLP': ((0., 98.5), unless(A + 'fuselage:passenger_compartment_length', 'ft', lambda v: v == 0)),
        'TOLIN.CLAPP': ((1.5, 1.6), lambda r, v: (r['u'].update({'TOLIN.CLAPP': [v]}),
                                                  put(r, 'mission:landing:lift_coefficient_max', 1.69 * v, units='unitless'))),
        'MISSIN.FACT': ((.9, 1.05), tail(A + 'engine:subsonic_fuel_flow_scaler', A + 'engine:supersonic_fuel_flow_scaler')),
        'FUSEIN.SWPLE': ((45., 60.), lambda r, v: None),
    },
    'GASP': {
        'INGASP.PCT_FC': ((0., .1, .25, 1.), first_class),
        'INGASP.PAX': (INTEGERS + (150.,), whole(A + 'crew_and_payload:design:num_passengers')),
        'INGASP.SAB': (INTEGERS, seats(A + 'crew_and_payload:design:num_seats_abreast_economy', 6.)),
        'INGASP.PS': ((0., 30., 36.5), lambda r, v: put(r, A + 'crew_and_payload:design:seat_pitch_economy', v or 32., units='inch')),
        'INGASP.AS': (INTEGERS[1:], whole(A + 'fuselage:num_aisles')),
        'INGASP.ENP': (INTEGERS[1:], whole(A + 'engine:num_engines')),
        'INGASP.FLAPN': (INTEGERS[1:], whole(A + 'wing:num_flap_segments')),
        'INGASP.ARNGE': ((0., 500., 3600.), design_range),
        'INGASP.STRUT': ((0., .25, 1., 2.5, 30., -.25, -30.), strut),
        'INGASP.STRUTX': ((.25, 30.), strut),
        'INGASP.XSTRUT': ((.25, 30.), strut),
        'INGASP.YWFOLD': ((0., .25, 1., 2.5, 60.), fold),
        'INGASP.JFLTYP': ((1, 2, 3, 4, 5, 6, 7), flaps),
        'INGASP.FRESF': ((0., -.1, -1., 10., 5000.), reserve),
        'INGASP.XLFMX': ((1.15, 4., 4.5, 35.), unless('mission:landing:maximum_flare_load_factor', 'unitless', lambda v: v > 4)),
        'INGASP.KNAC': ((0, 1, 2, 3), nacelle),
    },
}
for _n, _l in (('wing', 'CKW'), ('horizontal_tail', 'CKHT'), ('vertical_tail', 'CKVT'), ('fuselage', 'CKF'), ('nacelle', 'CKN')):
    SPECIAL['GASP'][f'INGASP.{_l}'] = ((-1., -.5, 0., 1.25), unless(f'{A}{_n}:form_factor', 'unitless', lambda v: v < 0))
DRAG = {'FCFWC': ('wing:drag_factor', 'FCFWT'), 'FCFHTC': ('horizontal_tail:drag_factor', 'FCFHTT'),
        'FCFVTC': ('vertical_tail:drag_factor', 'FCFVTT'), 'FCFFC': ('fuselage:drag_factor', 'FCFFT'),
        'FCFNC': ('nacelle:drag_factor', 'FCFNT'), 'FCFSTRC': ('strut:drag_factor', 'FCFSTRT'),
        'FCKIC': ('design:interference_drag_factor', 'FCKIT')}
# the gear ratio is inverted, the file names and choices below have no numbers
SPECIAL['GASP']['INPROP.GR'] = ((.25, 4., 12.5), lambda r, v: put(r, A + 'engine:gearbox:gear_ratio', 1 / v, units='unitless'))
OWN_FAMILY = {'OPTION.IFITE'}
# converted with other units than Aviary has for it, as the reference conversions of the test suite have it
UNITS = {'aircraft:engine:gearbox:shaft_power_design': None}
# a scaler from the limit on is the mass or area itself
LIMIT = {'FLOPS': 5., 'GASP': 10.}
MASS_OR_AREA = {
    'FLOPS': [A + n for n in (
        'air_conditioning:mass', 'anti_icing:mass', 'apu:mass', 'avionics:mass', 'canard:mass', 'canard:wetted_area',
        'crew_and_payload:cargo_container_mass', 'crew_and_payload:flight_crew_mass', 'crew_and_payload:cabin_crew_mass',
        'crew_and_payload:passenger_service_mass', 'design:empty_mass_margin', 'electrical:mass',
        'engine:thrust_reversers_mass', 'fins:mass', 'fuel:fuel_system_mass', 'fuel:unusable_fuel_mass', 'furnishings:mass',
        'fuselage:mass', 'fuselage:wetted_area', 'horizontal_tail:mass', 'horizontal_tail:wetted_area', 'hydraulics:mass',
        'instruments:mass', 'landing_gear:main_gear_mass', 'landing_gear:nose_gear_mass', 'nacelle:mass', 'nacelle:wetted_area',
        'propulsion:total_engine_oil_mass', 'vertical_tail:mass', 'vertical_tail:wetted_area', 'wing:mass',
        'wing:shear_control_mass', 'wing:surface_control_mass', 'wing:wetted_area')],
    'GASP': [A + 'fuselage:wetted_area'],
}


def truth(v):
    return {0.: 'False', 1.: 'True'}.get(v, v)


def apply(r, code, name, v, flag=False):
    """What variable name = v means for the result r of a deck without it."""
    upper = name.upper()
    if upper in SPECIAL[code]:
        SPECIAL[code][upper][1](r, v)
        return
    for av, units in NAMES[code][name].items():
        if av in UNITS and UNITS[av] is None:
            units = r['v'].get(av, ['unitless'])[-1]
        if av.endswith('_scaler') and av[:-7] in MASS_OR_AREA[code] and v > LIMIT[code]:
            put(r, av[:-7], v, units='ft**2' if 'area' in av else 'lbm')
            r['v'].pop(av, None)
        else:
            put(r, av, truth(v) if flag else v, units=units)


def is_flag(code, name):
    """Variables that are true or false unless given."""
    return any(base(code)['v'].get(av, [0])[0] in ('True', 'False') for av in NAMES[code].get(name, {}))


def report(run, kind, text, code, bad, about):
    run.violation(f'{kind}: {about}, {bad[0][0]}', f'{code} deck {text!r} is converted with (variable, got, expected) {bad[:4]}'[:1500],
                  dict(code=code, deck=text, wrong=bad))


def try_deck(run, kind, code, text, want, about, parts='vgu'):
    run.seen([code, text], outcome=kind)
    try:
        got = convert(text, code)
    except Exception as e:  # noqa: BLE001
        run.violation(f'{kind} fails: {about}', f'{code} deck {text!r}: {type(e).__name__}: {e}'[:1500], dict(code=code, deck=text))
        return None
    run.state([code, sorted(got['v'].items())])
    bad = diff(got, want, parts)
    if bad:
        report(run, kind, text, code, bad, about)
    return got


def variables(run, chunk):
    """Every legacy variable x value: exactly its Aviary variables change."""
    for code, name, v in chunk:
        if name in ('INGASP.' + k for k in DRAG) or name in OWN_FAMILY:
            continue
        flag = is_flag(code, name)
        want = copy(base(code))
        apply(want, code, name, v, flag)
        text = deck(BASE[code] + [(name, v)])
        try_deck(run, 'variable', code, text, want, name)


def variable_cases(quick):
    for code in NAMES:
        for name in sorted(set(NAMES[code]) | set(SPECIAL[code])):
            if name in SPECIAL[code]:
                values = SPECIAL[code][name][0]
            elif is_flag(code, name):
                values = (0., 1.)
            else:
                values = (.25, 2.5, 3., 125.75)
            for v in values:
                yield code, name, v


SMALL = {'FLOPS': ('WTIN.SWTWTS', 'CONFIN.SW', 'WTIN.DIH', 'AERIN.VAPPR', 'WTIN.CARGF', 'WTIN.FRWI'),
         'GASP': ('INGASP.ELN', 'INGASP.BTEOB', 'INGASP.DELCG', 'INGASP.WPAX', 'INGASP.CW(3)', 'INGASP.CK5')}


def pick(code, n):
    """Plain variables of different namelists, spread over the alphabet."""
    plain = [x for x in sorted(NAMES[code]) if x not in SPECIAL[code] and x not in OWN_FAMILY and len(NAMES[code][x]) == 1
             and not is_flag(code, x) and '(' not in x and x[7:] not in DRAG and x.split('.')[1] not in REQUIRED
             and not any(k.endswith('_scaler') or k in UNITS for k in NAMES[code][x])
             and x not in [k for k, _ in BASE[code]]]
    step = max(1, len(plain) // n)
    return plain[::step][:n]


def pairs(run, chunk):
    """Two variables in either order: each has the effect it has alone; given twice, the later value holds."""
    for code, a, b in chunk:
        want = copy(base(code))
        if a == b:
            apply(want, code, b, 4.5, False)
            try_deck(run, 'given twice', code, deck(BASE[code] + [(a, .75), (b, 4.5)]), want, a)
            continue
        if set(NAMES[code].get(a, ())) & set(NAMES[code].get(b, ())):
            continue  # two names of one variable: which holds is not specified
        apply(want, code, a, .75, False)
        apply(want, code, b, 4.5, False)
        for order in (((a, .75), (b, 4.5)), ((b, 4.5), (a, .75))):
            try_deck(run, 'two variables', code, deck(BASE[code] + list(order)), want, f'{a}, {b}')


CASES = (str.upper, str.lower, str.title)
AROUND = ('{n}={v}', ' {n} = {v}', '\t{n}\t=\t{v} ')
SPLIT = ('line,', 'line', 'one line', 'two per line')
COMMENT = ('', ' ! note: x = 3, $END', 'lines')
OPEN = ('$', '&', ' $ ', 'with data')
CLOSE = ('$END', '&END', '/', ' last /')
FORMATS = ('{:g}', '{:.4E}', '{:+.3f}')


def spelled(items, case, around, split, comment, open_, close, fmt):
    """The same deck in another spelling; items of one namelist."""
    nl = items[0][0].split('.')[0]
    pairs_ = [around.format(n=case(n.split('.')[1]), v=fmt.format(v)) for n, v in items]
    mark = '&' if '&' in open_ else '$'
    body = {'line,': [x + ',' for x in pairs_], 'line': pairs_, 'one line': [','.join(pairs_) + ','],
            'two per line': [','.join(pairs_[i:i + 2]) + ',' for i in range(0, len(pairs_), 2)]}[split]
    head = f'{mark}{case(nl)}' if open_ != ' $ ' else f' $ {case(nl)} '
    if open_ == 'with data':
        body[0] = head + ' ' + body[0]
    else:
        body.insert(0, head)
    if close == ' last /':
        body[-1] += ' /'
    else:
        body.append(close if close == '/' else ' ' + mark + 'END')
    if comment == 'lines':
        body = ['! deck = of test', ''] + [y for x in body for y in (x, ' ! $WTIN', '   ')]
    elif comment:
        body = [x + comment for x in body]
    return '\n'.join(body) + '\n'


def spellings(run, chunk):
    for code, nl, dims in chunk:
        items = [(n, v) for n, v in zip([x for x in NAMES[code] if x.startswith(nl + '.') and x in pick(code, 60)][:4], (.75, 4.5, 1200., -2.))]
        want = copy(base(code))
        for n, v in items:
            apply(want, code, n, v)
        text = spelled(items, *dims)
        got = try_deck(run, 'spelling', code, deck(BASE[code]) + text, want, f'{nl} {dims[1:]}')
        run.transitions += got is not None


def spelling_cases(quick):
    for code in NAMES:
        groups = {}
        for x in pick(code, 60):
            groups.setdefault(x.split('.')[0], []).append(x)
        groups = [g for g in sorted(groups) if len(groups[g]) > 1][: 1 if quick else None]
        for nl in groups:
            for dims in itertools.product(CASES, AROUND, SPLIT, COMMENT, OPEN, CLOSE, FORMATS):
                if quick and (dims[0] is str.title or dims[6] == FORMATS[2]):
                    continue
                yield code, nl, dims


def lists(run, chunk):
    """Lists as a whole and element by element in any order."""
    for code, name, ops in chunk:
        cur = None
        items = []
        for op in ops:
            if isinstance(op, tuple):
                i, v = op
                cur = list(cur or [0.])
                cur += [0.] * (i - len(cur))
                cur[i - 1] = v
                items.append((f'{name}({i})', v))
            else:
                cur = list(op)
                items.append((name, ', '.join(map(str, op))))
        want = copy(base(code))
        for av, units in NAMES[code][name].items():
            put(want, av, *cur, units=units)
        try_deck(run, 'list', code, deck(BASE[code] + items), want, name)


def list_cases(quick):
    ops = [(1, 4.5), (2, -2.5), (3, .125), [1.5, 2.5, 3.5]]
    for code in NAMES:
        for name in pick(code, 2 if quick else 12):
            if base(code)['v'].get(list(NAMES[code][name])[0]):
                continue
            for n in (1, 2, 3, 4):
                for seq in itertools.permutations(ops, n):
                    yield code, name, [tuple(x) if isinstance(x, tuple) else list(x) for x in seq]
            for n in range(1, 9):
                yield code, name, [[.5 * k for k in range(1, n + 1)]]


def drag_factors(run, chunk):
    for given in chunk:
        want = copy(base('GASP'))
        items = []
        for key, (v, tech) in given.items():
            av, t = DRAG[key]
            items += [(f'INGASP.{key}', v)] + ([(f'INGASP.{t}', tech)] if tech is not None else [])
            put(want, A + av, round(v * (1 if tech is None else tech), 6), units='unitless')
        for order in (items, items[::-1]):
            for low in (False, True):
                text = deck(BASE['GASP'] + order)
                if low:
                    text = text.replace('FCF', 'fcf').replace('FCK', 'fck')
                try_deck(run, 'drag factor', 'GASP', text, want, f'{sorted(given)}')


def drag_cases(quick):
    for k in DRAG:
        for v in (.25, 1., 3.):
            for t in (None, .9, 1.25):
                yield {k: (v, t)}
    for a, b in itertools.permutations(DRAG, 2):
        yield {a: (.5, .9), b: (1.5, 1.25)}


ABSENT = None
TAILS = {  # wing, horizontal tail, vertical tail; values meaning `not given`
    'taper': (('CONFIN.TR', 'wing:taper_ratio'), ('WTIN.TRHT', 'horizontal_tail:taper_ratio'),
              ('WTIN.TRVT', 'vertical_tail:taper_ratio'), 'unitless', -1., (1., 1.), 'ht'),
    'sweep': (('CONFIN.SWEEP', 'wing:sweep'), ('WTIN.SWPHT', 'horizontal_tail:sweep'),
              ('WTIN.SWPVT', 'vertical_tail:sweep'), 'deg', -100., (1., 1.), 'ht'),
    'aspect': (('CONFIN.AR', 'wing:aspect_ratio'), ('WTIN.ARHT', 'horizontal_tail:aspect_ratio'),
               ('WTIN.ARVT', 'vertical_tail:aspect_ratio'), 'unitless', -1., (1., .5), 'ht'),
    'thickness': (('CONFIN.TCA', 'wing:thickness_to_chord'), ('WTIN.TCHT', 'horizontal_tail:thickness_to_chord'),
                  ('WTIN.TCVT', 'vertical_tail:thickness_to_chord'), 'unitless', 0., (1., 1.), 'wing'),
}


def tails(run, chunk):
    """Tail data that are not given come from the wing or the other tail."""
    for kind, w, h, v in chunk:
        names = TAILS[kind]
        units, none, factors, origin = names[3:]
        items = [('OPTION.IFITE', 0)] + [(n, x) for (n, _), x in zip(names, (w, h, v)) if x is not None]
        want = copy(base('FLOPS', [('OPTION.IFITE', 0)]))
        gw = w
        gh = h if h not in (None, none) else (gw * factors[0] if gw is not None else h)
        src = gh if origin == 'ht' else gw
        gv = v if v not in (None, none) else (src * factors[1] if src is not None else v)
        if origin == 'ht' and gh == none:
            continue
        for (_, av), x in zip(names, (gw, gh, gv)):
            if x is not None:
                put(want, A + av, x, units=units)
        try_deck(run, 'tail', 'FLOPS', deck(items), want, f'{kind} w={w} h={h} v={v}')


def tail_cases(quick):
    for kind, t in TAILS.items():
        for case in itertools.product((None, .25), (None, t[4], .5), (None, t[4], .75)):
            yield (kind, *case)


def bwb(run, chunk):
    """Blended wing body decks: what follows from their variables."""
    start = [('OPTION.IFITE', 3)] + BASE['FLOPS'][1:]
    for xl, sweep, thrust, ref, dist, tc, ratio, density, fuel in chunk:
        want = copy(base('FLOPS'))
        items = list(start)
        V = want['v']
        V.pop(A + 'wing:aspect_ratio')
        put(want, A + 'design:type', 'BWB', units='unitless')
        put(want, A + 'wing:detailed_wing', 'True', units='unitless')
        if xl is not None:
            items.append(('WTIN.XL', xl))
            if xl:
                put(want, A + 'fuselage:length', xl, units='ft')
        if sweep is not None:
            items.append(('FUSEIN.SWPLE', sweep))
        s = 45. if sweep is None else sweep
        put(want, A + 'blended_wing_body_design:passenger_leading_edge_sweep', s, units='deg')
        put(want, A + 'fuselage:simple_layout', str(bool(xl) and s > 0), units='unitless')
        if thrust:
            items.append(('CONFIN.THRUST', ', '.join(map(str, thrust))))
            put(want, A + 'engine:scaled_sls_thrust', thrust[0], units='lbf')
        if ref:
            items.append(('WTIN.THRSO', ref))
            put(want, A + 'engine:reference_sls_thrust', ref, units='lbf')
        if thrust and ref:
            put(want, A + 'engine:scale_factor', thrust[0] / ref, units='unitless')
        put(want, A + 'blended_wing_body_design:detailed_wing_provided', str(bool(dist)), units='unitless')
        put(want, A + 'wing:input_station_distribution', 0., .5, 1., units='unitless')
        if dist:
            eta, chord, toc, swl = dist
            for n, x in zip(('ETAW', 'CHD', 'TOC', 'SWL'), dist):
                items.append((f'WTIN.{n}', ', '.join(map(str, x))))
            n = len(eta)
            put(want, A + 'wing:input_station_distribution', 0., *eta, units='unitless')
            put(want, A + 'wing:chord_per_semispan_distribution', -1., *chord[:n], units='unitless')
            put(want, A + 'wing:thickness_to_chord_distribution', -1., *toc[:n], units='unitless')
            put(want, A + 'wing:load_path_sweep_distribution', 0., *swl[:n - 1], units='deg')
        if tc is not None:
            items.append(('CONFIN.TCA', tc))
            for n in ('wing:thickness_to_chord', 'horizontal_tail:thickness_to_chord', 'vertical_tail:thickness_to_chord',
                      'fuselage:height_to_width_ratio'):
                put(want, A + n, tc, units='unitless')
        if ratio is not None:
            items.append(('WTIN.TCF', ratio))
            put(want, A + 'fuselage:height_to_width_ratio', ratio, units='unitless')
        rho = FULDEN
        if density is not None:
            items.append(('WTIN.FULDEN', density))
            rho *= density
            put(want, A + 'fuel:density', 6.7 * density, units='lbm/galUS')
        if fuel is not None:
            items.append(('WTIN.FULWMX', fuel))
        put(want, A + 'fuel:wing_fuel_fraction', (23. if fuel is None or fuel < 0 else fuel) / (rho * 2 / 3), units='unitless')
        for order in (items, items[::-1]):
            try_deck(run, 'BWB', 'FLOPS', deck(order), want, str(sorted(n for n, _ in items[len(start):])))


def bwb_cases(quick):
    dims = [(None, 0., 125.), (None, 0., 60.), (None, (50000.,), (50000., 1., 2.)), (None, 80000.),
            (None, ((.5, 1.), (.3, .2), (.1, .12), (20., 30.)), ((.25, .5, 1.), (.4, .3, .2, .1), (.1, .12, .1), (20., 25., 30.))),
            (None, .11), (None, .2), (None, 1.1), (None, 20., -1.)]
    if not quick:
        yield from itertools.product(*dims)
        return
    # all values of every two of them, the rest absent
    done = set()
    for i, j in itertools.combinations(range(len(dims)), 2):
        for x, y in itertools.product(dims[i], dims[j]):
            case = [None] * len(dims)
            case[i], case[j] = x, y
            if repr(case) not in done:
                done.add(repr(case))
                yield tuple(case)


def fuel_flow(run, chunk):
    """The factor of the whole mission multiplies those of the engine."""
    for sub, sup, fact, order, case in chunk:
        want = copy(base('FLOPS'))
        items = []
        for n, av, x in (('FFFSUB', 'subsonic', sub), ('FFFSUP', 'supersonic', sup)):
            if x is not None:
                items.append((f'ENGDIN.{n}', x))
            if x is not None or fact is not None:
                put(want, f'{A}engine:{av}_fuel_flow_scaler', (1. if x is None else x) * (1. if fact is None else fact), units='unitless')
        if fact is not None:
            items.append(('MISSIN.fact', fact))
        text = deck(BASE['FLOPS'] + [items[k] for k in order if k < len(items)]).replace('fact', case('fact'))
        try_deck(run, 'fuel flow', 'FLOPS', text, want, f'{sub} {sup} {fact}')


def fuel_flow_cases(quick):
    return itertools.product((None, .9, 1.1), (None, .8, 1.2), (None, .5, 1., 1.5), itertools.permutations(range(3)), (str.upper, str.lower))


UNIT_CASES = (('aircraft:fuselage:pressure_differential', '.5, atm', [.5, 'atm']),
              ('aircraft:wing:sweep', '0.5, rad', [.5, 'rad']), ('aircraft:wing:sweep', '20', [20., 'deg']),
              ('aircraft:wing:span', '35.5, m', [35.5, 'm']), ('aircraft:wing:span', '117.5', [117.5, 'ft']),
              ('aircraft:wing:incidence', '1.5, 2.5, rad', [1.5, 2.5, 'rad']),
              ('aircraft:fuselage:aisle_width', '0.5, m', [.5, 'm']),
              ('aircraft:wing:taper_ratio', '0.5', [.5, 'unitless']),
              ('mission:taxi:duration', '600, s', [600., 's']))


def aviary_names(run, chunk):
    """Aviary names outside of namelists, with or without units, before or after the legacy variables."""
    for code, (name, text, want_), place, case in chunk:
        want = copy(base(code))
        want['v'][name] = list(want_)
        line = f'{case(name)} = {text} ! Aviary name\n'
        if place == 'first':
            # what the deck gives afterwards holds
            if any(name in NAMES[code].get(n, {}) for n, _ in BASE[code]):
                continue
            d = line + deck(BASE[code])
        else:
            d = deck(BASE[code]) + line
        if code == 'FLOPS' and name in (A + 'wing:taper_ratio', A + 'wing:sweep'):
            if name.endswith('taper_ratio'):
                for t in ('horizontal', 'vertical'):
                    put(want, f'{A}{t}_tail:taper_ratio', want_[0], units='unitless')
        try_deck(run, 'Aviary name', code, d, want, f'{name} {text} {place}')


def guesses(run, chunk):
    for name, value, case in chunk:
        want = copy(base('GASP'))
        want['g'][name] = [value]
        try_deck(run, 'initial guess', 'GASP', deck(BASE['GASP']) + f'{case(name)} = {value:g}\n', want, name)


def legacy_units(run, chunk):
    """Units given with a legacy variable."""
    for code, name, value, units in chunk:
        want = copy(base(code))
        for av in NAMES[code][name]:
            put(want, av, value, units=units)
        try_deck(run, 'units', code, deck(BASE[code] + [(name, f'{value}, {units}')]), want, f'{name} {units}')


OTHER = {'ft': 'm', 'ft**2': 'm**2', 'lbm': 'kg', 'deg': 'rad', 'lbf': 'N', 'psi': 'Pa', 'inch': 'cm', 'kn': 'm/s', 'NM': 'km',
         'h': 's', 'min': 's', 'lbf/ft**2': 'Pa', 'lbm/ft**2': 'kg/m**2', 'galUS': 'm**3', 'ft**3': 'm**3', 'degF': 'degC', 'ft/s': 'm/s'}


def unit_cases(quick):
    for code in NAMES:
        for name in sorted(NAMES[code]):
            if name in SPECIAL[code] or name in OWN_FAMILY or '(' in name or name in [n for n, _ in BASE[code]]:
                continue
            if name[7:] in DRAG or any(k in UNITS or k.endswith('_scaler') or k.endswith('sls_thrust') for k in NAMES[code][name]):
                continue
            for u in sorted(set(NAMES[code][name].values())):
                if u in OTHER:
                    yield code, name, 2.5, OTHER[u]


HISTORY = [
    ('GASP', [('cruise_mass_final', 120000.)], {}), ('GASP', [('INGASP.WG', 175400.)], {}), ('GASP', [], {}),
    ('GASP', [('INGASP.CW(3)', .5)], {}),
    ('FLOPS', [], {}), ('FLOPS', [('CONFIN.SW', 1370.)], {}), ('FLOPS', [('WTIN.FRWI', 12000.)], {}),
    ('GASP', [('INGASP.ARNGE(1)', 3600), ('INGASP.STRUT', 30.)], {}),
    ('GASP', 'refused', {}), ('FLOPS', 'refused', {}),
]


def one(i):
    code, extra, _ = HISTORY[i]
    if extra == 'refused':
        text = ' $INGASP\n AR=10,\n KNAC=2,\n $END\nreserves = 5000\n' if code == 'GASP' else ' $OPTION\n IFITE=1,\n $END\n'
    else:
        text = deck(BASE[code] + extra)
    try:
        return convert(text, code)
    except Exception as e:  # noqa: BLE001 - the refusals are judged on their own
        return {'v': {'refused': [type(e).__name__, str(e)]}, 'g': {}, 'u': {}}


def histories(run, chunk):
    """A conversion gives the same whatever was converted before in the same session."""
    for seq, alone in chunk:
        for n, i in enumerate(seq):
            got = one(i)
            run.transitions += 1
            bad = diff(got, alone[i])
            run.seen([seq, n], outcome='history')
            if bad:
                report(run, 'history', str([HISTORY[k][:2] for k in seq[:n + 1]]), HISTORY[i][0], bad, str(HISTORY[i][:2]))
                return


def alone(i):
    """The conversion in a process of its own."""
    import subprocess
    import sys
    code = f'import json; from checks import c14; print("@@" + json.dumps(c14.one({i})))'
    p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=dict(os.environ))
    return json.loads(p.stdout.split('@@')[1])


def refusals(run, chunk):
    for kind, *args in chunk:
        run.seen([kind, args], outcome='refusal')
        if kind == 'missing':
            gone = args[0]
            text = deck([(n, v) for n, v in BASE['GASP'] if n.split('.')[1] not in gone])
            try:
                convert(text, 'GASP')
                run.violation(f'accepted without {gone}', f'GASP deck without {gone} is converted', dict(deck=text))
            except RuntimeError as e:
                lost = [g for g in gone if f"'{g}'" not in str(e)]
                extra = [k for k in REQUIRED if k not in gone and f"'{k}'" in str(e)]
                if lost or extra:
                    run.violation(f'refusal names {lost or extra}', f'GASP deck without {gone}: {e}', dict(deck=text))
            except Exception as e:  # noqa: BLE001
                run.violation(f'refusal {gone}', f'GASP deck without {gone}: {e!r}', dict(deck=text))
        elif kind == 'type':
            text = deck([('OPTION.IFITE', args[0])] + BASE['FLOPS'][1:])
            try:
                got = convert(text, 'FLOPS')
                if args[0] not in (0, 3):
                    run.violation(f'type {args[0]}', f'FLOPS deck with IFITE={args[0]} is converted', dict(deck=text))
                elif got['v'][A + 'design:type'][0] != {0: 'transport', 3: 'BWB'}[args[0]]:
                    run.violation(f'type {args[0]}', f'FLOPS deck with IFITE={args[0]}: {got["v"][A + "design:type"]}', dict(deck=text))
            except ValueError as e:
                if args[0] in (0, 3):
                    run.violation(f'type {args[0]}', f'FLOPS deck with IFITE={args[0]}: {e!r}', dict(deck=text))
        elif kind == 'existing':
            code, force = args
            old = convert(deck(BASE[code]), code, out='existing.csv')
            path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'c14_{os.getpid()}', 'existing.csv')
            with open(path) as f:
                before = f.read()
            name = pick(code, 1)[0]
            try:
                new = convert(deck(BASE[code] + [(name, 4.5)]), code, out='existing.csv', force=force)
                if not force:
                    run.violation('overwritten', f'{code}: an existing output file is overwritten without force', dict(code=code))
                elif not diff(new, old):
                    run.violation('not overwritten', f'{code}: the existing output file is kept with force', dict(code=code))
            except RuntimeError as e:
                with open(path) as f:
                    if force or f.read() != before:
                        run.violation('existing', f'{code}, force={force}: {e}', dict(code=code))
        elif kind == 'ignored':
            code, name = args
            want = base(code)
            try_deck(run, 'ignored', code, deck(BASE[code] + [(name, 2.5)]), want, name)
        elif kind == 'unknown':
            code, name, v = args
            want = copy(base(code))
            want['u'][name] = [v]
            try_deck(run, 'unknown', code, deck(BASE[code] + [(name, v)]), want, name)


IGNORED = ('AERIN.MODARO', 'ENGDIN.IGENEN', 'OPTION.IOPT', 'OPTION.NOISE')


def refusal_cases(quick):
    names = sorted(set(REQUIRED) - set(DEFAULTED))
    for n in (1, 2) if quick else (1, 2, 3):
        for gone in itertools.combinations(names, n):
            yield 'missing', list(gone)
    yield 'missing', names
    for i in range(-1, 7):
        yield 'type', i
    for code in NAMES:
        for force in (True, False):
            yield 'existing', code, force
    for name in IGNORED:
        yield 'ignored', 'FLOPS', name
    # names that only resemble known ones
    for name in ('ENGDIN.NO', 'OPTION.IPOL', 'ENGDIN.BOOSTX', 'WTIN.XXW', 'AERIN.M', 'WTIN.CARBA', 'OPTION.IOP'):
        yield 'unknown', 'FLOPS', name, 2.5
    for name in ('INGASP.NGASP', 'INGASP.FCF', 'INGASP.R', 'XINGASP.AR', 'INGASP.ARX', 'INPROP.G'):
        yield 'unknown', 'GASP', name, 2.5


FAMILIES = {'variables': variables, 'pairs': pairs, 'spellings': spellings, 'lists': lists, 'drag': drag_factors, 'tails': tails,
            'bwb': bwb, 'fuel flow': fuel_flow,
            'aviary': aviary_names, 'guesses': guesses, 'units': legacy_units, 'histories': histories, 'refusals': refusals}


def dispatch(run, chunk):
    for family, case in chunk:
        with run.guard(f'{family} {case}'[:300]):
            FAMILIES[family](run, [case])


def main(run):
    run.rule = 'one case = one deck converted'
    jobs = [('variables', c) for c in variable_cases(run.quick)]
    for code in NAMES:
        some = pick(code, 14 if run.quick else 70)
        jobs += [('pairs', (code, a, b)) for a, b in itertools.combinations_with_replacement(some, 2)]
    jobs += [('spellings', c) for c in spelling_cases(run.quick)]
    jobs += [('lists', c) for c in list_cases(run.quick)]
    jobs += [('drag', c) for c in drag_cases(run.quick)]
    jobs += [('bwb', c) for c in bwb_cases(run.quick)]
    jobs += [('fuel flow', c) for c in fuel_flow_cases(run.quick)]
    jobs += [('tails', c) for c in tail_cases(run.quick)]
    jobs += [('aviary', c) for c in itertools.product(NAMES, UNIT_CASES, ('first', 'last'), (str, str.upper))]
    jobs += [('guesses', c) for c in itertools.product(
        ('actual_takeoff_mass', 'rotation_mass', 'fuel_burn_per_passenger_mile', 'cruise_mass_final', 'flight_duration',
         'time_to_climb', 'climb_range', 'reserves'), (1.5, 120000.), (str, str.upper))]
    jobs += [('units', c) for c in unit_cases(run.quick)]
    ref = {i: alone(i) for i in range(len(HISTORY))}
    n = range(len(HISTORY))
    jobs += [('histories', (list(s), ref)) for s in itertools.product(n, repeat=2 if run.quick else 3)]
    jobs += [('refusals', c) for c in refusal_cases(run.quick)]
    pmap(run, dispatch, jobs, chunk=64)
