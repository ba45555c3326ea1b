"""
C04: engine decks reproduce the performance data they are built from.

Exhaustive over small ragged layouts (altitudes per Mach number x throttle settings per condition) x
row order x interpolation sort x throttle normalisation, then over the column sets, names and units,
file or memory, the scaling inputs, the refusals, and flight idle. Every case builds a real engine
deck, puts its mission group in a problem and evaluates it at every tabulated point, against an
oracle computed from the table alone.
"""
import itertools
import os

import numpy as np

from mc.harness import call, close, pmap

ALTS = [0.0, 10000.0, 20000.0, 33000.0]
MACHS = [0.0, 0.3, 0.6, 0.85]
THROT = [21.0, 26.0, 35.0, 50.0]
# alias -> (canonical, units of the oracle)
COLS = {
    'mach': ('mach', 'unitless'),
    'altitude': ('altitude', 'ft'),
    'throttle': ('throttle', 'unitless'),
    'hybrid_throttle': ('hybrid_throttle', 'unitless'),
    'thrust': ('thrust', 'lbf'),
    'gross_thrust': ('gross_thrust', 'lbf'),
    'ram_drag': ('ram_drag', 'lbf'),
    'tailpipe_thrust': ('tailpipe_thrust', 'lbf'),
    'fuel_flow': ('fuel_flow', 'lbm/h'),
    'nox': ('nox', 'lbm/h'),
    'electric_power': ('electric_power', 'kW'),
    't4': ('t4', 'degR'),
    'shaft_power': ('shaft_power', 'hp'),
    'shaft_power_corrected': ('shaft_power_corrected', 'hp'),
    'rpm': ('rpm', 'rpm'),
}
ALIASES = {
    'mach': ['m', 'mn', 'mach', 'Mach Number'],
    'altitude': ['altitude', 'Alt', 'h'],
    'throttle': ['throttle', 'Power Code', 'pc'],
    'hybrid_throttle': ['hybrid_throttle', 'HPC', 'hybrid power code', 'electric_throttle'],
    'thrust': ['thrust', 'Net Thrust'],
    'gross_thrust': ['Gross Thrust'],
    'ram_drag': ['Ram Drag'],
    'fuel_flow': ['fuel', 'Fuel Flow', 'fuel flow rate'],
    'electric_power': ['Electric Power In', 'electric_power'],
    'nox': ['NOx', 'NOx Rate'],
    't4': ['T4', 'temp', 'Temperature', 'T4 Temperature'],
    'shaft_power': ['Shaft Power', 'SHP'],
    'shaft_power_corrected': ['shaft_power_corrected', 'shpcor', 'Corrected Horsepower'],
    'tailpipe_thrust': ['Tailpipe Thrust'],
    'rpm': ['RPM', 'rotations per minute'],
}
UNITS = {
    'mach': ['unitless'], 'throttle': ['unitless'], 'hybrid_throttle': ['unitless'],
    'altitude': ['ft', 'm', 'km'], 'thrust': ['lbf', 'N', 'kN'], 'gross_thrust': ['lbf', 'N'],
    'ram_drag': ['lbf', 'kN'], 'tailpipe_thrust': ['lbf', 'N'], 'fuel_flow': ['lbm/h', 'kg/s'],
    'nox': ['lbm/h', 'kg/h'], 'electric_power': ['kW', 'W', 'hp'], 't4': ['degR', 'degK', 'degF'],
    'shaft_power': ['hp', 'kW'], 'shaft_power_corrected': ['hp', 'W'], 'rpm': ['rpm', 'rev/s'],
}


def table(conds, hybrid=None):
    """conds: list of (mach, alt, [throttles]) -> dict column -> array, unscaled canonical units."""
    rows = []
    for m, a, ts in conds:
        for t in ts:
            for h in hybrid or [0.0]:
                x = (t - 15.0) / 35.0
                d = 1 - a / 60000.0
                th = 9000.0 * x**1.3 * d * (1 - 0.35 * m + 0.3 * m * m) + 40.0 + 250.0 * h
                rd = 700.0 * m * d * (0.5 + x)
                rows.append(dict(
                    mach=m, altitude=a, throttle=t, hybrid_throttle=h, thrust=th,
                    gross_thrust=th + rd, ram_drag=rd, tailpipe_thrust=31.0 * x * d + 3.0 * m,
                    fuel_flow=4000.0 * x**1.6 * d + 310.0 + 60.0 * m - 30 * h,
                    nox=20.0 + 9.0 * x - 3.0 * m, electric_power=120.0 * x + 7.0 * m + 80.0 * h,
                    t4=1800.0 + 900.0 * x + 50.0 * m, shaft_power=1100.0 * x * d + 90.0 * m + 10.0,
                    shaft_power_corrected=1000.0 * x + 70.0 * m + 12.0,
                    rpm=12000.0 + 8000.0 * x))
    return {k: np.array([r[k] for r in rows]) for k in rows[0]}


def conv(v, a, b):
    from openmdao.utils.units import convert_units

    return v if a == b else convert_units(v, a, b)


def orders(n):
    idx = list(range(n))
    return {
        'sorted': idx,
        'reversed': idx[::-1],
        'interleaved': idx[::2] + idx[1::2],
        'spread': sorted(idx, key=lambda i: ((i * 7919 + 13) % 101, i)),
    }


def named(tab, cols, order, units=None, alias=None):
    from aviary.utils.named_values import NamedValues

    nv = NamedValues()
    for c in cols:
        u0 = COLS[c][1]
        u = (units or {}).get(c, u0)
        nv.set_val((alias or {}).get(c, c), conv(tab[c], u0, u)[order], u)
    return nv


def build(tab, cols, order, opts=None, units=None, alias=None, from_file=False, required=None,
          label=None):
    from aviary.subsystems.propulsion.engine_deck import EngineDeck
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.csv_data_file import write_data_file
    from aviary.variable_info.variables import Aircraft

    o = AviaryValues()
    o.set_val('settings:verbosity', 0)
    for k, v in (opts or {}).items():
        if isinstance(v, tuple):
            o.set_val(k, v[0], v[1])
        else:
            o.set_val(k, v)
    nv = named(tab, cols, order, units, alias)
    kw = {}
    if required is not None:
        kw['required_variables'] = required
    if from_file:
        fn = os.path.abspath(f'deck_{os.getpid()}.csv')
        with open(fn, 'w') as f:
            f.write('# a comment\n\n')
            hdr = []
            for c in cols:
                u = (units or {}).get(c, COLS[c][1])
                lab = ['' if u == 'unitless' else u]
                if label:
                    lab.append('input' if c in ('mach', 'altitude', 'throttle', 'hybrid_throttle')
                               else 'output')
                lab = [x for x in lab if x]
                hdr.append((alias or {}).get(c, c) + (f' ({", ".join(lab)})' if lab else ''))
            f.write(', '.join(hdr) + '\n')
            data = [nv.get_val((alias or {}).get(c, c), (units or {}).get(c, COLS[c][1]))
                    for c in cols]
            for row in zip(*data):
                f.write(',   '.join(repr(float(x)) for x in row) + '\n')
        o.set_val(Aircraft.Engine.DATA_FILE, fn)
        return EngineDeck('deck', o, **kw)
    return EngineDeck('deck', o, nv, **kw)


OUT = {  # column -> output name of the mission group, units
    'fuel_flow': ('fuel_flow_rate_negative', 'lbm/h'),
}


def evaluate(deck, mach, alt, throttle, hybrid=None, options=None, scale=1.0, temp=None, pres=None):
    import openmdao.api as om

    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variables import Aircraft, Dynamic

    n = len(mach)
    p = om.Problem(reports=False)
    V = Dynamic.Vehicle.Propulsion
    ivc = p.model.add_subsystem('ivc', om.IndepVarComp(), promotes=['*'])
    ivc.add_output(Dynamic.Atmosphere.MACH, mach, units='unitless')
    ivc.add_output(Dynamic.Mission.ALTITUDE, alt, units='ft')
    ivc.add_output(V.THROTTLE, throttle, units='unitless')
    if hybrid is not None:
        ivc.add_output(V.HYBRID_THROTTLE, hybrid, units='unitless')
    ivc.add_output(Aircraft.Engine.SCALE_FACTOR, scale, units='unitless')
    if temp is not None:
        ivc.add_output(Dynamic.Atmosphere.TEMPERATURE, temp, units='degR')
        ivc.add_output(Dynamic.Atmosphere.STATIC_PRESSURE, pres, units='psi')
    p.model.add_subsystem('e', deck.build_mission(n, AviaryValues(), {}, {}), promotes=['*'])
    if options:
        p.model_options['*'] = options
    p.setup(force_alloc_complex=False)
    p.run_model()
    out = {}
    for c, name, u in (
        ('thrust', V.THRUST, 'lbf'), ('thrust_max', V.THRUST_MAX, 'lbf'),
        ('fuel_flow', V.FUEL_MASS_FLOW_RATE_NEGATIVE, 'lbm/h'), ('nox', V.NOX_RATE, 'lbm/h'),
        ('electric_power', V.ELECTRIC_POWER_IN, 'kW'), ('t4', V.TEMPERATURE_T4, 'degR'),
        ('shaft_power', V.SHAFT_POWER, 'hp'), ('shaft_power_max', V.SHAFT_POWER_MAX, 'hp'),
        ('rpm', V.RPM, 'rpm'),
    ):
        try:
            out[c] = np.array(p.get_val(name, units=u))
        except KeyError:
            pass
    return out


def norm_throttle(tab, glob):
    t = tab['throttle']
    if glob:
        return (t - t.min()) / (t.max() - t.min())
    out = np.zeros(len(t))
    for i in range(len(t)):
        m = (tab['mach'] == tab['mach'][i]) & (tab['altitude'] == tab['altitude'][i])
        out[i] = (t[i] - t[m].min()) / (t[m].max() - t[m].min())
    return out


def norm_hybrid(tab, glob):
    h = tab['hybrid_throttle']
    out = np.zeros(len(h))
    for i in range(len(h)):
        if glob:
            m = np.ones(len(h), bool)
        else:
            m = (tab['mach'] == tab['mach'][i]) & (tab['altitude'] == tab['altitude'][i])
        if h[i] > 0:
            out[i] = h[i] / h[m].max()
        elif h[i] < 0:
            out[i] = -h[i] / h[m].min()
    return out


def top_of_condition(tab, col):
    """value of col at the highest throttle setting of each row's condition."""
    out = np.zeros(len(tab[col]))
    for i in range(len(out)):
        m = np.where((tab['mach'] == tab['mach'][i]) & (tab['altitude'] == tab['altitude'][i]))[0]
        out[i] = tab[col][m[np.argmax(tab['throttle'][m])]]
    return out


def differs(run, key, what, got, want, case, rtol=1e-7, atol=1e-7):
    if got is None:
        run.violation(key, f'{what} is not an output of the engine', case)
        return True
    if not close(got, want, rtol, atol):
        run.violation(key, f'{what}: got {np.ravel(got)[:8]}, table says {np.ravel(want)[:8]}', case)
        return True
    return False


# ------------------------------------------------------------------ layouts
def layouts(quick):
    """(sort, [(mach, alt, [throttle])]): every ragged layout in bounds."""
    out = []
    for inner in itertools.product((2, 3), repeat=2):
        counts = list(itertools.product((2, 3), repeat=sum(inner)))
        for cnt in counts:
            out.append((inner, cnt))
    for inner in ((2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 3), (2, 4, 3)):
        n = sum(inner)
        for cnt in ([2] * n, [3] * n, [2 + (i % 3) for i in range(n)],
                    [4 - (i % 3) for i in range(n)], [2] * (n - 1) + [4], [4] + [2] * (n - 1)):
            out.append((inner, tuple(cnt)))
    if not quick:
        for inner in itertools.product((2, 3), repeat=2):
            for cnt in itertools.product((2, 3, 4), repeat=sum(inner)):
                if 4 in cnt:
                    out.append((inner, cnt))
    return out


def conds_of(inner, cnt, sort):
    conds = []
    k = 0
    for i, ni in enumerate(inner):
        for j in range(ni):
            n = cnt[k]
            k += 1
            ts = THROT[:n] if (i + j) % 2 else THROT[4 - n:]
            if sort == 'mach':
                conds.append((MACHS[i], ALTS[j], ts))
            else:
                conds.append((MACHS[j], ALTS[i], ts))
    return conds


BASE = ['mach', 'altitude', 'throttle', 'thrust', 'fuel_flow']


def layout_cases(run, items):
    from aviary.variable_info.variables import Aircraft

    for (inner, cnt), sort, glob, oname in items:
        key = f'layout {inner} {cnt} sort={sort} global={glob} order={oname}'
        if not run.wants(key):
            continue
        conds = conds_of(inner, cnt, sort)
        tab = table(conds)
        n = len(tab['mach'])
        run.seen(key, outcome=f'{sort} {glob}')
        with run.guard(key, key):
            deck = build(tab, BASE, orders(n)[oname],
                         {Aircraft.Engine.INTERPOLATION_SORT: sort,
                          Aircraft.Engine.GLOBAL_THROTTLE: glob})
            thr = norm_throttle(tab, glob)
            # the interpolation of the maximum does not extrapolate: at deck-wide throttle settings
            # it is defined only at conditions that reach the deck's maximum
            full = np.ones(n, bool)
            if glob:
                full = top_of_condition(tab, 'throttle') == tab['throttle'].max()
            res = None
            if full.any():
                res = evaluate(deck, tab['mach'][full], tab['altitude'][full], thr[full], scale=1.25)
            if res is not None:
                differs(run, key, 'thrust', res.get('thrust'), 1.25 * tab['thrust'][full], key)
                differs(run, key, 'fuel flow', res.get('fuel_flow'),
                        -1.25 * tab['fuel_flow'][full], key)
                differs(run, key, 'max thrust', res.get('thrust_max'),
                        1.25 * top_of_condition(tab, 'thrust')[full], key)


# ------------------------------------------------------------------ columns, names, units
SETS = [
    ['thrust', 'fuel_flow'],
    ['gross_thrust', 'ram_drag', 'fuel_flow'],
    ['thrust', 'gross_thrust', 'ram_drag', 'fuel_flow'],
    ['thrust', 'gross_thrust', 'fuel_flow'],
    ['thrust', 'ram_drag'],
    ['thrust', 'tailpipe_thrust'],
    ['gross_thrust', 'ram_drag', 'tailpipe_thrust', 'nox'],
    ['thrust', 'nox', 'electric_power', 't4', 'fuel_flow', 'rpm'],
    ['thrust', 'shaft_power', 'fuel_flow', 'rpm'],
    ['thrust', 'shaft_power_corrected', 'fuel_flow', 't4'],
    ['thrust', 'shaft_power', 'shaft_power_corrected', 'fuel_flow'],
    ['tailpipe_thrust', 'shaft_power', 'fuel_flow'],
]


def expect(tab, cols, scale, opt):
    out = {}
    th = None
    if 'thrust' in cols:
        th = tab['thrust']
    elif 'gross_thrust' in cols and 'ram_drag' in cols:
        th = tab['gross_thrust'] - tab['ram_drag']
    if 'tailpipe_thrust' in cols:
        th = tab['tailpipe_thrust'] + (0 if th is None else th)
    t2 = dict(tab, thrust=th)
    out['thrust'] = th * scale
    out['thrust_max'] = top_of_condition(t2, 'thrust') * scale
    if 'fuel_flow' in cols:
        ms = np.where(tab['mach'] >= 1.0, opt.get('sup', 1.0), opt.get('sub', 1.0))
        out['fuel_flow'] = -(tab['fuel_flow'] * scale * ms
                             * (1 + opt.get('const', 0.0) + opt.get('lin', 0.0) * (1 - scale))
                             + opt.get('flow', 0.0))
    for c in ('nox', 'electric_power'):
        if c in cols:
            out[c] = tab[c] * scale
    for c in ('t4', 'rpm'):
        if c in cols:
            out[c] = tab[c]
    if 'shaft_power' in cols:
        out['shaft_power'] = tab['shaft_power'] * scale
        out['shaft_power_max'] = top_of_condition(tab, 'shaft_power') * scale
    elif 'shaft_power_corrected' in cols:
        m = tab['mach']
        k = (opt['pres'] * (1 + 0.2 * m**2) ** 3.5 / 14.696) * np.sqrt(
            opt['temp'] * (1 + 0.2 * m**2) / 518.67)
        out['shaft_power'] = tab['shaft_power_corrected'] * k * scale
        out['shaft_power_max'] = top_of_condition(tab, 'shaft_power_corrected') * k * scale
    return out


CONDS = [(m, a, THROT[:3]) for m in (0.0, 0.5, 1.0, 1.3) for a in ALTS[:3]]


def column_cases(run, items):
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    for si, ui, ai, from_file, label, glob, verb, idle_ord in items:
        extra = SETS[si]
        cols = ['mach', 'altitude', 'throttle'] + extra
        key = (f'columns {extra} units#{ui} alias#{ai} file={from_file} label={label} '
               f'global={glob} verbosity={verb}')
        if not run.wants(key):
            continue
        units = {c: UNITS[c][ui % len(UNITS[c])] for c in cols}
        alias = {c: ALIASES[c][ai % len(ALIASES[c])] for c in cols}
        if not from_file:  # in memory the names are used as they are
            alias = {c: alias[c].lower().replace(' ', '_') for c in cols}
        tab = table(CONDS)
        n = len(tab['mach'])
        run.seen(key, outcome=f'columns {si}')
        with run.guard(key, key):
            use = list(cols)
            if idle_ord:
                use = use[::-1]
            req = None
            deck = build(tab, use, orders(n)['spread'],
                         {E.GLOBAL_THROTTLE: glob, 'settings:verbosity': verb}, units, alias,
                         from_file, req, label)
            temp = np.linspace(400.0, 560.0, n)
            pres = np.linspace(3.0, 15.0, n)
            corr = 'shaft_power_corrected' in extra and 'shaft_power' not in extra
            opt = dict(const=0.03, lin=0.2, sub=1.1, sup=0.9, flow=12.0, temp=temp, pres=pres)
            res = evaluate(
                deck, tab['mach'], tab['altitude'], norm_throttle(tab, glob),
                options={E.FUEL_FLOW_SCALER_CONSTANT_TERM: 0.03,
                         E.FUEL_FLOW_SCALER_LINEAR_TERM: 0.2,
                         E.SUBSONIC_FUEL_FLOW_SCALER: 1.1, E.SUPERSONIC_FUEL_FLOW_SCALER: 0.9,
                         E.CONSTANT_FUEL_MASS_CONSUMPTION: (12.0, 'lbm/h')},
                scale=0.8, temp=temp if corr else None, pres=pres)
            for c, w in expect(tab, extra, 0.8, opt).items():
                differs(run, key, c, res.get(c), w, key, rtol=1e-6)


# ------------------------------------------------------------------ refusals
def refusals(run):
    from aviary.subsystems.propulsion.utils import EngineModelVariables as K
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    tab = table([(m, a, THROT[:3]) for m in MACHS[:2] for a in ALTS[:2]])
    n = len(tab['mach'])
    all_ = ['mach', 'altitude', 'throttle', 'thrust', 'gross_thrust', 'ram_drag', 'fuel_flow']

    def case(key, bad, *a, **k):
        if not run.wants(key):
            return
        st, v = call(build, *a, **k)
        run.seen(key, outcome='refused' if st == 'err' else 'accepted')
        if bad and st == 'ok':
            run.violation(key, 'accepted, although it has to be refused', key)
        if not bad and st == 'err':
            run.violation(key, f'refused: {v!r}', key)

    for verb in (0, 1):
        for row in range(n):
            for col in ('thrust', 'gross_thrust', 'ram_drag'):
                for delta, bad in ((0.0, False), (0.4, False), (-0.4, False), (5.0, True),
                                   (-5.0, True), (2000.0, True)):
                    t = {k: v.copy() for k, v in tab.items()}
                    t[col][row] += delta
                    case(f'inconsistent {col}[{row}] by {delta} verbosity={verb}', bad, t, all_,
                         list(range(n)), {'settings:verbosity': verb})
    req = {'mach': K.MACH, 'altitude': K.ALTITUDE, 'throttle': K.THROTTLE, 'thrust': K.THRUST}
    cols = ['mach', 'altitude', 'throttle', 'thrust', 'fuel_flow']
    for r in range(1, 4):
        for miss in itertools.combinations(req, r):
            case(f'missing {miss}', True, tab, [c for c in cols if c not in miss], list(range(n)))
    # extra required variables
    for extra, name in ((K.FUEL_FLOW, 'fuel_flow'), (K.NOX_RATE, 'nox')):
        need = {K.MACH, K.ALTITUDE, K.THROTTLE, K.THRUST, extra}
        case(f'{name} required and present', False, tab, cols + ['nox'], list(range(n)),
             required=need)
        case(f'{name} required and missing', True, tab,
             [c for c in cols if c != name], list(range(n)), required=need)
    noth = {K.MACH, K.ALTITUDE, K.THROTTLE}
    case('thrust not required and missing', False, tab,
         ['mach', 'altitude', 'throttle', 'shaft_power', 'fuel_flow'], list(range(n)), required=noth)
    from aviary.subsystems.propulsion.engine_deck import EngineDeck
    from aviary.utils.aviary_values import AviaryValues

    for c in cols:
        for u in ('s', 'kg', 'degK', 'm**2'):
            key = f'units of {c}: {u}'
            if not run.wants(key):
                continue
            nv = named(tab, cols, list(range(n)))
            nv.set_val(c, tab[c], u)
            st, _ = call(EngineDeck, 'deck', AviaryValues({'settings:verbosity': (0, 'unitless')}),
                         nv)
            run.seen(key, outcome='units')
            if st == 'ok':
                run.violation(key, 'incompatible units were accepted', key)
    for lo, hi in itertools.product((0.0, 0.08, 0.5, 1.0), repeat=2):
        case(f'idle fractions {lo} {hi}', lo > hi, tab, cols, list(range(n)),
             {E.GENERATE_FLIGHT_IDLE: True, E.FLIGHT_IDLE_THRUST_FRACTION: 0.05,
              E.FLIGHT_IDLE_MIN_FRACTION: lo, E.FLIGHT_IDLE_MAX_FRACTION: hi})
    for s, bad in (('mach', False), ('altitude', False), ('junk', True), ('Mach', True)):
        case(f'interpolation sort {s}', bad, tab, cols, list(range(n)), {E.INTERPOLATION_SORT: s})
    # the caller's data is not modified
    for c in cols:
        for a in ALIASES[c]:
            key = f'caller data unchanged {c} {a}'
            if not run.wants(key):
                continue
            nv = named(tab, cols, list(range(n))[::-1], alias={c: a.lower().replace(' ', '_')})
            before = [(k, np.array(v).copy(), u) for k, (v, u) in nv.items()]
            o = AviaryValues({'settings:verbosity': (0, 'unitless')})
            with run.guard(key):
                EngineDeck('deck', o, nv)
            run.seen(key, outcome='caller data')
            after = [(k, np.array(v), u) for k, (v, u) in nv.items()]
            if len(before) != len(after) or any(
                    x[0] != y[0] or x[2] != y[2] or not np.array_equal(x[1], y[1])
                    for x, y in zip(before, after)):
                run.violation(key, 'the data passed in was modified', key)
            if list(o.keys()) != ['settings:verbosity']:
                run.violation(key, 'the options passed in were modified', key)


# ------------------------------------------------------------------ scaling inputs
def scaling(run):
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    tab = table([(m, a, THROT[:3]) for m in MACHS[:2] for a in ALTS[:2]])
    n = len(tab['mach'])
    sls = max(t for t, m, a in zip(tab['thrust'], tab['mach'], tab['altitude'])
              if m == 0 and a == 0)
    cols = ['mach', 'altitude', 'throttle', 'thrust', 'fuel_flow']
    for ref in (None, (10000.0, 'lbf'), (50.0, 'kN')):
        r = sls if ref is None else conv(ref[0], ref[1], 'lbf')
        for sf in (None, 0.5, 1.0, 1.3):
            for st in (None, 'same', 'near', 'other', 'otherN'):
                base = r * (sf if sf is not None else 1.0)
                tgt = None if st is None else {'same': base, 'near': base * (1 + 2e-5),
                                               'other': base * 1.1, 'otherN': base * 0.7}[st]
                key = f'scaling reference={ref} factor={sf} thrust={st}'
                if not run.wants(key):
                    continue
                o = {}
                if ref is not None:
                    o[E.REFERENCE_SLS_THRUST] = ref
                if sf is not None:
                    o[E.SCALE_FACTOR] = sf
                if tgt is not None:
                    o[E.SCALED_SLS_THRUST] = (
                        (conv(tgt, 'lbf', 'N'), 'N') if st.endswith('N') else (tgt, 'lbf'))
                status, deck = call(build, tab, cols, orders(n)['spread'], o)
                run.seen(key, outcome='scaling ' + status)
                if sf is not None and st in ('other', 'otherN'):
                    if status == 'ok':
                        run.violation(key, 'conflicting scale factor and scaled thrust accepted', key)
                    continue
                if status == 'err':
                    run.violation(key, f'refused: {deck!r}', key)
                    continue
                if sf is not None:
                    wf, wt = sf, r * sf
                elif tgt is not None:
                    wf, wt = tgt / r, tgt
                else:
                    wf, wt = 1.0, r
                got = (deck.get_val(E.REFERENCE_SLS_THRUST, 'lbf'), deck.get_val(E.SCALE_FACTOR),
                       deck.get_val(E.SCALED_SLS_THRUST, 'lbf'))
                if not close(got, (r, wf, wt), 1e-9):
                    run.violation(key, f'reference, factor, scaled thrust {got}, '
                                       f'expected {(r, wf, wt)}', key)
    # no sea-level static point
    for conds, bad in (([(m, a, THROT[:3]) for m in MACHS[1:3] for a in ALTS[:2]], True),
                       ([(m, a, THROT[:3]) for m in MACHS[:2] for a in ALTS[1:3]], True),
                       ([(m, a, THROT[:3]) for m in MACHS[:2] for a in ALTS[:2]], False)):
        t = table(conds)
        for ref in (None, 12000.0):
            key = f'sea-level static point missing={bad} reference={ref}'
            if not run.wants(key):
                continue
            o = {} if ref is None else {E.REFERENCE_SLS_THRUST: (ref, 'lbf')}
            status, v = call(build, t, cols, list(range(len(t['mach']))), o)
            run.seen(key, outcome='sls')
            if (status == 'err') != (bad and ref is None):
                run.violation(key, f'{status} {v!r}', key)


# ------------------------------------------------------------------ negative thrust, flight idle
def idle_cases(run, items):
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    for cnt, glob, frac, lo, hi, neg, oname, extra, ignore in items:
        key = (f'idle counts={cnt} global={glob} fraction={frac} bounds={lo},{hi} lowest={neg} '
               f'order={oname} extra={extra} ignore_negative={ignore}')
        if not run.wants(key):
            continue
        conds = conds_of((2, 2), cnt, 'mach')
        if glob:
            conds = [(m, a, THROT[4 - len(t):]) for m, a, t in conds]
        tab = table(conds)
        if neg is not None:  # lowest throttle of the condition `neg` has no or negative thrust
            c, val = neg
            i = sum(cnt[:c])
            tab['thrust'][i] = val
        n = len(tab['mach'])
        cols = ['mach', 'altitude', 'throttle', 'thrust'] + list(extra)
        run.seen(key, outcome=f'idle {glob} {neg} {ignore}')
        with run.guard(key, key):
            deck = build(tab, cols, orders(n)[oname],
                         {E.GENERATE_FLIGHT_IDLE: frac is not None,
                          E.FLIGHT_IDLE_THRUST_FRACTION: frac or 0.0,
                          E.FLIGHT_IDLE_MIN_FRACTION: lo, E.FLIGHT_IDLE_MAX_FRACTION: hi,
                          E.GLOBAL_THROTTLE: glob, E.IGNORE_NEGATIVE_THRUST: ignore})
            keep = np.ones(n, bool)
            if ignore:
                keep = tab['thrust'] >= 0
            t2 = {k: v[keep] for k, v in tab.items()}
            thr = norm_throttle(t2, glob)
            maxn = max(np.sum((t2['mach'] == m) & (t2['altitude'] == a)) for m, a, _ in conds)
            rows = []  # mach, alt, throttle, {col: value or None}
            any_idle = False
            for m, a, _ in conds:
                idx = np.where((t2['mach'] == m) & (t2['altitude'] == a))[0]
                idle = frac is not None and t2['thrust'][idx[0]] > 1.0
                any_idle |= idle
                if idle:
                    T = t2['thrust'][idx]
                    ti = frac * T[-1]
                    x = (ti - T[0]) / (T[1] - T[0])
                    vals = {'thrust': ti}
                    for c in extra:
                        if len(idx) < maxn:
                            vals[c] = None  # known finding, probed separately
                            continue
                        y = t2[c][idx]
                        v = y[0] + (y[1] - y[0]) * x
                        vals[c] = min(max(v, lo * y[-1]), hi * y[-1])
                    rows.append((m, a, -0.1, vals, idle))
                for i in idx:
                    rows.append((m, a, thr[i], {c: t2[c][i] for c in ['thrust'] + list(extra)},
                                 idle))
            tt = np.array([r[2] for r in rows])
            if glob:
                if any_idle:
                    tt = (tt + 0.1) / 1.1
            else:
                tt = np.array([(t + 0.1) / 1.1 if r[4] else t for t, r in zip(tt, rows)])
            got = evaluate(deck, np.array([r[0] for r in rows]), np.array([r[1] for r in rows]), tt)
            for c in ['thrust'] + list(extra):
                sgn = -1.0 if c == 'fuel_flow' else 1.0
                g = got.get(c)
                sel = [i for i, r in enumerate(rows) if r[3][c] is not None]
                w = np.array([sgn * rows[i][3][c] for i in sel])
                differs(run, key, c, None if g is None else g[sel], w, key, rtol=1e-6, atol=1e-6)
            want_rows = len(rows)
            have = len(deck.data[next(iter(deck.data))]) if hasattr(deck, 'data') else want_rows
            if have != want_rows:
                run.violation(key, f'{have} data points, expected {want_rows}', key)


def idle_bound_finding(run):
    """Bounds of idle outputs at conditions with fewer throttle settings than the largest one."""
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    key = 'idle output bounds at a condition with fewer throttle settings than the largest'
    if not run.wants(key):
        return
    conds = conds_of((2, 2), (3, 3, 2, 3), 'mach')
    tab = table(conds)
    n = len(tab['mach'])
    run.seen(key, outcome='idle bounds, incomplete condition')
    with run.guard(key):
        deck = build(tab, BASE, list(range(n)),
                     {E.GENERATE_FLIGHT_IDLE: True, E.FLIGHT_IDLE_THRUST_FRACTION: 0.05,
                      E.FLIGHT_IDLE_MIN_FRACTION: 0.08, E.FLIGHT_IDLE_MAX_FRACTION: 1.0,
                      E.GLOBAL_THROTTLE: False})
        m, a, _ = conds[2]
        got = -evaluate(deck, np.array([m]), np.array([a]), np.array([0.0]))['fuel_flow'][0]
        top = tab['fuel_flow'][7]
        if not (0.08 * top - 1e-6 <= got <= top + 1e-6):
            run.violation(key, f'idle fuel flow {got} is outside 0.08..1.0 of {top}', key)


# ------------------------------------------------------------------ hybrid throttle
def hybrid_cases(run, items):
    from aviary.variable_info.variables import Aircraft

    E = Aircraft.Engine
    for hyb, glob, hglob, oname in items:
        key = f'hybrid {hyb} global={glob} global_hybrid={hglob} order={oname}'
        if not run.wants(key):
            continue
        tab = table([(m, a, THROT[:3]) for m in MACHS[:2] for a in ALTS[:2]], hyb)
        n = len(tab['mach'])
        cols = ['mach', 'altitude', 'throttle', 'hybrid_throttle', 'thrust', 'fuel_flow',
                'electric_power']
        run.seen(key, outcome=f'hybrid {glob} {hglob}')
        with run.guard(key, key):
            deck = build(tab, cols, orders(n)[oname],
                         {E.GLOBAL_THROTTLE: glob, E.GLOBAL_HYBRID_THROTTLE: hglob})
            res = evaluate(deck, tab['mach'], tab['altitude'], norm_throttle(tab, glob),
                           norm_hybrid(tab, hglob))
            differs(run, key, 'thrust', res.get('thrust'), tab['thrust'], key)
            differs(run, key, 'fuel flow', res.get('fuel_flow'), -tab['fuel_flow'], key)
            differs(run, key, 'electric power', res.get('electric_power'), tab['electric_power'],
                    key)
            want = np.zeros(n)
            for i in range(n):
                m = np.where((tab['mach'] == tab['mach'][i])
                             & (tab['altitude'] == tab['altitude'][i]))[0]
                best = max(m, key=lambda j: (tab['throttle'][j], tab['hybrid_throttle'][j]))
                want[i] = tab['thrust'][best]
            differs(run, key, 'max thrust', res.get('thrust_max'), want, key)


def main(run):
    q = run.quick
    run.rule = ('case = one engine deck (layout, row order, sort, normalisation, columns, units, '
                'names, options) evaluated at all of its tabulated points')
    run.assumptions = ['the linear interpolation method is used, which is exact at tabulated points',
                       'OpenMDAO interpolation and unit conversion are trusted']
    L = layouts(q)
    items = [(lay, s, g, o) for lay in L for s in ('mach', 'altitude') for g in (False, True)
             for o in (('spread',) if q else ('sorted', 'reversed', 'interleaved', 'spread'))]
    if q:
        items += [(lay, s, g, o) for lay in L[::9] for s in ('mach', 'altitude')
                  for g in (False, True) for o in ('sorted', 'reversed', 'interleaved')]
    pmap(run, layout_cases, items)
    items = [(si, ui, ai, f, lab, g, v, r)
             for si in range(len(SETS)) for ui in range(3) for ai in range(4)
             for f, lab in ((False, False), (True, False), (True, True))
             for g in ((False,) if q else (False, True)) for v in (0, 1)
             for r in ((bool((ui + ai) % 2),) if q else (False, True))]
    pmap(run, column_cases, items)
    refusals(run)
    scaling(run)
    items = []
    for cnt in itertools.product((2, 3), repeat=4) if q else itertools.product((2, 3, 4), repeat=4):
        for glob in (False, True):
            for frac in (None, 0.0, 0.05):
                for lo, hi in ((0.0, 1.0), (0.08, 1.0), (0.3, 0.5), (0.2, 0.2)):
                    if frac is None and lo:
                        continue
                    items.append((cnt, glob, frac, lo, hi, None, 'spread', ('fuel_flow',), False))
    for cnt in ((2, 2, 2, 2), (3, 3, 3, 3), (3, 3, 2, 3), (2, 3, 3, 4), (4, 3, 3, 3)):
        for c in range(4):
            for val in (-200.0, 0.0, 0.5, 30.0):
                for glob in (False, True):
                    for frac in (None, 0.02):
                        for ign in (False, True):
                            if ign and cnt[c] == 2:
                                continue
                            items.append((cnt, glob, frac, 0.08, 1.0, (c, val), 'reversed',
                                          ('fuel_flow', 'nox'), ign))
    for extra in ((), ('fuel_flow',), ('nox', 'electric_power', 'fuel_flow')):
        for ign in (False, True):
            items.append(((3, 3, 3, 3), False, 0.05, 0.08, 1.0, None, 'sorted', extra, ign))
    pmap(run, idle_cases, items)
    idle_bound_finding(run)
    items = [(h, g, hg, o)
             for h in ([0.0, 0.5, 1.0], [0.0, 10.0, 40.0], [-1.0, 0.0, 1.0], [-3.0, 0.0, 5.0, 8.0],
                       [-4.0, -2.0, 0.0])
             for g in (False, True) for hg in (False, True) for o in ('sorted', 'spread', 'reversed')]
    pmap(run, hybrid_cases, items)
