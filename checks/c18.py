"""C18: propulsion totals add up over every engine of every type."""
import itertools

import numpy as np

from mc import pre
from mc.harness import pmap

# what the made-up engines compute: output -> (size, units the engine works in)
SI = dict(thrust=('N', 4.4482216152605), fuel=('kg/s', 0.45359237 / 3600), nox=('kg/h', 0.45359237),
          power=('W', 1000.0), t4=('degK', 5 / 9), shaft=('W', 745.6998715822702))
US = dict(thrust=('lbf', 1.0), fuel=('lbm/h', 1.0), nox=('lbm/h', 1.0), power=('kW', 1.0),
          t4=('degR', 1.0), shaft=('hp', 1.0))
SIZE = dict(thrust=9000.0, thrust_max=23000.0, fuel=-4100.0, nox=31.0, power=77.0, t4=1500.0, shaft=810.0,
            shaft_max=1900.0, rpm=1100.0, tip=700.0)

# capabilities of a kind of engine
KINDS = {
    'jet': dict(outs=('thrust', 'fuel', 'power', 'nox', 't4'), params=('scale',)),
    'jetmax': dict(outs=('thrust', 'thrust_max', 'fuel'), own_max=True, units=SI),
    'hybrid': dict(outs=('thrust', 'power', 'fuel'), hybrid=True, units=SI),
    'hybridmax': dict(outs=('thrust', 'thrust_max', 'power'), hybrid=True, own_max=True, params=('scale',)),
    'prop': dict(outs=('shaft', 'thrust', 'fuel', 'rpm', 'tip'), group=True, params=('diameter', 'scale')),
    'propmax': dict(outs=('shaft', 'shaft_max', 'thrust', 'thrust_max', 'rpm'), own_max=True,
                    units=SI, params=('diameter',)),
    'generator': dict(outs=('power', 'fuel', 'nox')),
}


def names():
    from aviary.variable_info.variables import Aircraft, Dynamic

    P = Dynamic.Vehicle.Propulsion
    return dict(thrust=P.THRUST, thrust_max=P.THRUST_MAX, fuel=P.FUEL_MASS_FLOW_RATE_NEGATIVE, nox=P.NOX_RATE,
                power=P.ELECTRIC_POWER_IN, t4=P.TEMPERATURE_T4, shaft=P.SHAFT_POWER, shaft_max=P.SHAFT_POWER_MAX,
                rpm=P.RPM, tip=P.PROPELLER_TIP_SPEED, throttle=P.THROTTLE, hybrid=P.HYBRID_THROTTLE,
                scale=Aircraft.Engine.SCALE_FACTOR, diameter=Aircraft.Engine.Propeller.DIAMETER,
                mach=Dynamic.Atmosphere.MACH, altitude=Dynamic.Mission.ALTITUDE)


PARAM_UNITS = dict(scale='unitless', diameter='ft')
TOTALS = dict(thrust='THRUST_TOTAL', thrust_max='THRUST_MAX_TOTAL', fuel='FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL',
              nox='NOX_RATE_TOTAL', power='ELECTRIC_POWER_IN_TOTAL')
TOTAL_UNITS = dict(thrust='lbf', thrust_max='lbf', fuel='lbm/h', nox='lbm/h', power='kW')
VECTOR_UNITS = dict(TOTAL_UNITS, t4='degR', shaft='hp', shaft_max='hp', rpm='rpm', tip='ft/s')


def law(out, e, t, h, mach, alt, par):
    """Value of an output of the e-th engine in customary units."""
    f = SIZE[out] * (1 + 0.17 * e) * (1 + 0.4 * mach) * (1 - alt / 90000.0)
    if out not in ('t4',):
        f = f * (0.15 + t + 0.3 * e * t * t)
    if h is not None:
        f = f * (0.6 + h)
    for n, v in par.items():
        f = f * (0.3 + v / (20.0 if n == 'diameter' else 1.0))
    return f


def engine(kind, e):
    """A made-up engine model: everything it computes is known."""
    import openmdao.api as om

    from aviary.subsystems.propulsion.engine_model import EngineModel

    K = KINDS[kind]
    N = names()
    units = K.get('units', US)

    def unit(out):
        base = out.split('_')[0]
        return {'rpm': ('rpm', 1.0), 'tip': ('ft/s', 1.0)}.get(base) or units[base]

    class Comp(om.ExplicitComponent):
        def initialize(self):
            self.options.declare('num_nodes', types=int)
            self.options.declare('outs', types=tuple)
            self.options.declare('shaft', default=False)

        def setup(self):
            nn = self.options['num_nodes']
            self.add_input(N['mach'], np.zeros(nn))
            self.add_input(N['altitude'], np.zeros(nn), units='ft')
            self.add_input(N['throttle'], np.zeros(nn))
            if K.get('hybrid'):
                self.add_input(N['hybrid'], np.zeros(nn))
            for p in K.get('params', ()):
                self.add_input(N[p], 1.0, units=PARAM_UNITS[p])
            if self.options['shaft']:
                self.add_input(N['shaft'], np.ones(nn), units='hp')
            for o in self.options['outs']:
                self.add_output(N[o], np.zeros(nn), units=unit(o)[0])
            self.declare_partials('*', '*', method='fd')

        def compute(self, inputs, outputs):
            par = {p: inputs[N[p]][0] for p in K.get('params', ())}
            h = inputs[N['hybrid']] if K.get('hybrid') else None
            for o in self.options['outs']:
                v = law(o, e, inputs[N['throttle']], h, inputs[N['mach']], inputs[N['altitude']], par)
                if self.options['shaft'] and o in ('thrust',):
                    v = 7.0 * inputs[N['shaft']] * (1 + inputs[N['mach']])
                outputs[N[o]] = v * unit(o)[1]

    class Engine(EngineModel):
        compute_max_values = bool(K.get('own_max'))

        def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
            if not K.get('group'):
                return Comp(num_nodes=num_nodes, outs=tuple(K['outs']))
            g = om.Group()
            first = tuple(o for o in K['outs'] if o.startswith('shaft'))
            g.add_subsystem('core', Comp(num_nodes=num_nodes, outs=first), promotes=['*'])
            g.add_subsystem('propeller', Comp(num_nodes=num_nodes, shaft=True, outs=tuple(
                o for o in K['outs'] if o not in first)), promotes=['*'])
            return g

        def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return {N[p]: dict(val=1.0, units=PARAM_UNITS[p], static_target=True) for p in K.get('params', ())}

    m = Engine(name=f'{"zab"[e]}_{kind}')
    m.use_hybrid_throttle = bool(K.get('hybrid'))
    return m


def expected(kind, e, out, t, h, mach, alt, par):
    K = KINDS[kind]
    par = {p: par[p] for p in K.get('params', ())}
    h = h if K.get('hybrid') else None
    mx = out.endswith('_max')
    if mx and not K.get('own_max'):
        base = out[:-4]
        if base not in K['outs']:
            return 0 * t
        return expected(kind, e, base, np.ones_like(t), np.ones_like(t), mach, alt, par)
    if out not in K['outs']:
        return 0 * t
    if K.get('group') and out == 'thrust':
        return 7.0 * law('shaft', e, t, h, mach, alt, par) * (1 + mach)
    return law(out, e, t, h, mach, alt, par)


def options(counts):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.variables import Aircraft, Settings

    a = AviaryValues()
    a.set_val(Settings.VERBOSITY, 0)
    a.set_val(Aircraft.Engine.NUM_ENGINES, np.array(counts))
    return a


def mission(kinds, counts, nn):
    """Build the propulsion of a phase and compare everything it reports at two sets of points."""
    import openmdao.api as om

    from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
    from aviary.variable_info.functions import setup_model_options
    from aviary.variable_info.variables import Dynamic

    N = names()
    n = len(kinds)
    engines = [engine(k, e) for e, k in enumerate(kinds)]
    opts = options(counts)
    b = CorePropulsionBuilder('core_propulsion', engine_models=engines)
    params = b.get_parameters(aviary_inputs=opts, user_options={}, subsystem_options={})
    hyb = any(KINDS[k].get('hybrid') for k in kinds)
    p = om.Problem()
    ivc = p.model.add_subsystem('controls', om.IndepVarComp(), promotes=['*'])
    for c in ('throttle', 'hybrid')[: 1 + hyb]:
        ivc.add_output(N[c], np.zeros((nn, n) if n > 1 else nn))
    p.model.add_subsystem('prop', b.build_mission(num_nodes=nn, aviary_inputs=opts, user_options={},
                                                  subsystem_options={}), promotes=['*'])
    setup_model_options(p, opts)
    p.setup(force_alloc_complex=False)
    bad = []
    used = {q for k in kinds for q in KINDS[k].get('params', ())}
    if {N[q] for q in used} != set(params):
        bad.append(('parameters', sorted(used), sorted(params)))
    for rep in (0, 1):
        i = np.arange(nn)
        mach, alt = 0.3 + 0.11 * i + 0.05 * rep, 9000.0 + 3100.0 * i - 700 * rep
        T = 0.25 + 0.6 * (((i[:, None] * n + np.arange(n) + rep) * 0.618) % 1)
        H = 0.1 + 0.8 * (((i[:, None] * n + np.arange(n) + 3 * rep) * 0.382) % 1)
        par = {q: (6.0 if q == 'diameter' else 0.4) * (1 + 0.7 * np.arange(n) + 0.1 * rep) for q in used}
        p.set_val(N['mach'], mach)
        p.set_val(N['altitude'], alt, units='ft')
        p.set_val(N['throttle'], T if n > 1 else T[:, 0])
        if hyb:
            p.set_val(N['hybrid'], H if n > 1 else H[:, 0])
        for q in used:
            p.set_val(N[q], par[q] if n > 1 else par[q][0], units=PARAM_UNITS[q])
        p.run_model()
        per = {}
        for o, u in VECTOR_UNITS.items():
            per[o] = np.stack([expected(k, e, o, T[:, e], H[:, e], mach, alt, {q: v[e] for q, v in par.items()})
                               for e, k in enumerate(kinds)], axis=1)
            got = p.get_val(N[o], units=u)
            if np.shape(got) != (nn, n) or not np.allclose(got, per[o], rtol=1e-6, atol=1e-9):
                bad.append((f'{o} of each engine', per[o].tolist(), np.array(got).tolist()))
        for o, t in TOTALS.items():
            want = per[o] @ np.array(counts)
            got = p.get_val(getattr(Dynamic.Vehicle.Propulsion, t), units=TOTAL_UNITS[o])
            if np.shape(got) != (nn,) or not np.allclose(got, want, rtol=1e-6, atol=1e-9):
                bad.append((f'total {o}', want.tolist(), np.array(got).tolist()))
    return bad


# ---- before the mission ---------------------------------------------------------------------------------

PRE = {'full': ('thrust', 'diam', 'length'), 'sls': ('thrust', 'diam'), 'cowl': ('diam',), 'nothing': ()}


def pre_names():
    from aviary.variable_info.variables import Aircraft

    return dict(scale=Aircraft.Engine.SCALE_FACTOR, ref=Aircraft.Engine.REFERENCE_SLS_THRUST,
                thrust=Aircraft.Engine.SCALED_SLS_THRUST, diam=Aircraft.Nacelle.AVG_DIAMETER,
                length=Aircraft.Nacelle.AVG_LENGTH, area=Aircraft.Wing.AREA)


def pre_law(o, e, s, r, a):
    return dict(thrust=s * r, diam=2.0 + 0.3 * e + np.sqrt(s * r) / 50 + a / 1000, length=5.0 + e + s)[o]


def pre_engine(kind, e):
    import openmdao.api as om

    from aviary.subsystems.propulsion.engine_model import EngineModel

    N = pre_names()
    U = dict(scale=None, ref='lbf', thrust='lbf', diam='ft', length='ft', area='ft**2')
    V = dict(U, ref='N', thrust='N', diam='m', length='m') if e == 1 else U
    C = dict(ref=4.4482216152605, thrust=4.4482216152605, diam=0.3048, length=0.3048) if e == 1 else {}

    class Comp(om.ExplicitComponent):
        def setup(self):
            for i in ('scale', 'ref', 'area'):
                self.add_input(N[i], 1.0, units=V[i])
            for o in PRE[kind]:
                self.add_output(N[o], 1.0, units=V[o])
            self.declare_partials('*', '*', method='fd')

        def compute(self, inputs, outputs):
            for o in PRE[kind]:
                outputs[N[o]] = C.get(o, 1.0) * pre_law(
                    o, e, inputs[N['scale']], inputs[N['ref']] / C.get('ref', 1.0), inputs[N['area']])

    class Engine(EngineModel):
        def build_pre_mission(self, aviary_inputs, subsystem_options=None):
            if kind == 'nothing':
                return None
            if e == 2:
                g = om.Group()
                g.add_subsystem('sizing', Comp(), promotes=['*'])
                return g
            return Comp()

    return Engine(name=f'{"zab"[e]}_{kind}')


def premission(kinds, counts, given):
    import openmdao.api as om

    from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
    from aviary.variable_info.functions import setup_model_options
    from aviary.variable_info.variables import Aircraft

    N = pre_names()
    n = len(kinds)
    opts = options(counts)
    data = dict(thrust=np.zeros(n), diam=np.zeros(n), length=np.zeros(n))
    if given:
        data = dict(thrust=7000.0 + 100 * np.arange(n), diam=3.0 + np.arange(n), length=8.0 + np.arange(n))
        opts.set_val(N['thrust'], data['thrust'] * 4.4482216152605, 'N')
        opts.set_val(N['diam'], data['diam'] * 0.3048, 'm')
        opts.set_val(N['length'], list(data['length']), 'ft')
    b = CorePropulsionBuilder('core_propulsion', engine_models=[pre_engine(k, e) for e, k in enumerate(kinds)])
    p = om.Problem()
    ivc = p.model.add_subsystem('data', om.IndepVarComp(), promotes=['*'])
    ivc.add_output(N['scale'], np.ones(n))
    ivc.add_output(N['ref'], np.ones(n), units='lbf')
    ivc.add_output(N['area'], 1.0, units='ft**2')
    p.model.add_subsystem('prop', b.build_pre_mission(opts, subsystem_options={}), promotes=['*'])
    setup_model_options(p, opts)
    p.setup(force_alloc_complex=False)
    bad = []
    for rep in (0, 1):
        s = 0.5 + 0.31 * np.arange(n) + 0.1 * rep
        r = 20000.0 + 7000.0 * np.arange(n) - 900.0 * rep
        p.set_val(N['scale'], s)
        p.set_val(N['ref'], r, units='lbf')
        p.set_val(N['area'], 1300.0, units='ft**2')
        if not any('thrust' in PRE[k] for k in kinds):
            p.set_val(N['thrust'], data['thrust'], units='lbf')
        p.run_model()
        units = dict(thrust='lbf', diam='ft', length='ft')

        def value(o, e):
            if o in PRE[kinds[e]]:
                return pre_law(o, e, s[e], r[e], 1300.0)
            return data[o][e]

        for o in units:
            if not any(o in PRE[k] for k in kinds):
                continue
            got = np.ravel(p.get_val(N[o], units=units[o]))
            for e, k in enumerate(kinds):
                if not (len(got) == n and np.isclose(got[e], value(o, e), rtol=1e-6)):
                    bad.append((f'{o} of engine {e}', value(o, e), got.tolist()))
        want = float(sum(value('thrust', e) * c for e, c in enumerate(counts)))
        got = float(p.get_val(Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, units='lbf')[0])
        if not np.isclose(want, got, rtol=1e-6):
            bad.append(('total sea level thrust', want, got))
    return bad


# ---- throttles --------------------------------------------------------------------------------------------


def allocation(n, nn, mode):
    import openmdao.api as om

    from aviary.subsystems.propulsion.throttle_allocation import ThrottleAllocator
    from aviary.variable_info.enums import ThrottleAllocation
    from aviary.variable_info.functions import setup_model_options
    from aviary.variable_info.variables import Dynamic

    dyn = mode == 'DYNAMIC'
    p = om.Problem()
    p.model.add_subsystem('alloc', ThrottleAllocator(num_nodes=nn, throttle_allocation=ThrottleAllocation[mode]),
                          promotes=['*'])
    setup_model_options(p, options(list(range(1, n + 1))))
    p.setup(force_alloc_complex=False)
    bad = []
    for rep in (0, 1, 2):
        agg = 0.3 + 0.5 * ((np.arange(nn) * 0.618 + 0.2 * rep) % 1)
        share = 0.9 / n * (0.3 + ((np.arange(nn * (n - 1)) * 0.382 + 0.3 * rep) % 1)).reshape(nn, n - 1)
        if not dyn:
            share = np.tile(share[:1], (nn, 1))
        p.set_val('aggregate_throttle', agg)
        p.set_val('throttle_allocations', share if dyn else share[0])
        p.run_model()
        want = np.hstack((agg[:, None] * share, (agg * (1 - share.sum(axis=1)))[:, None]))
        got = p.get_val(Dynamic.Vehicle.Propulsion.THROTTLE)
        if not np.allclose(got, want, rtol=1e-10, atol=1e-12):
            bad.append(('throttles', want.tolist(), np.array(got).tolist()))
        tot = share.sum(axis=1) if dyn else share[:1].sum(axis=1)
        if not np.allclose(p.get_val('throttle_allocation_sum'), tot, rtol=1e-10):
            bad.append(('sum of the allocations', tot.tolist(), np.array(p.get_val('throttle_allocation_sum')).tolist()))
    return bad


# ---- whole missions ---------------------------------------------------------------------------------------


def flight(aircraft, mix):
    """In every phase: totals against the engines' own values; engines of one deck in ratio of their size."""
    from aviary.variable_info.variables import Aircraft, Dynamic

    N = names()
    p = pre.mission(pre.find(aircraft), subsystems=pre.engine_types(mix, alike=False))
    counts = np.array([w + f for w, f in mix], dtype=float)
    given = np.ravel(p.aviary_inputs.get_val(Aircraft.Engine.NUM_ENGINES))
    bad = []
    if list(given) != list(counts):
        bad.append(('numbers of engines', list(counts), list(given)))
    sls = np.ravel(p.get_val(Aircraft.Engine.SCALED_SLS_THRUST, units='lbf'))
    want, got = float(sls @ counts), float(p.get_val(Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, units='lbf')[0])
    if not np.isclose(want, got, rtol=1e-9):
        bad.append(('total sea level thrust', want, got))
    for phase in p.model.mission_info:
        at = f'traj.{phase}.rhs_all.'
        per = {}
        for o, t in TOTALS.items():
            per[o] = p.get_val(at + N[o], units=TOTAL_UNITS[o])
            got = np.ravel(p.get_val(at + getattr(Dynamic.Vehicle.Propulsion, t), units=TOTAL_UNITS[o]))
            if not np.allclose(per[o] @ counts, got, rtol=1e-9, atol=1e-9):
                bad.append((f'{phase}: total {o}', (per[o] @ counts)[:3].tolist(), got[:3].tolist()))
        for e in range(len(counts)):
            if not np.allclose(per['thrust_max'][:, e] * sls[0], per['thrust_max'][:, 0] * sls[e], rtol=1e-6):
                bad.append((f'{phase}: maximum thrust of engine {e} in proportion to its size',
                            (per['thrust_max'][:3, 0] * sls[e] / sls[0]).tolist(), per['thrust_max'][:3, e].tolist()))
        if not (np.all(per['thrust_max'] > 0) and np.any(per['fuel'] < 0)):
            bad.append((f'{phase}: engines run', 'thrust and fuel flow', per['thrust_max'][:2].tolist()))
    return bad


WHAT = dict(mission=mission, premission=premission, allocation=allocation, flight=flight)


def check(run, chunk):
    for job in chunk:
        with pre.quiet():
            with run.guard(f'{job[0]}: {job[1]}'):
                bad = WHAT[job[0]](*job[1:])
                run.seen(job, outcome=job[0])
                run.state(job)
                run.transitions += 1
                for what, want, got in bad[:3]:
                    run.violation(f'{job[0]}: {what}', f'{job[1:]}: {what} should be {want}, is {got}', dict(job=job))


def main(run):
    run.rule = 'one case = one mix of engine types x number of each x number of points'
    jobs = [('flight', 'advanced_single_aisle_FLOPS', m) for m in (
        ((2, 0), (0, 1)), ((4, 0), (2, 0)), ((2, 0), (0, 1), (2, 0)))[: 2 if run.quick else 3]]
    counts = {1: [(1,), (3,)], 2: [(2, 1), (1, 4)], 3: [(2, 1, 3)]}
    for n in (1, 2, 3):
        for kinds in itertools.product(KINDS, repeat=n):
            if n == 3 and run.quick and len(set(kinds)) < 3:
                continue
            for c in counts[n] if n < 3 or run.quick else [(2, 1, 3), (1, 1, 2), (4, 2, 2)]:
                for nn in (1, 3) if n < 3 or not run.quick else (2,):
                    jobs.append(('mission', kinds, c, nn))
        for kinds in itertools.product(PRE, repeat=n):
            for c in counts[n]:
                jobs += [('premission', kinds, c, given) for given in (False, True)]
        if n > 1:
            for nn in (1, 2, 4):
                for mode in ('FIXED', 'STATIC', 'DYNAMIC'):
                    jobs.append(('allocation', n, nn, mode))
    jobs += [('allocation', 4, nn, mode) for nn in (1, 3) for mode in ('FIXED', 'STATIC', 'DYNAMIC')]
    pmap(run, check, jobs, chunk=6)
