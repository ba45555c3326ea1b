"""
C03: what components get from the variable database and from the aircraft data.

(a) every variable x every compatible unit x input/output/option declaration x shape: the declared
    default and units against the database, converted with an independent conversion.
(b) every assignment of engine names (including names that extend one another) to 1..3 engines x
    prefix x subset of options present: each component's option value after problem setup.
(c) every variable as option with every compatible unit: the value of the aircraft data arrives in
    the component in the component's declared units.
"""
import itertools

import numpy as np

from mc.harness import call, close, pmap


def units_for(u):
    from openmdao.utils.units import is_compatible

    from checks.c02 import UNITS

    if u == 'unitless':
        return ['unitless']
    return [u] + [x for x in UNITS if x != u and is_compatible(u, x)]


def same_units(a, b):
    from openmdao.utils.units import convert_units, is_compatible

    return a == b or (is_compatible(a, b) and close(convert_units(1.0, a, b), 1.0)
                      and close(convert_units(300.0, a, b), 300.0))


def as_num(v):
    return np.asarray(v, float)


def declare(run, keys):
    import openmdao.api as om
    from openmdao.utils.units import convert_units

    from aviary.variable_info.functions import (
        add_aviary_input,
        add_aviary_option,
        add_aviary_output,
    )
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for key in keys:
        meta = MD[key]
        d = meta['default_value']
        numeric = isinstance(d, (int, float, list, np.ndarray)) and not isinstance(d, bool)
        if numeric and isinstance(d, list) and any(not isinstance(x, (int, float)) for x in d):
            numeric = False
        T = meta['types']
        isfloat = T is float or (isinstance(T, tuple) and float in T)
        for u in [None] + units_for(meta['units']):
            for kind in ('input', 'output', 'option'):
                for shape in ((None, 1, 3, (2, 2)) if kind != 'option' and isfloat else (None,)):
                    if kind != 'option' and not isfloat:
                        continue
                    if shape is not None and (d is None or np.size(d) != 1):
                        continue
                    if shape is not None and not meta['multivalue']:
                        continue
                    ck = f'declare:{kind}:{key}:{u}:{shape}'
                    if not run.wants(ck):
                        continue
                    run.traces += 1
                    run.transitions += 1
                    run.seen([kind, key, u, shape], outcome=kind)
                    run.state((kind, key, u, shape))
                    uu = meta['units'] if u is None else u
                    with run.guard(ck):
                        if kind == 'option':
                            if not numeric or T is bool:
                                if u is not None:
                                    continue
                                comp = om.ExplicitComponent()
                                add_aviary_option(comp, key)
                                got = comp.options[key]
                                if got is not d and not np.all(got == d):
                                    run.violation(ck, f'default is {got!r}, not {d!r}')
                                continue
                            comp = om.ExplicitComponent()
                            add_aviary_option(comp, key, units=u)
                            got = comp.options[key]
                            want = convert_units(as_num(d), meta['units'], uu)
                            if uu == 'unitless':
                                ok = close(as_num(got), want)
                            else:
                                ok = (isinstance(got, tuple) and len(got) == 2 and got[1] == uu
                                      and close(as_num(got[0]), want))
                            if not ok:
                                run.violation(ck, f'default of option {key} in {uu} is {got!r}, '
                                                  f'expected {want!r}')
                            continue

                        class C(om.ExplicitComponent):
                            def setup(self):
                                f = add_aviary_input if kind == 'input' else add_aviary_output
                                kw = {} if u is None else {'units': u}
                                f(self, key, shape=shape, **kw)

                        p = om.Problem()
                        p.model.add_subsystem('c', C(), promotes=['*'])
                        if kind == 'output':
                            p.model.add_subsystem('x', om.IndepVarComp('zz', 1.0))
                        p.setup()
                        p.final_setup()
                        m = p.model.c.get_io_metadata(iotypes=(kind,))[key]
                        got = p.get_val(key)
                        want = convert_units(as_num(d), meta['units'], uu)
                        if shape is not None:
                            want = np.ones(shape) * want
                        want = np.atleast_1d(want)
                        mu = m['units'] if m['units'] is not None else 'unitless'
                        if not same_units(mu, uu) or not close(got, want):
                            run.violation(ck, f'{kind} {key} declared in {uu} (shape {shape}) has '
                                              f'value {got!r} [{mu}], expected {want!r} [{uu}]')


def model_options(run, jobs):
    import openmdao.api as om
    from openmdao.utils.units import convert_units

    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.functions import add_aviary_option, setup_model_options
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD
    from aviary.variable_info.variables import Aircraft as A

    names_opt = [
        A.Engine.Motor.DATA_FILE, A.Engine.SUBSONIC_FUEL_FLOW_SCALER,
        A.Engine.SUPERSONIC_FUEL_FLOW_SCALER, A.Engine.FUEL_FLOW_SCALER_CONSTANT_TERM,
        A.Engine.FUEL_FLOW_SCALER_LINEAR_TERM, A.Engine.RPM_DESIGN, A.Engine.FIXED_RPM,
        A.Engine.REFERENCE_SLS_THRUST, A.Engine.CONSTANT_FUEL_MASS_CONSUMPTION,
    ]
    glob_opt = [A.CrewPayload.NUM_PASSENGERS, A.Engine.NUM_ENGINES, A.Design.CRUISE_ALTITUDE,
                A.Wing.FLAP_TYPE]

    class EngModel:
        def __init__(self, name):
            self.name = name

    class Comp(om.ExplicitComponent):
        def initialize(self):
            for o in self._which:
                if MD[o]['option']:
                    add_aviary_option(self, o)

        def setup(self):
            self.add_output('y', 1.0)

    class EngComp(Comp):
        _which = [o for o in names_opt]

    class GlobComp(Comp):
        _which = glob_opt

    for names, subset, prefix in jobs:
        ck = f'model_options:{"+".join(names)}:{subset}:{prefix}'
        if not run.wants(ck):
            continue
        n = len(names)
        av = AviaryValues()
        vals = {}
        for j, o in enumerate(names_opt):
            if not (subset >> (j % 4)) & 1:
                continue
            u = MD[o]['units']
            if (j + n + subset) % 2:
                u = {'rpm': 'rad/s', 'lbf': 'N', 'lbm/h': 'kg/s'}.get(u, u)
            if MD[o]['types'] is str:
                v = [f'file_{i}.csv' for i in range(n)]
            else:
                v = np.array([10.0 * (j + 1) + i for i in range(n)])
            av.set_val(o, v, u)
            vals[o] = (v, u)
        av.set_val(A.CrewPayload.NUM_PASSENGERS, 77)
        av.set_val(A.Engine.NUM_ENGINES, np.array([2 * (i + 1) for i in range(n)]))
        av.set_val(A.Design.CRUISE_ALTITUDE, 10000.0, 'm')
        av.set_val(A.Wing.FLAP_TYPE, 'fowler')
        run.traces += 1
        run.transitions += n
        run.state((names, subset, prefix))
        run.seen([list(names), subset, prefix], nontrivial=n > 1, outcome=f'{n} engines')
        with run.guard(ck):
            p = om.Problem()
            top = p.model
            if prefix:
                other = top.add_subsystem('other', om.Group())
                other.add_subsystem('glob', GlobComp())
                top = top.add_subsystem(prefix, om.Group())
            comps = {}
            for where in ('pre_mission', 'mission'):
                w = top.add_subsystem(where, om.Group())
                pr = w.add_subsystem('propulsion', om.Group())
                for nm in names:
                    if where == 'pre_mission':
                        comps[where, nm] = pr.add_subsystem(nm, EngComp())
                    else:
                        g = pr.add_subsystem(nm, om.Group())
                        g2 = g.add_subsystem('base', om.Group())
                        comps[where, nm] = g2.add_subsystem('scaling', EngComp())
                comps[where, None] = w.add_subsystem('mass', GlobComp())
            kw = dict(engine_models=[EngModel(nm) for nm in names])
            if prefix:
                kw.update(prefix=prefix, group=top)
            setup_model_options(p, av, **kw)
            p.setup()
            for (where, nm), c in comps.items():
                if nm is None:
                    for o in glob_opt:
                        got = c.options[o]
                        if o not in av:
                            d = MD[o]['default_value']
                            want = d if MD[o]['units'] == 'unitless' else (d, MD[o]['units'])
                        else:
                            want, u = av.get_item(o)
                            if MD[o]['units'] != 'unitless':
                                from openmdao.utils.units import convert_units

                                want = (convert_units(want, u, MD[o]['units']), MD[o]['units'])
                        if repr(got) != repr(want) and not (
                            isinstance(want, tuple) and got[1] == want[1]
                            and close(as_num(got[0]), as_num(want[0]))
                        ):
                            run.violation(ck, f'{where}: option {o} is {got!r}, expected {want!r}')
                    continue
                i = names.index(nm)
                for o in names_opt:
                    if not MD[o]['option']:
                        continue
                    got = c.options[o]
                    if o in vals:
                        v, u = vals[o]
                        want = v[i]
                    else:
                        want, u = MD[o]['default_value'], MD[o]['units']
                    if u == 'unitless':
                        ok = got == want
                    else:
                        mu = MD[o]['units']
                        ok = got[1] == mu and close(as_num(got[0]), convert_units(as_num(want), u, mu))
                    if not ok:
                        run.violation(ck, f'{where}: engine <{nm}> (number {i} of {names}) has '
                                          f'{o} = {got!r}, expected {want!r} {u}')


def option_values(run, keys):
    """(c) aircraft data -> problem -> option of a component, in the component's own units."""
    import openmdao.api as om
    from openmdao.utils.units import convert_units

    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.functions import add_aviary_option, setup_model_options
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    for key in keys:
        meta = MD[key]
        if not meta['option'] or meta['types'] not in (float, int) or meta['units'] == 'unitless':
            continue
        us = units_for(meta['units'])
        for ug, uc in itertools.product(us, us):
            ck = f'value:{key}:{ug}->{uc}'
            if not run.wants(ck):
                continue
            run.traces += 1
            run.transitions += 1
            run.state((key, ug, uc))
            run.seen([key, ug, uc], nontrivial=ug != uc, outcome='value')
            with run.guard(ck):
                class C(om.ExplicitComponent):
                    def initialize(self):
                        add_aviary_option(self, key, units=uc)

                    def setup(self):
                        self.add_output('y', 1.0)

                v = 37 if meta['types'] is int else 37.5
                av = AviaryValues()
                av.set_val(key, v, ug)
                p = om.Problem()
                c = p.model.add_subsystem('c', C())
                setup_model_options(p, av, engine_models=[])
                p.setup()
                got = c.options[key]
                want = convert_units(float(v), ug, uc)
                if got[1] != uc or not close(as_num(got[0]), want):
                    run.violation(ck, f'{key} = {v} {ug} arrives as {got!r}, expected {want} {uc}')


def traj_params(run):
    """(d) every placement of two extra parameters over three phases: who receives what."""
    from aviary.utils.aviary_values import AviaryValues
    from aviary.variable_info.functions import setup_trajectory_params

    phases = ['climb', 'cruise', 'descent']
    subsets = [[p for i, p in enumerate(phases) if m >> i & 1] for m in range(8)]
    SPAN, AREA, OPT = 'aircraft:wing:span', 'aircraft:wing:area', 'aircraft:design:cruise_altitude'
    for s1, s2, s3 in itertools.product(subsets, subsets, (subsets[0], subsets[5])):
        for core in ([], [SPAN], [AREA, SPAN, OPT], ['nocolon_var']):
            for given in (False, True):
                ck = f'trajparam:{s1}:{s2}:{s3}:{core}:{given}'
                if not run.wants(ck):
                    continue
                run.traces += 1
                run.transitions += 1
                run.state(ck)
                run.seen([s1, s2, s3, core, given], outcome='traj')

                class Rec:
                    def __init__(self):
                        self.par, self.prom = {}, []

                    def add_parameter(self, name, **kw):
                        if name in self.par:
                            run.violation(ck, f'parameter {name} added twice')
                        self.par[name] = kw

                    def promotes(self, sub, inputs=None, **kw):
                        self.prom += list(inputs)

                traj, model = Rec(), Rec()
                ext = {p: {} for p in phases}
                for p in phases:
                    if p in s1:
                        ext[p]['p:one'] = {'val': 1.5, 'units': 'm'}
                    if p in s2:
                        ext[p]['p:two'] = {'val': 2.5, 'units': 'kg'}
                    if p in s3:
                        ext[p][AREA] = {'val': 9.0, 'units': 'm**2'}
                av = AviaryValues()
                if given:
                    av.set_val(SPAN, 10.0, 'm')
                meta = None
                kw = {}
                if 'nocolon_var' in core:
                    from aviary.variable_info.variable_meta_data import CoreMetaData

                    meta = dict(CoreMetaData)
                    meta['nocolon_var'] = meta[SPAN]
                    kw['meta_data'] = meta
                with run.guard(ck):
                    setup_trajectory_params(model, traj, av, phases=list(phases),
                                            variables_to_add=list(core), external_parameters=ext,
                                            **kw)
                    exp = {}
                    if s1:
                        exp['p:one'] = (set(s1), 1.5, 'm')
                    if s2:
                        exp['p:two'] = (set(s2), 2.5, 'kg')
                    if s3:
                        exp[AREA] = (set(s3), 9.0, 'm**2')
                    if SPAN in core:
                        exp[SPAN] = (set(phases), 10.0 / 0.3048 if given else 0.0, 'ft')
                    if AREA in core and not s3:
                        exp[AREA] = (set(phases), 0.0, 'ft**2')
                    got = {
                        k: (set(v['targets']), v['val'], v['units']) for k, v in traj.par.items()
                    }
                    if set(got) != set(exp) or any(
                        got[k][0] != exp[k][0] or got[k][2] != exp[k][2]
                        or not close(as_num(got[k][1]), exp[k][1], 1e-6) for k in exp
                    ):
                        run.violation(ck, f'trajectory parameters {got}, expected {exp}')
                    if sorted(model.prom) != sorted((f'parameters:{k}', k) for k in exp):
                        run.violation(ck, f'promoted {model.prom}')
                    for k, v in traj.par.items():
                        if any(list(t) != [k] for t in v['targets'].values()):
                            run.violation(ck, f'{k} is sent to other names: {v["targets"]}')


def main(run):
    from aviary.variable_info.variable_meta_data import CoreMetaData as MD

    run.level = 'model_checking'
    run.rule = (
        'every variable x compatible unit x kind of declaration x shape; every ordered choice of '
        '1..3 engine names from a set with prefix collisions x option subset x model prefix; every '
        'option with units x given unit x declared unit'
    )
    pmap(run, declare, list(MD), chunk=20)
    pool = ['eng', 'eng_2', 'e', 'turbo', 'turboprop'] if not run.quick else ['eng', 'eng_2', 'e']
    jobs = []
    for n in (1, 2, 3):
        for names in itertools.permutations(pool, n):
            for subset in range(16) if not run.quick else (15, 0, 5, 8):
                for prefix in (None, 'ac1'):
                    jobs.append((names, subset, prefix))
    pmap(run, model_options, jobs, chunk=8)
    pmap(run, option_values, list(MD), chunk=20)
    traj_params(run)
