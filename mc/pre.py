"""The analysis of an aircraft before the mission, built with the public interface."""
import contextlib
import copy
import glob
import io
import os
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


def aircraft_files():
    return sorted(glob.glob(os.path.join(REPO, 'aviary/models/aircraft/*/*.csv')))


def find(name):
    return [f for f in aircraft_files() if short(f) == name][0]


def short(path):
    return os.path.basename(path)[:-4]


def is_gasp(path):
    return 'GASP' in os.path.basename(path)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def default_phase_info(gasp):
    if gasp:
        from aviary.models.missions.two_dof_default import phase_info
    else:
        from aviary.models.missions.energy_state_default import phase_info
    return copy.deepcopy(phase_info)


def metadata():
    from aviary.api import CoreMetaData

    return CoreMetaData


def read(path):
    """The aircraft data of a file."""
    from aviary.utils.process_input_decks import create_vehicle

    with quiet():
        return create_vehicle(path, verbosity=0)[0]


def build(aircraft, change=None, phase_info=None, run=True, subsystems=None):
    """Problem with the pre-mission analysis of an aircraft (file name); change(aviary_inputs)
    is applied to the data as loaded, subsystems(aviary_inputs) are loaded."""
    import aviary.api as av
    from aviary.utils.functions import set_aviary_initial_values

    with quiet():
        p = av.AviaryProblem(verbosity=0)
        p.load_inputs(aircraft, phase_info or default_phase_info(is_gasp(aircraft)))
        if change is not None:
            change(p.aviary_inputs)
        if subsystems is not None:
            p.load_external_subsystems(subsystems(p.aviary_inputs))
        p.check_and_preprocess_inputs()
        p.add_pre_mission_systems()
        p.setup(check=False)
        set_aviary_initial_values(p, p.aviary_inputs)
        if run:
            p.run_model()
    return p


def mission(aircraft, change=None, phase_info=None, run=True, subsystems=None):
    """The whole problem of an aircraft with its mission, set up as for the optimiser."""
    import aviary.api as av

    with quiet():
        p = av.AviaryProblem(verbosity=0)
        p.load_inputs(aircraft, phase_info or default_phase_info(is_gasp(aircraft)))
        if change is not None:
            change(p.aviary_inputs)
        if subsystems is not None:
            p.load_external_subsystems(subsystems(p.aviary_inputs))
        p.check_and_preprocess_inputs()
        p.build_model()
        p.add_driver('SLSQP', max_iter=0)
        p.add_design_variables()
        p.add_objective()
        p.setup(check=False)
        p.final_setup()
        if run:
            p.run_model()
    return p


def sources(p):
    """Promoted aircraft and mission names -> units, for what the model computes and what it is given."""
    computed, given = {}, {}
    r = p.model._resolver
    for a, m in p.model._var_allprocs_abs2meta['output'].items():
        n = r.abs2prom(a, 'output')
        if n.startswith(('aircraft:', 'mission:')) and not a.startswith('_auto_ivc.'):
            computed[n] = m['units']
    for a, m in p.model._var_allprocs_abs2meta['input'].items():
        n = r.abs2prom(a, 'input')
        if n.startswith(('aircraft:', 'mission:')) and n not in computed:
            given[n] = m['units']
    return computed, given


def value(p, name, units=None):
    with quiet():
        return np.array(p.get_val(name, units=units), dtype=float)


def engine_types(counts=((2, 0), (2, 0)), alike=True):
    """subsystems function: one engine type per (wing, fuselage) count, each from the engine data of
    the aircraft, named so that the alphabetical order differs from the order of loading; alike=False gives each type a size and masses of its own."""
    def f(data):
        from aviary.api import Aircraft, AviaryValues
        from aviary.subsystems.propulsion.utils import build_engine_deck

        E = Aircraft.Engine
        out = []
        for i, (w, b) in enumerate(counts):
            v = AviaryValues(data)
            v.set_val(E.NUM_ENGINES, np.array([w + b]))
            v.set_val(E.NUM_WING_ENGINES, np.array([w]))
            v.set_val(E.NUM_FUSELAGE_ENGINES, np.array([b]))
            if w:
                v.set_val(E.WING_LOCATIONS, np.array([0.2 + 0.1 * i + 0.05 * j for j in range(w // 2)]))
            elif E.WING_LOCATIONS in v:
                v.delete(E.WING_LOCATIONS)
            if not alike:
                for k, f in ((E.SCALED_SLS_THRUST, 1 - .15 * i), (E.MASS_SCALER, 1 + .3 * i), (E.MASS_SPECIFIC, 1 + .2 * i),
                             (E.REFERENCE_MASS, 1 + .25 * i), (E.ADDITIONAL_MASS_FRACTION, 1 + .5 * i),
                             (E.THRUST_REVERSERS_MASS_SCALER, 1 + .35 * i)):
                    if k in v:
                        val, units = v.get_item(k)
                        v.set_val(k, np.array(val, dtype=float) * f, units)
                for d in (v, data):
                    if E.MASS in d:
                        d.delete(E.MASS)
                if E.SCALE_FACTOR in v and E.SCALED_SLS_THRUST in v:
                    v.delete(E.SCALE_FACTOR)
            e = build_engine_deck(v)
            e.name = f'engine_{9 - i}'
            if not w:
                e.set_val(E.WING_LOCATIONS, np.array([]), 'unitless')
            out.append(e)
        for k in (E.NUM_ENGINES, E.NUM_WING_ENGINES, E.NUM_FUSELAGE_ENGINES, E.WING_LOCATIONS,
                  Aircraft.Nacelle.TOTAL_WETTED_AREA):
            if k in data:
                data.delete(k)
        return out
    return f
