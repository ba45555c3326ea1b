"""C17: the results of an analysis do not depend on the analyses before it."""
import copy
import os
import pickle
import shutil
import tempfile
import traceback

import numpy as np

from mc import pre
from mc.harness import pmap

FLOPS, GASP = 'advanced_single_aisle_FLOPS', 'large_single_aisle_1_GASP'


# ---------------------------------------------------------------- what an analysis amounts to
def digest(p):
    """Everything the problem computes, and what the optimiser is told."""
    out = {}
    m = p.model
    for a in m._var_allprocs_abs2meta['output']:
        v = p.get_val(a)
        if isinstance(v, np.ndarray) and v.dtype.kind in 'fc':
            out[a] = np.array(v, float).ravel()
    for kind, f in (('design variable', m.get_design_vars), ('constraint', m.get_constraints), ('objective', m.get_objectives)):
        for n, o in f().items():
            for k in ('lower', 'upper', 'equals', 'scaler', 'adder', 'indices'):
                v = o.get(k)
                if v is not None:
                    try:
                        out[f'{kind} {n} {k}'] = np.array(v, float).ravel()
                    except (TypeError, ValueError):
                        out[f'{kind} {n} {k}'] = str(v)
                else:
                    out[f'{kind} {n} {k}'] = 'none'
    return out


def differ(a, b):
    """First difference between two digests, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f'{k} is there only {"after other analyses" if k in b else "without other analyses"}'
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if isinstance(x, str) != isinstance(y, str) or x != y:
                return f'{k} is {y} instead of {x}'
            continue
        if x.shape != y.shape:
            return f'{k} has {y.size} values instead of {x.size}'
        with np.errstate(all='ignore'):
            scale = np.nanmax(np.abs(x)) if x.size and np.isfinite(x).any() else 0.0
            bad = ~((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-6 * max(scale, 1e-12)))
        if bad.any():
            j = int(np.argmax(bad))
            return f'{k} is {y[j]:.10g} instead of {x[j]:.10g}'
    return None


# ---------------------------------------------------------------- analyses
class World:
    """What a user's session shares between analyses."""

    def __init__(self):
        self.data = {}
        self.missions = {}
        self.decks = None
        self.kept = []

    def aircraft(self, name):
        if name not in self.data:
            self.data[name] = pre.read(pre.find(name))
        return self.data[name]

    def mission(self, name):
        if name not in self.missions:
            ph = self.missions[name] = pre.default_phase_info('GASP' in name)
            for phase in ('climb', 'climb1', 'cruise', 'desc1'):
                if phase in ph and phase != 'cruise' * ('GASP' in name):
                    ph[phase]['user_options']['constraints'] = {
                        'mach': {'type': 'path', 'upper': 0.93},
                        'slow': {'type': 'boundary', 'loc': 'final', 'target': 'mach', 'upper': 0.9, 'units': 'unitless'}}
        return self.missions[name]


def finish(p, run=True):
    p.check_and_preprocess_inputs()
    p.build_model()
    p.add_driver('SLSQP', max_iter=0)
    p.add_design_variables()
    p.add_objective()
    p.setup(check=False)
    p.set_initial_guesses()
    if run:
        p.run_model()
    return p


def problem(name=None):
    import aviary.api as av

    return av.AviaryProblem(verbosity=0, **({'name': name} if name else {}))


def default(name):
    def f(w):
        p = problem()
        p.load_inputs(pre.find(name), None)
        return finish(p)
    return f


def shared(name):
    """The same data and mission objects for every analysis of the session."""
    def f(w):
        p = problem()
        p.load_inputs(w.aircraft(name), w.mission(name))
        return finish(p)
    return f


def other_mission(w):
    """A mission of its own: other phases, fixed durations, target range."""
    ph = pre.default_phase_info(False)
    ph['cruise']['user_options']['time_duration'] = (150.0, 'min')
    ph['climb']['user_options']['num_segments'] = 4
    ph['descent']['user_options']['mass_ref'] = (1.5e5, 'lbm')
    ph['post_mission']['target_range'] = (1500.0, 'nmi')
    p = problem()
    p.load_inputs(pre.find(FLOPS), ph)
    return finish(p)


def modified(w):
    """The default mission of this equations of motion, modified on the way in, and another aircraft."""
    def shorter(phase_info, post_mission_info, aviary_inputs):
        phase_info['cruise']['user_options']['time_duration_bounds'] = ((30.0, 60.0), 'min')
        phase_info['cruise']['user_options']['num_segments'] = 3
        return phase_info, post_mission_info

    p = problem()
    p.load_inputs(pre.find('large_single_aisle_2_FLOPS'), pre.default_phase_info(False), phase_info_modifier=shorter)
    return finish(p)


def changed(w):
    """The data of the session, changed in this problem only."""
    p = problem()
    p.load_inputs(w.aircraft(FLOPS), w.mission(FLOPS))
    d = p.aviary_inputs
    d.set_val('aircraft:fuselage:length', 140.0, 'ft')
    d.set_val('aircraft:crew_and_payload:num_passengers', 150)
    for k, (v, u) in d:
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and k.startswith('aircraft:wing:') and v.flags.writeable:
            d.set_val(k, v * 1.02, u)
    return finish(p)


def mars(w):
    from aviary.api import Settings
    from aviary.variable_info.enums import AtmosphereModel

    p = problem()
    p.load_inputs(pre.find(FLOPS), pre.default_phase_info(False))
    p.aviary_inputs.set_val(Settings.ATMOSPHERE_MODEL, AtmosphereModel.MARS_REFERENCE)
    p.aviary_inputs.set_val('mission:gravity', 3.7, 'm/s**2')
    return finish(p)


def engines(w):
    def same(data):
        # the engine models of the session
        made = pre.engine_types(((2, 0), (0, 2)), alike=False)(data)
        w.decks = w.decks or made
        return w.decks

    return pre.build(pre.find(GASP), subsystems=same)


def extended(w):
    """A subsystem with variables of its own."""
    import openmdao.api as om

    import aviary.api as av

    meta = copy.deepcopy(av.CoreMetaData)
    av.add_meta_data('aircraft:banner:mass', meta_data=meta, units='lbm', default_value=77.0, desc='mass of the banner')

    class Banner(av.SubsystemBuilder):
        def __init__(self):
            super().__init__(name='banner', meta_data=meta)

        def build_pre_mission(self, aviary_inputs, subsystem_options=None, **kw):
            g = om.Group()
            g.add_subsystem('b', om.ExecComp('m2 = 2*m', m={'units': 'lbm', 'val': 77.0}, m2={'units': 'lbm'}), promotes_inputs=[('m', 'aircraft:banner:mass')],
                            promotes_outputs=[('m2', 'aircraft:banner:doubled')])
            return g

    p = problem()
    p.load_inputs(pre.find(FLOPS), pre.default_phase_info(False))
    p.load_external_subsystems([Banner()])
    return finish(p)


def failing(w):
    """Data and missions that are refused."""
    for change in ({'aircraft:fuselage:length': (1.0, 'lbm')}, {'aircraft:engine:num_engines': ('two', 'unitless')}):
        try:
            p = problem()
            d = pre.read(pre.find(GASP))
            for k, v in change.items():
                d.set_val(k, *v)
            p.load_inputs(d, pre.default_phase_info(True))
            finish(p)
        except Exception:
            pass
    for key, v in (('target_distance', (-1.0, 'km')), ('no_such_option', 3)):
        try:
            ph = pre.default_phase_info(False)
            ph['cruise']['user_options'][key] = v
            p = problem()
            p.load_inputs(pre.find(FLOPS), ph)
            finish(p)
        except Exception:
            pass
    return None


def off_design(kind):
    def f(w):
        p = problem()
        p.load_inputs(w.aircraft(FLOPS), w.mission(FLOPS))
        finish(p)
        before = digest(p)
        p.driver.opt_settings['maxiter'] = 1
        if kind == 'payload range':
            import types

            p.result = types.SimpleNamespace(success=True)
            p.run_payload_range()
            q = p.ferry_range_prob
        else:
            own = {'phase_info': w.mission(FLOPS)} if kind == 'given phases' else {}
            q = p.run_off_design_mission(problem_type='off_design_min_fuel', mission_range=1400.0, num_economy=80, optimizer='SLSQP', **own)
        p.run_model()
        d = differ(before, digest(p))
        if d:
            raise Changed(f'the sized problem: {d}')
        return q
    return f


class Changed(Exception):
    pass


def legacy(w):
    """Conversions of the files of other codes."""
    from aviary.utils.fortran_to_aviary import fortran_to_aviary
    from aviary.variable_info.enums import LegacyCode, Verbosity

    base = os.path.join(pre.REPO, 'aviary/validation_cases/validation_data/legacy_files')
    for f, c in (('small_single_aisle_GASP.dat', LegacyCode.GASP),):
        here = os.path.abspath(f)
        shutil.copy(os.path.join(base, f), here)
        fortran_to_aviary(here, c, here + '.csv', force=True, verbosity=Verbosity.QUIET)
    return None


def reload(w):
    """Results saved and loaded again."""
    p = problem('saved')
    p.load_inputs(w.aircraft(FLOPS), w.mission(FLOPS))
    finish(p)
    p.save_results()
    return p


OPS = {'FLOPS aircraft, default mission': default(FLOPS), 'GASP aircraft, default mission': default(GASP),
       'FLOPS aircraft, shared objects': shared(FLOPS), 'GASP aircraft, shared objects': shared(GASP),
       'other mission': other_mission, 'modified mission': modified, 'flight on Mars': mars, 'two engine types': engines, 'extended variables': extended,
       'refused inputs': failing, 'off-design mission': off_design('min fuel'), 'off-design mission, given phases': off_design('given phases'),
       'payload-range diagram': off_design('payload range'), 'data changed after loading': changed,
       'legacy conversion': legacy, 'saved results': reload}


def perform(w, op):
    """Digest of an analysis in this session."""
    with pre.quiet():
        p = OPS[op](w)
    if p is None:
        return {}
    d = digest(p)
    w.kept.append((op, p))
    return d


def apart(f, *a):
    """f(*a) in a process of its own that starts where this one is."""
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            d = tempfile.mkdtemp(prefix='c17_')
            os.chdir(d)
            try:
                res = ('ok', f(*a))
            except BaseException as e:  # noqa: BLE001 - reported by the parent
                res = ('error', f'{type(e).__name__}: {e}', traceback.format_exc()[-1500:])
            with os.fdopen(s, 'wb') as o:
                pickle.dump(res, o)
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
        finally:
            os._exit(code)
    os.close(s)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process ended', '')


# ---------------------------------------------------------------- exploration
HOME = None


def baseline(op):
    with open(os.path.join(HOME, f'{list(OPS).index(op)}.pickle'), 'rb') as f:
        return pickle.load(f)


def store(run, ops):
    for op in ops:
        r = apart(twice, op)
        with open(os.path.join(HOME, f'{list(OPS).index(op)}.pickle'), 'wb') as f:
            pickle.dump(r, f)


def twice(op):
    """What the analysis gives on its own, and what running its problem again gives."""
    w = World()
    d = perform(w, op)
    for _, p in w.kept:
        with pre.quiet():
            p.run_model()
    return d, digest(w.kept[0][1]) if w.kept else {}


def explore(w, before, depth, follow):
    """Outcomes of every continuation of the session: (sequence, problem or None, values compared)."""
    out = []
    for op in follow:
        out += apart_list(step, w, before, op, depth, follow)
    return out


def apart_list(f, w, before, op, depth, follow):
    r = apart(f, w, before, op, depth, follow)
    return r[1] if r[0] == 'ok' else [(before + (op,), r[1], 0)]


def step(w, before, op, depth, follow):
    seq = before + (op,)
    ref = baseline(op)
    try:
        d = perform(w, op)
        bad = differ(ref[1][0], d) if ref[0] == 'ok' else None
    except Changed as e:
        d, bad = {}, str(e)
    except Exception as e:
        d, bad = {}, (f'{type(e).__name__}: {e}' if ref[0] == 'ok' else None)
    out = [(seq, bad and f'{op}: {bad}', len(d))]
    # the problems of before still compute the same
    if before:
        # those of the session before the last analysis
        for name, p in w.kept[:-1] if d else w.kept:
            dd = baseline(name)[1][1]
            with pre.quiet():
                p.run_model()
            x = differ(dd, digest(p))
            out.append((seq + ('again',), x and f'{name}, run again after {op}: {x}', len(dd)))
    if depth > 1:
        out += explore(w, seq, depth - 1, follow)
    return out


def check(run, jobs):
    for first, depth, follow in jobs:
        for seq, bad, n in apart_list(step, World(), (), first, depth, follow):
            run.seen(seq, outcome=seq[-1])
            run.transitions += n
            run.state(seq)
            if bad:
                run.violation(' / '.join(seq), f'after {", ".join(s for s in seq[:-1]) or "nothing"}: {bad}', list(seq))


def main(run):
    global HOME
    run.rule = 'one case = one sequence of analyses in one process, the last one judged'
    with tempfile.TemporaryDirectory(prefix='c17_') as HOME:
        ops = tuple(OPS) if not run.quick else QUICK
        pmap(run, store, ops, chunk=1)
        for op in ops:
            r = baseline(op)
            if r[0] != 'ok':
                run.violation(op, f'{op} fails in a fresh process: {r[1]} {r[2][-600:]}')
        # in parts, so that the workers end together
        jobs = [(op, 2, part) for part in (ops[:5], ops[5:]) for op in ops]
        if not run.quick:
            jobs += [(a, 3, CORE) for a in CORE]
        pmap(run, check, jobs, chunk=1)


QUICK = ('FLOPS aircraft, default mission', 'GASP aircraft, default mission', 'FLOPS aircraft, shared objects', 'other mission', 'flight on Mars', 'two engine types',
         'extended variables', 'refused inputs', 'off-design mission, given phases', 'payload-range diagram', 'data changed after loading')
CORE = ('FLOPS aircraft, default mission', 'FLOPS aircraft, shared objects', 'GASP aircraft, shared objects', 'other mission', 'extended variables',
        'off-design mission', 'payload-range diagram', 'saved results')
