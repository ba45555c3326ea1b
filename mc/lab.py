"""
A bench for single OpenMDAO components of the code under test: recorded operating points
(data/components.json.gz: options and inputs of components, recorded once while aircraft were
analysed), building a component alone with given options and inputs, evaluating it, and reading
its derivatives.
"""
import contextlib
import enum
import gzip
import importlib
import io
import itertools
import json
import os
import signal
import warnings

import numpy as np
import openmdao.api as om

from mc.harness import VERIF

_CACHE = {}


def _dec(v):
    if isinstance(v, dict):
        if '$e' in v:
            mod, cls, name = v['$e'].split(':')
            return getattr(importlib.import_module(mod), cls)[name]
        if '$f' in v:
            return float(v['$f'])
        if '$a' in v:
            return np.array([_dec(x) for x in v['$a']]).reshape(v['s'])
        if '$t' in v:
            return tuple(_dec(x) for x in v['$t'])
        if '$d' in v:
            return {_dec(a) if not isinstance(a, list) else tuple(a): _dec(b) for a, b in v['$d']}
    if isinstance(v, list):
        return [_dec(x) for x in v]
    return v


def records():
    """class path -> list of recorded (options, inputs)."""
    if 'rec' not in _CACHE:
        with gzip.open(os.path.join(VERIF, 'data', 'components.json.gz')) as f:
            raw = json.load(f)
        out = {}
        for path, recs in raw.items():
            keep = []
            for r in recs:
                if r.get('disc'):
                    continue
                try:
                    o = {k: _dec(v) for k, v in r['o'].items() if v != 'UNPICKLABLE'}
                except Exception:  # noqa: BLE001 - an option value that no longer exists
                    continue
                i = {k: (np.array(_dec(v), float), u) for k, (v, u) in r['i'].items()}
                keep.append((o, i))
            if keep:
                out[path] = keep
        _CACHE['rec'] = out
    return _CACHE['rec']


def find_class(path):
    """The class, or None when the code no longer has it."""
    mod, _, name = path.rpartition('.')
    try:
        return getattr(importlib.import_module(mod), name, None)
    except ImportError:
        return None


def option_pool():
    """option name -> distinct recorded values over all components."""
    if 'pool' not in _CACHE:
        pool = {}
        for recs in records().values():
            for o, _ in recs:
                for k, v in o.items():
                    if k == 'num_nodes':
                        continue
                    L = pool.setdefault(k, [])
                    if not any(_same(v, w) for w in L):
                        L.append(v)
        _CACHE['pool'] = pool
    return _CACHE['pool']


def _same(a, b):
    return repr(a) == repr(b)


def option_values(cls, opts):
    """Alternatives of each option: both truth values, every member of an enumeration, every value
    the declaration lists, and for whole numbers the other recorded values of that option."""
    alts = {}
    try:
        with quiet():
            declared = cls().options
    except Exception:  # noqa: BLE001
        return alts
    for k, v in opts.items():
        if k in ('settings:verbosity', 'num_nodes') or k not in declared:
            continue
        if k.startswith('aircraft:propulsion:total_num') and 'aircraft:engine:num_engines' in opts:
            continue  # follows from the number of engines
        listed = declared._dict[k].get('values') or []
        if isinstance(v, (bool, np.bool_)):
            alts[k] = [v, not v]
        elif isinstance(v, enum.Enum):
            alts[k] = [v] + [m for m in type(v) if m is not v]
        elif len(listed) > 1:
            alts[k] = [v] + [m for m in listed if not _same(m, v)]
        elif isinstance(v, int):
            more = [w for w in option_pool().get(k, []) if type(w) is int and w != v][:3]
            if more:
                alts[k] = [v] + more
    if np.size(opts.get('aircraft:engine:num_engines', [])) == 1:
        alts['$engines'] = [None, (6,), (2, 2)]
    if any(real(v) for k, v in opts.items() if k in declared):
        alts['$numbers'] = [None, True]
    return alts


def real(v):
    """Whether the option value v consists of real numbers, possibly with a unit."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str):
        return real(v[0])
    if isinstance(v, (list, tuple, np.ndarray)):
        return len(np.shape(v)) == 1 and len(v) > 0 and all(real(x) for x in v)
    return isinstance(v, (float, np.floating)) and np.isfinite(v)


def varied(v, f):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str):
        return (varied(v[0], f) if np.all(v[0]) else v[0]), v[1]
    if isinstance(v, np.ndarray):
        return np.array([varied(x, f) for x in v])
    if isinstance(v, (list, tuple)):
        return type(v)(varied(x, f) for x in v)
    return v * f if v else f / 8


def with_numbers(opts):
    """opts with every real-valued option changed, each by another factor."""
    return {k: varied(v, 1.04 + .03 * (i % 7)) if real(v) else v for i, (k, v) in enumerate(sorted(opts.items()))}


def with_engines(opts, counts):
    """opts with these numbers of engines per engine type, all on the wing."""
    out = dict(opts)
    for k, v in opts.items():
        if k in ('aircraft:engine:num_engines', 'aircraft:engine:num_wing_engines'):
            out[k] = np.array(counts)
        elif k == 'aircraft:engine:num_fuselage_engines':
            out[k] = np.zeros(len(counts), int)
        elif k.startswith('aircraft:propulsion:total_num'):
            out[k] = 0 if 'fuselage' in k else int(sum(counts))
        elif k.startswith('aircraft:engine:') and np.size(v) == 1:
            if isinstance(v, np.ndarray):
                out[k] = np.resize(v, len(counts)) * (1 + .25 * np.arange(len(counts)) if v.dtype.kind == 'f' else 1)
            elif isinstance(v, list):
                out[k] = [v[0] * (1 + .25 * j) if real(v) else v[0] for j in range(len(counts))]
    return out


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            yield


class Refused(Exception):
    """The component cannot be built or evaluated with these options and inputs."""


@contextlib.contextmanager
def limit(seconds):
    """Give up on an evaluation that does not end (operating points are varied blindly)."""

    def late(_sig, _frame):
        raise Refused(f'no result within {seconds} s of processor time')

    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Bench:
    """One component alone; its inputs as one flat vector x, its outputs as one flat vector y."""

    def __init__(self, cls, opts, ins=None, deriv=True):
        with quiet():
            try:
                comp = cls()
                for k, v in opts.items():
                    if k in comp.options:
                        comp.options[k] = v
                p = om.Problem(reports=None)
                p.model.add_subsystem('c', comp, promotes=['*'])
                if isinstance(comp, om.ImplicitComponent):
                    p.model.nonlinear_solver = om.NewtonSolver(
                        solve_subsystems=True, maxiter=50, atol=1e-13, rtol=1e-13, iprint=-1)
                    p.model.linear_solver = om.DirectSolver()
                p.setup(force_alloc_complex=False)
                p.final_setup()
            except Exception as e:  # noqa: BLE001
                raise Refused(f'setup: {type(e).__name__}: {e}') from e
        self.p, self.comp = p, comp
        self.ivc = p.model._get_subsystem('_auto_ivc')
        meta = comp._var_abs2meta
        self.in_names = [a[2:] for a in meta['input']]
        self.in_shape = {a[2:]: m['shape'] for a, m in meta['input'].items()}
        self.in_units = {a[2:]: m['units'] for a, m in meta['input'].items()}
        self.out_names = [a[2:] for a in meta['output']]
        self.out_shape = {a[2:]: m['shape'] for a, m in meta['output'].items()}
        self.out_units = {a[2:]: m['units'] for a, m in meta['output'].items()}
        self.islice, n = {}, 0
        for nm in self.in_names:
            sz = int(np.prod(self.in_shape[nm])) if self.in_shape[nm] else 1
            self.islice[nm] = slice(n, n + sz)
            n += sz
        self.nx = n
        self.oslice, n = {}, 0
        for nm in self.out_names:
            sz = int(np.prod(self.out_shape[nm])) if self.out_shape[nm] else 1
            self.oslice[nm] = slice(n, n + sz)
            n += sz
        self.ny = n
        self.fixed_in = []

    def x_from(self, ins):
        x = np.ones(self.nx)
        for nm in self.in_names:
            sl = self.islice[nm]
            size = sl.stop - sl.start
            if nm in ins:
                v, u = ins[nm]
                v = np.ravel(v)
                if u != self.in_units[nm] and u and self.in_units[nm]:
                    v = om.convert_units(v, u, self.in_units[nm])
                x[sl] = v if v.size == size else np.resize(v, size)
            else:
                x[sl] = np.ravel(self.p.get_val(nm))
        return x

    def set(self, x):
        for nm in self.in_names:
            self.p.set_val(nm, x[self.islice[nm]].reshape(self.in_shape[nm]),
                           units=self.in_units[nm])

    def run(self, x):
        """Outputs at x (in the component's own units)."""
        with quiet():
            try:
                with limit(3):
                    self.set(x)
                    self.p.model.run_solve_nonlinear()
            except Exception as e:  # noqa: BLE001
                raise Refused(f'run: {type(e).__name__}: {e}') from e
            return np.concatenate([np.ravel(np.array(self.comp._outputs[nm], float))
                                   for nm in self.out_names]) if self.ny else np.zeros(0)

    def jac(self, x):
        with quiet():
            self.set(x)
            try:
                with limit(30):
                    self.p.run_model()
                    J = self.p.compute_totals(of=self.out_names, wrt=self.in_names,
                                              return_format='flat_dict')
            except Exception as e:  # noqa: BLE001
                raise Refused(f'totals: {type(e).__name__}: {e}') from e
        out = np.zeros((self.ny, self.nx))
        for o in self.out_names:
            for i in self.in_names:
                out[self.oslice[o], self.islice[i]] = J[o, i]
        return out

    def label_x(self, k):
        for nm in self.in_names:
            sl = self.islice[nm]
            if sl.start <= k < sl.stop:
                return nm if sl.stop - sl.start == 1 else f'{nm}[{k - sl.start}]'

    def label_y(self, k):
        for nm in self.out_names:
            sl = self.oslice[nm]
            if sl.start <= k < sl.stop:
                return nm if sl.stop - sl.start == 1 else f'{nm}[{k - sl.start}]'


def combos(base, alts, cap):
    """Option dictionaries: the base, then all that differ in one option, two options, ... up to cap."""
    keys = sorted(alts)
    n = 0
    for r in range(len(keys) + 1):
        for ks in itertools.combinations(keys, r):
            for vs in itertools.product(*[alts[k][1:] for k in ks]):
                if n >= cap:
                    return
                o = dict(base)
                o.update(dict(zip(ks, vs)))
                if o.pop('$numbers', None):
                    o = with_numbers(o)
                if '$engines' in o:
                    o = with_engines(o, o.pop('$engines'))
                n += 1
                yield o
