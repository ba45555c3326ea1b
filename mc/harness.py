"""
Bookkeeping shared by every check: counting what was explored, recording violations as replayable
files, matching known findings, writing the evidence file, and running cases in worker processes.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import warnings

VERIF = os.environ.get('VERIF_DIR', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
MAX_REPORTED = int(os.environ.get("VERIF_MAX", "12"))


class ImplError(Exception):
    """An exception that came out of the code under test where none is allowed."""


def jsonable(x):
    import enum

    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, enum.Enum):
        return f'{type(x).__name__}.{x.name}'
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    return repr(x)


def from_repo(exc):
    """True when the traceback of exc passes through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def to_blame(exc):
    """True when an exception nobody expected comes from what the code under test does.

    On the unchanged tree there are none. Names that are gone (a refactoring the check has to follow)
    and a machine that is out of memory or disk are not held against the code.
    """
    from concurrent.futures.process import BrokenProcessPool

    if from_repo(exc):
        return True
    if isinstance(exc, (ImportError, MemoryError, OSError, BrokenProcessPool)):
        return False
    last = None
    tb = exc.__traceback__
    while tb is not None:
        last = os.path.abspath(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if last is not None and last.startswith(VERIF + os.sep):
        return isinstance(exc, (ValueError, KeyError, IndexError, ArithmeticError))
    return last is not None


def call(fn, *args, **kwargs):
    """Run fn; return ('ok', value) or ('err', exception)."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'ok', fn(*args, **kwargs)
    except Exception as e:  # noqa: BLE001 - the outcome is what is being checked
        return 'err', e


class Run:
    def __init__(self, pid, tier, only=None):
        self.pid = pid
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.only = only
        self.t0 = time.time()
        self.violations = {}
        self.samples = []
        self.level = 'exploration'
        self.rule = ''
        self.exhaustive = True
        self.extra = {}
        self.assumptions = []
        # counters
        self.evaluations = 0
        self.distinct = set()
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]
        self.known_hit = {}

    # ------------------------------------------------------------------ recording
    def wants(self, key):
        return self.only is None or self.only == key

    def seen(self, case, nontrivial=True, outcome=None):
        """One case was executed. `case` is any JSON-able description of it."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(jsonable(case)).encode()).hexdigest())
        if len(self.samples) < 4 or (self.evaluations in (10, 100, 1000, 10000)):
            if len(self.samples) < 10:
                self.samples.append(jsonable(case))
        if outcome is not None:
            self.outcomes[str(outcome)] = self.outcomes.get(str(outcome), 0) + 1

    def state(self, canon):
        self.states.add(hashlib.md5(repr(canon).encode()).digest())

    def violation(self, key, msg, case=None):
        """key: short string naming the exact failing input/history."""
        key = str(key)
        for k in self.known:
            if k['key'] == key:
                self.known_hit[key] = k
                return
        if key not in self.violations:
            self.violations[key] = (msg, jsonable(case))

    def guard(self, key, case=None):
        """Context manager: an exception from the code under test in the block is a violation."""
        return _Guard(self, key, case)

    def merge(self, part):
        """Merge what a worker process reported (see pmap)."""
        self.evaluations += part['evaluations']
        self.distinct |= part['distinct']
        self.states |= part['states']
        self.nstates += part['nstates']
        self.transitions += part['transitions']
        self.traces += part['traces']
        for k, v in part['outcomes'].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for s in part['samples']:
            if len(self.samples) < 10:
                self.samples.append(s)
        for k, v in part['violations'].items():
            self.violations.setdefault(k, v)
        self.known_hit.update(part['known_hit'])

    def export(self):
        return dict(
            evaluations=self.evaluations, distinct=self.distinct, states=self.states,
            nstates=self.nstates, transitions=self.transitions, traces=self.traces,
            outcomes=self.outcomes, samples=self.samples[:3], violations=self.violations,
            known_hit=self.known_hit,
        )

    # ------------------------------------------------------------------ finishing
    def finish(self):
        wall = time.time() - self.t0
        cov = {}
        nst = len(self.states) + self.nstates
        if self.level == 'model_checking':
            cov = dict(
                states=nst, transitions=self.transitions,
                traces_validated_against_impl=self.traces, samples=self.samples,
                evaluations=self.evaluations, rule=self.rule, exhaustive=self.exhaustive,
            )
        else:
            cov = dict(
                evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                rule=self.rule, samples=self.samples, exhaustive=self.exhaustive,
            )
            if nst:
                cov['states'] = nst
            if self.transitions:
                cov['transitions'] = self.transitions
        if self.outcomes:
            cov['distinct_outcomes'] = len(self.outcomes)
            cov['outcomes'] = dict(sorted(self.outcomes.items(), key=lambda kv: -kv[1])[:20])
        cov.update(self.extra)
        ev = dict(
            property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
            seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
            wall_s=round(wall, 2), violations=len(self.violations),
        )
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        if self.only is None:
            with open(os.path.join(evdir, f'{self.pid}.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        for key, k in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        print(
            f'{self.pid} tier={self.tier} evaluations={self.evaluations} '
            f'distinct={len(self.distinct)} states={nst} transitions={self.transitions} '
            f'traces={self.traces} outcomes={len(self.outcomes)} wall={wall:.1f}s'
        )
        if self.evaluations == 0 and self.only is None:
            print('HARNESS ERROR: nothing was explored')
            return 2
        if not self.violations:
            return 0
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (key, (msg, case)) in enumerate(self.violations.items()):
            if n >= MAX_REPORTED:
                print(f'... and {len(self.violations) - n} more violations')
                break
            path = os.path.join(
                rdir, f'{self.pid}_{hashlib.md5(key.encode()).hexdigest()[:10]}.json'
            )
            with open(path, 'w') as f:
                json.dump(
                    dict(property=self.pid, key=key, message=msg, case=case,
                         command=f'bash run.sh {self.pid} {self.tier} --replay {path}'),
                    f, indent=1,
                )
            print(f'  {key}: {msg}')
            print(f'VIOLATION property={self.pid} replay={path}')
        return 1


class _Guard:
    def __init__(self, run, key, case):
        self.run, self.key, self.case = run, key, case

    def __enter__(self):
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, et, e, tb):
        self._w.__exit__(None, None, None)
        if e is None or not isinstance(e, Exception):
            return False
        if isinstance(e, ImplError):
            self.run.violation(self.key, str(e), self.case)
            return True
        if to_blame(e):
            last = traceback.format_exception_only(et, e)[-1].strip()
            self.run.violation(self.key, f'unexpected exception from the code: {last[:400]}',
                               self.case)
            return True
        return False


# ---------------------------------------------------------------------- worker processes
def _worker(job):
    fn, pid, tier, only, chunk = job
    import numpy as np

    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    d = os.path.join(SCRATCH, f'w{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    run = Run(pid, tier, only=only)
    try:
        fn(run, chunk)
    except Exception as e:
        if only is not None or not to_blame(e):
            raise
        traceback.print_exc()
        run.violation(f'uncaught {type(e).__name__}', f'unexpected exception from the code: {str(e)[:400]}')
    return run.export()


def pmap(run, fn, items, nproc=8, chunk=None):
    """Run fn(run, [item, ...]) over items in worker processes; merge what they report.

    fn has to be a module-level function. Chunks are formed deterministically.
    """
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor

    items = list(items)
    if not items:
        return
    if chunk is None:
        chunk = max(1, len(items) // (nproc * 4))
    chunks = [items[i : i + chunk] for i in range(0, len(items), chunk)]
    ctx = mp.get_context('fork')
    sys.stdout.flush()
    # an executor, not a Pool: it reports a worker that was killed instead of waiting for it
    with ProcessPoolExecutor(min(nproc, len(chunks)), mp_context=ctx,
                             initializer=_bounded) as pool:
        for part in pool.map(_worker, [(fn, run.pid, run.tier, run.only, c) for c in chunks]):
            run.merge(part)


def _bounded():
    """Cap a worker's memory, so that a runaway loop in the code ends in MemoryError."""
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def close(a, b, rtol=1e-9, atol=1e-12):
    import numpy as np

    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
