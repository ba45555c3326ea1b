"""Derivatives of components against finite differences of their outputs, over the bench of lab.py."""
import hashlib
import os
import time

import numpy as np

from mc import lab

# evaluations of these take tens of milliseconds: fewer option combinations and points
SLOW = ('wing_detailed', 'AeroGeom', 'CompressibilityDrag', 'MuxComponent', 'SkinFriction',
        'HamiltonStandard', 'PolynomialFit')


def differences(b, x, y0, J):
    """(output, input, J, D) wherever J is not the derivative of the outputs at x."""
    bad = []
    zero_in = bool(np.any(x == 0.0))
    for k in range(b.nx):
        s = max(abs(x[k]), 1e-2)
        missed = cleared = rough = np.zeros(b.ny, bool)
        for rel in (1e-4, 1e-3, 1e-6):
            h = s * rel

            def ev(d):
                z = x.copy()
                z[k] += d
                return b.run(z)

            y1, y2, y3, y4 = ev(h), ev(-h), ev(h / 2), ev(-h / 2)
            d1, d2 = (y1 - y2) / (2 * h), (y3 - y4) / h
            r = (4 * d2 - d1) / 3
            fwd, bwd = (y3 - y0) / (h / 2), (y0 - y4) / (h / 2)
            j = J[:, k]
            size = np.maximum(np.abs(j), np.abs(r))
            noise = 1e-12 * np.abs(y0) / h
            err = np.abs(d1 - d2) + noise
            tol = 2e-3 * size + 10 * err + 1e-6 * (np.abs(y0) + 1e-2) / max(s, 1.0)
            ok = np.abs(j - r) <= tol
            # at a kink any slope between the one-sided ones is acceptable
            ok |= (j >= np.minimum(fwd, bwd) - tol) & (j <= np.maximum(fwd, bwd) + tol)
            ok |= ~np.isfinite(r)
            # a value that is astronomically steep here has no meaningful derivative
            ok |= size > 1e10 * (np.abs(y0) + 1) / s
            # nor do finite differences resolve the middle of a steep smoothed step
            rough = rough | (np.abs(d1 - d2) > 0.05 * np.abs(r))
            ok |= np.isfinite(j) & rough & (np.abs(r) > 1e3 * (np.abs(y0) + 1) / s)
            ok |= ~np.isfinite(j) & zero_in
            # a step so small that rounding may hide the slope does not speak for it
            missed = missed | ~ok
            cleared = cleared | ok & ((10 * noise <= 0.05 * size) | ~missed)
            if not (missed & ~cleared).any():
                break
        for m in np.where(missed & ~cleared)[0]:
            bad.append((b.label_y(m), b.label_x(k), float(J[m, k]), float(r[m]), float(x[k])))
    return bad


# there is no flight where these vanish
NEVER_ZERO = ('kinematic_viscosity', 'density', 'temperature', 'static_pressure', 'speed_of_sound')


def unsteady(b, x):
    """Outputs that jump when the inputs move by no more than rounding: there is no slope there."""
    y = b.run(x)
    out = np.zeros(b.ny, bool)
    for seed in (1, 2, 3, 4):
        z = x * (1 + 1e-12 * (((np.arange(1, len(x) + 1) * 0.618 * seed + 0.37) % 1) - 0.5))
        out |= np.abs(b.run(z) - y) > 1e-6 * np.abs(y)
    return out


def points(b, x, full):
    yield 'recorded', x
    n = len(x)
    yield 'generic', x * (1 + 0.13 * ((np.arange(1, n + 1) * 0.618) % 1)) + 1e-3 * (x == 0)
    for nm in b.in_names:
        sl = b.islice[nm]
        for f in ((0.5, 2.0) if not full else (0.1, 0.5, 0.8, 1.3, 2.0, 5.0)):
            z = x.copy()
            z[sl] = np.where(x[sl] != 0, x[sl] * f, f)
            if 'sweep' in nm.lower() and np.max(np.abs(z[sl])) >= (
                    80 if np.max(np.abs(x[sl])) > 1.5 else 1.4):
                continue
            yield f'{nm} x{f}', z
        if nm.lower().endswith('mach') and np.any(x[sl]) and not full:
            z = x.copy()
            z[sl] *= 0.3
            yield f'{nm} x0.3', z
        if nm.split(':')[-1] == 'mach' and np.any(x[sl] != 1):
            z = x.copy()
            z[sl] = 1.0
            yield f'{nm} = 1', z
        if np.any(x[sl]) and nm not in NEVER_ZERO:
            z = x.copy()
            z[sl] = 0.0
            yield f'{nm} = 0', z
    if full:
        for seed in range(1, 9):
            yield f'generic{seed}', x * (
                0.6 + 0.9 * ((np.arange(1, n + 1) * 0.618 * seed + 0.37 * seed) % 1)) + 1e-3 * (x == 0)


def cases(want, quick):
    """(class path, record number, option combination number) for every component."""
    out = []
    for path, recs in sorted(lab.records().items()):
        if not want(path):
            continue
        cls = lab.find_class(path)
        if cls is None:
            continue
        slow = any(s in path for s in SLOW)
        sizes = [sum(v[0].size for v in i.values()) for _, i in recs]
        use = [k for k, s in enumerate(sizes) if s <= 60][: (2 if slow else 6) if quick else 12]
        use = use or [int(np.argmin(sizes))]
        cap = (3 if slow else 10) if quick else (8 if slow else 40)
        for k in use:
            alts = lab.option_values(cls, recs[k][0])
            for c, _ in enumerate(lab.combos(recs[k][0], alts, cap)):
                out.append((path, k, c, cap, slow))
    # the long ones first, so that the workers end together
    return sorted(out, key=lambda t: ('PolynomialFit' not in t[0], not t[4]))


def check(run, chunk):
    for path, k, c, cap, slow in chunk:
        cls = lab.find_class(path)
        o, i = lab.records()[path][k]
        alts = lab.option_values(cls, o)
        opts = list(lab.combos(o, alts, cap))[c]
        if 'num_nodes' in opts:
            opts = dict(opts, num_nodes=min(2, opts['num_nodes']))
        diff = {a: str(v) for a, v in opts.items() if repr(v) != repr(o.get(a))}
        name = path.rsplit('.', 2)
        name = f'{name[1]}.{name[2]}'
        t0 = time.time()
        try:
            b = lab.Bench(cls, opts)
        except lab.Refused as e:
            run.seen([path, k, c], nontrivial=False, outcome='refused')
            continue
        if b.nx == 0 or b.ny == 0 or b.nx > 130:
            continue
        seen = set()
        for lbl, x in points(b, b.x_from(i), not run.quick):
            if slow and run.quick and lbl not in ('recorded', 'generic') and \
                    int(hashlib.md5(lbl.encode()).hexdigest(), 16) % (16 if b.nx > 30 else 4):
                continue
            try:
                y = b.run(x)
                if not np.all(np.isfinite(y)):
                    run.seen([path, k, c, lbl], nontrivial=False, outcome='not finite')
                    continue
                bad = differences(b, x, y, b.jac(x))
                if bad:
                    jump = {b.label_y(m) for m in np.where(unsteady(b, x))[0]}
                    bad = [t for t in bad if t[0] not in jump]
            except lab.Refused:
                run.seen([path, k, c, lbl], nontrivial=False, outcome='refused')
                continue
            run.seen([path, k, c, lbl], outcome='compared')
            run.state((path, k, c, lbl))
            run.transitions += b.nx
            for of, wrt, j, d, xv in bad:
                if (of, wrt) in seen:
                    continue
                seen.add((of, wrt))
                key = f'{name}: {of.split("[")[0]} wrt {wrt.split("[")[0]}'
                run.violation(
                    key, f'reported derivative {j:.6g}, actual {d:.6g} at {wrt}={xv:.6g}; record {k}, '
                    f'point "{lbl}", options changed {diff}',
                    dict(component=path, record=k, options=opts, point=lbl,
                         inputs={nm: x[b.islice[nm]] for nm in b.in_names},
                         of=of, wrt=wrt, reported=j, actual=d))
        if os.environ.get('VERIF_TIMES') and time.time() - t0 > 3:
            print(f'TIME {time.time() - t0:.0f} {name} {k} {c} nx={b.nx}', flush=True)
