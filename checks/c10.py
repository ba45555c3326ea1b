"""C10: values at a point of the trajectory depend on the quantities at that point only."""
import itertools

import numpy as np

from mc import lab
from mc.harness import pmap

# results along the whole phase, by design
ALONG = ('SimpleCruise', 'DistanceComp', 'E2ECruise', 'PolynomialFit', 'RangeComp')
# time increases along a phase
TIME = ('t_curr', 'time')
SLOW = ('SkinFriction', 'HamiltonStandard', 'AeroGeom', 'MuxComponent', 'CompressibilityDrag')


class Sized:
    """A component built for 1, 2 and 3 nodes; which inputs and outputs have one entry per node."""

    def __init__(self, cls, opts):
        self.b = {n: lab.Bench(cls, dict(opts, num_nodes=n)) for n in (1, 2, 3)}
        self.ins = {nm: self.axis(nm, 'in_shape') for nm in self.b[1].in_names}
        self.outs = {nm: self.axis(nm, 'out_shape') for nm in self.b[1].out_names}

    def axis(self, nm, kind):
        """Axis along which the nodes lie, None without one."""
        s = [getattr(self.b[n], kind).get(nm) for n in (1, 2, 3)]
        if any(x is None or len(x) != len(s[0]) for x in s):
            return 'odd'
        ax = [k for k in range(len(s[0])) if s[1][k] != s[2][k]]
        if not ax:
            return None if s[0] == s[1] else 'odd'
        return ax[0] if len(ax) == 1 and [x[ax[0]] for x in s] == [1, 2, 3] else 'odd'

    def x(self, n, shared, nodes):
        """Flat inputs for these nodes (each a dictionary input -> values at that node)."""
        b = self.b[n]
        x = np.zeros(b.nx)
        for nm, ax in self.ins.items():
            v = shared[nm] if ax is None else np.concatenate([d[nm] for d in nodes], axis=ax)
            x[b.islice[nm]] = np.ravel(v)
        return x

    def y(self, n, y):
        """Per node: dictionary output -> flat values."""
        b = self.b[n]
        out = []
        for k in range(n):
            out.append({nm: np.ravel(np.take(y[b.oslice[nm]].reshape(b.out_shape[nm]), k, axis=ax))
                        for nm, ax in self.outs.items() if ax is not None})
        return out


def node_values(s, ins, quick):
    """Shared values and single-node values: recorded ones, then each nodal input varied alone."""
    b = s.b[1]
    shared, rows = {}, {}
    for nm, ax in s.ins.items():
        shape = b.in_shape[nm]
        sl = b.islice[nm]
        default = b.x_from(ins)[sl].reshape(shape)
        if ax is None:
            shared[nm] = default
            continue
        rows[nm] = [default]
        if nm in ins:
            v, u = ins[nm]
            k = int(np.prod(shape))
            if v.size % k == 0 and v.size // k >= 2 and v.ndim == len(shape) and \
                    v.shape[ax] == v.size // k:
                if u != b.in_units[nm] and u and b.in_units[nm]:
                    v = lab.om.convert_units(v, u, b.in_units[nm])
                m = v.shape[ax]
                rows[nm] = [np.take(v, [j], axis=ax) for j in (0, m // 2, m - 1)]
    if not rows:
        return shared, []
    out = []
    for j in range(3):
        out.append({nm: r[min(j, len(r) - 1)] for nm, r in rows.items()})
    base = out[0]
    for nm in rows:
        for f in (0.5, 2.0) if quick else (0.0, 0.3, 0.5, 0.9, 1.2, 2.0, -1.0):
            out.append(dict(base, **{nm: np.where(base[nm] != 0, base[nm] * f, f)}))
    uniq = []
    for d in out:
        if not any(all(np.array_equal(d[k], e[k]) for k in d) for e in uniq):
            uniq.append(d)
    return shared, uniq


def cases(quick):
    out = []
    for path, recs in sorted(lab.records().items()):
        if any(w in path for w in ALONG):
            continue
        cls = lab.find_class(path)
        if cls is None:
            continue
        slow = any(w in path for w in SLOW)
        for k in range(len(recs))[: (2 if slow else 8) if quick else 12]:
            if 'num_nodes' not in recs[k][0]:
                continue
            alts = lab.option_values(cls, recs[k][0])
            alts.pop('$engines', None)
            cap = (3 if slow else 24) if quick else (6 if slow else 60)
            for c, _ in enumerate(lab.combos(recs[k][0], alts, cap)):
                out.append((path, k, c, cap, slow))
    return sorted(out, key=lambda t: not t[4])


def check(run, chunk):
    for path, k, c, cap, slow in chunk:
        cls = lab.find_class(path)
        o, i = lab.records()[path][k]
        alts = lab.option_values(cls, o)
        alts.pop('$engines', None)
        opts = list(lab.combos(o, alts, cap))[c]
        diff = {a: str(v) for a, v in opts.items() if repr(v) != repr(o.get(a))}
        name = '.'.join(path.rsplit('.', 2)[1:])
        try:
            s = Sized(cls, opts)
        except lab.Refused:
            run.seen([path, k, c], nontrivial=False, outcome='refused')
            continue
        if 'odd' in list(s.ins.values()) + list(s.outs.values()):
            run.seen([path, k, c], nontrivial=False, outcome='not one entry per node')
            continue
        if not any(ax is not None for ax in s.outs.values()):
            continue
        shared, vals = node_values(s, i, run.quick)
        if slow and run.quick:
            vals = vals[:6]
        single = []
        for d in vals:
            try:
                y = s.b[1].run(s.x(1, shared, [d]))
            except lab.Refused:
                y = None
            single.append(None if y is None or not np.all(np.isfinite(y)) else s.y(1, y)[0])
        good = [j for j in range(len(vals)) if single[j] is not None]
        seqs = [(a, b) for a, b in itertools.product(good, good)
                if a < 4 or b < 4 or not run.quick]
        seqs += [t for t in itertools.product(good[:5], repeat=3)]
        scale = {nm: max((float(np.max(np.abs(single[j][nm]))) for j in good), default=0.0)
                 for nm, ax in s.outs.items() if ax is not None}
        implicit = isinstance(s.b[1].comp, lab.om.ImplicitComponent)
        tol = 1e-6 if implicit else 1e-9
        bad = set()
        for seq in seqs:
            n = len(seq)
            if any(np.any(vals[p][t] > vals[q][t]) for p, q in zip(seq, seq[1:])
                   for t in TIME if s.ins.get(t) is not None):
                continue
            try:
                y = s.y(n, s.b[n].run(s.x(n, shared, [vals[j] for j in seq])))
            except lab.Refused:
                if not implicit:
                    run.violation(f'{name}: refused together',
                                  f'nodes are computed one by one, but refused together; record {k}, '
                                  f'options changed {diff}', dict(component=path, options=opts))
                continue
            run.seen([path, k, c, seq], outcome='compared')
            run.state((path, k, c, seq))
            run.transitions += n
            for pos, j in enumerate(seq):
                for nm, v in single[j].items():
                    got = y[pos][nm]
                    if nm in bad or np.all(np.abs(got - v) <= tol * np.abs(v) + 1e-12 * scale[nm]):
                        continue
                    bad.add(nm)
                    run.violation(
                        f'{name}: {nm}',
                        f'{got} at node {pos + 1} of {n}, {v} when computed alone; record {k}, '
                        f'options changed {diff}',
                        dict(component=path, record=k, options=opts, output=nm, node=pos,
                             nodes=[vals[q] for q in seq], shared=shared, got=got, alone=v))


def main(run):
    run.rule = ('one case = component x option combination x sequence of node values; every output at '
                'every node compared with the single-node evaluation')
    pmap(run, check, cases(run.quick), chunk=2)
