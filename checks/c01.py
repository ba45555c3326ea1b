"""
C01: the named-value collections are ordered dictionaries with units.

Exhaustive exploration of every operation sequence up to a depth on the real classes (NamedValues,
AviaryValues), compared after every step with a plain-dict reference model; two slots, so that
copies and deep copies can be shown independent. Then every (value shape x unit pair) read.
"""
import copy
import itertools

import numpy as np

from mc.harness import call, close, pmap

SPAN = 'aircraft:wing:span'  # float, ft
NPAX = 'aircraft:crew_and_payload:num_passengers'  # int, unitless
NAME = 'foo'  # not in any metadata


# ----------------------------------------------------------------- reference model
class Rejected(Exception):
    pass


class Model:
    """dict name -> [value, units]; nothing else."""

    def __init__(self, checked):
        self.d = {}
        self.checked = checked

    def set(self, k, v, u):
        if not isinstance(u, str):
            raise Rejected
        if self.checked and k == SPAN:
            if u not in ('ft', 'm', 'inch'):
                raise Rejected
            if not isinstance(v, (int, float)):
                raise Rejected
            v = float(v)
        if self.checked and k == NPAX:
            if u != 'unitless' or not isinstance(v, int) or isinstance(v, bool):
                raise Rejected
        self.d[k] = (v, u)

    def delete(self, k):
        if k not in self.d:
            raise Rejected
        del self.d[k]

    def observe(self):
        return list(self.d.items())


# operations: (label, on_model(slots), on_impl(slots)); slot 0 is primary, slot 1 the other one
def ops(cls, checked, deep):
    out = []

    def add(label, m, i):
        out.append((label, m, i))

    sets = [
        (SPAN, 10.0, 'ft'),
        (SPAN, 2, 'm'),
        (SPAN, 5.0, 'lbm') if checked else (SPAN, 5.0, 'inch'),  # incompatible when checked
        (NPAX, 7, 'unitless'),
        (NPAX, 'many', 'unitless') if checked else (NPAX, 'many', 'unitless'),
        (NAME, [1, 2], 'ft'),
        (NAME, 3.0, None),  # units None: always rejected
    ]
    if deep:
        sets += [(NAME, 3.0, 'm'), (SPAN, 'abc', 'ft')]
    for s in (0, 1):
        for k, v, u in sets if s == 0 else sets[:2] + sets[5:6]:
            add(
                f'set{s}({k},{v!r},{u})',
                lambda S, s=s, k=k, v=v, u=u: S[s].set(k, copy.deepcopy(v), u),
                lambda S, s=s, k=k, v=v, u=u: S[s].set_val(k, copy.deepcopy(v), u),
            )
    for s, k in ((0, SPAN), (0, NAME), (1, SPAN), (1, NAME)):
        add(
            f'del{s}({k})',
            lambda S, s=s, k=k: S[s].delete(k),
            lambda S, s=s, k=k: S[s].delete(k),
        )
    for s in (0, 1):
        add(f'clear{s}', lambda S, s=s: S[s].d.clear(), lambda S, s=s: S[s].clear())

    # B = A.copy() / A.deepcopy() / cls(A); A.update(B); update from dict / list / kwargs
    def m_copy(S):
        n = Model(checked)
        n.d = dict(S[0].d)
        S[1] = n

    def m_deep(S):
        n = Model(checked)
        n.d = copy.deepcopy(S[0].d)
        S[1] = n

    add('B=A.copy()', m_copy, lambda S: S.__setitem__(1, S[0].copy()))
    add('B=A.deepcopy()', m_deep, lambda S: S.__setitem__(1, S[0].deepcopy()))
    add('B=cls(A)', m_copy, lambda S: S.__setitem__(1, cls(S[0])))

    def m_update(S):
        for k, (v, u) in list(S[1].d.items()):
            S[0].set(k, v, u)

    add('A.update(B)', m_update, lambda S: S[0].update(S[1]))

    def m_upd(items):
        def f(S):
            for k, (v, u) in items:
                S[0].set(k, v, u)

        return f

    its = [(SPAN, (4.0, 'ft')), (NAME, ('x', 'unitless'))]
    add('A.update(dict)', m_upd(its), lambda S: S[0].update(dict(its)))
    if deep:
        add('A.update(list)', m_upd(its), lambda S: S[0].update(list(its)))
        add('A.update(None,foo=)', m_upd([(NAME, (9, 'ft'))]),
            lambda S: S[0].update(foo=(9, 'ft')))
        add('A.update({},foo=)', m_upd([(NAME, (9, 'ft'))]),
            lambda S: S[0].update({}, foo=(9, 'ft')))

    # in-place change of a stored list in B (shows whether a deep copy really is deep)
    def mut(getter):
        def f(S):
            d = getter(S[1])
            if NAME in d and isinstance(d[NAME][0], list):
                d[NAME][0][0] += 100

        return f

    add('B[foo][0]+=100', mut(lambda b: b.d), mut(lambda b: dict(b.items())))
    return out


def check_state(run, key, trace, M, I, cls):
    """Compare every observable of both collections with the model."""
    for s in (0, 1):
        m, i = M[s], I[s]
        mo = m.observe()
        io = [(k, v) for k, v in i]

        def bad(what):
            run.violation(key, f'{what} differs from an ordered dictionary in slot {"AB"[s]} '
                               f'after {trace}', trace)

        if repr(io) != repr(mo):
            bad(f'content {io} (expected {mo})')
            return False
        if len(i) != len(mo) or list(i.keys()) != [k for k, _ in mo]:
            bad('len/keys')
        if list(i.values()) != [v for _, v in mo] or list(i.items()) != mo:
            bad('values/items')
        for k in (SPAN, NPAX, NAME, 'absent'):
            if (k in i) != (k in m.d):
                bad('membership')
            st, v = call(i.get_item, k)
            if k in m.d:
                if st != 'ok' or repr(tuple(v)) != repr(m.d[k]):
                    bad('get_item')
                st, v = call(i.get_val, k, m.d[k][1])
                if st != 'ok' or repr(v) != repr(m.d[k][0]):
                    bad('get_val in stored units')
            else:
                if st != 'err' or not isinstance(v, KeyError):
                    bad('get_item of absent name')
                st, v = call(i.get_val, k, 'unitless')
                if st != 'err' or not isinstance(v, KeyError):
                    bad('get_val of absent name')
    if (I[0] == I[1]) != (M[0].d == M[1].d) or (I[0] == dict(M[0].d)) is not True:
        run.violation(key, f'equality differs from a dictionary after {trace}', trace)
    if (I[0] != I[1]) == (M[0].d == M[1].d):
        run.violation(key, f'inequality differs from a dictionary after {trace}', trace)
    return True


def run_traces(run, prefixes):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.named_values import NamedValues

    for clsname, depth, deep, prefix in prefixes:
        cls = AviaryValues if clsname == 'AviaryValues' else NamedValues
        checked = cls is AviaryValues
        O = ops(cls, checked, deep)
        for tail in itertools.product(range(len(O)), repeat=depth - len(prefix)):
            seq = prefix + tail
            trace = [O[n][0] for n in seq]
            key = f'{clsname}:' + ' ; '.join(trace)
            if not run.wants(key):
                continue
            M = [Model(checked), Model(checked)]
            I = [cls(), cls()]
            run.traces += 1
            nrej = 0
            good = True
            for n in seq:
                label, mf, rf = O[n]
                run.transitions += 1
                try:
                    mf(M)
                    exp = 'ok'
                except Rejected:
                    exp = 'err'
                    nrej += 1
                st, e = call(rf, I)
                if st != exp:
                    run.violation(
                        key, f'{label} should be {"accepted" if exp == "ok" else "rejected"}, '
                             f'outcome {st} {e!r} in {trace}', trace)
                    good = False
                    break
            run.evaluations += 1
            if good:
                # shorter prefixes are sequences of their own (all depths are enumerated)
                check_state(run, key, trace, M, I, cls)
            run.state((clsname, repr(M[0].d), repr(M[1].d)))
            run.outcomes[f'rejected={nrej}'] = run.outcomes.get(f'rejected={nrej}', 0) + 1
            if len(run.samples) < 2 and len(seq) > 2:
                run.samples.append(trace)


# ----------------------------------------------------------------- unit conversion on read
# factor, offset to the SI unit, from the definitions of the units
UNITS = {
    'length': {'ft': (0.3048, 0), 'm': (1, 0), 'inch': (0.0254, 0), 'nmi': (1852.0, 0),
               'km': (1000.0, 0), 'mi': (1609.344, 0)},
    'mass': {'lbm': (0.45359237, 0), 'kg': (1, 0), 'g': (1e-3, 0)},
    'temp': {'degK': (1, 0), 'degC': (1, 273.15), 'degR': (5 / 9, 0), 'degF': (5 / 9, 459.67)},
    'speed': {'m/s': (1, 0), 'ft/s': (0.3048, 0), 'kn': (1852.0 / 3600, 0),
              'ft/min': (0.3048 / 60, 0)},
    'time': {'s': (1, 0), 'min': (60, 0), 'h': (3600, 0)},
    'force': {'N': (1, 0), 'lbf': (4.4482216152605, 0)},
    'angle': {'rad': (1, 0), 'deg': (np.pi / 180, 0)},
    'area': {'ft**2': (0.3048**2, 0), 'm**2': (1, 0)},
    'none': {'unitless': (1, 0)},
}


def conv(x, a, b):
    # value_si = (x + offset) * factor
    fa, oa = a
    fb, ob = b
    if oa == 273.15:
        si = x + oa
    else:
        si = (x + oa) * fa
    if ob == 273.15:
        return si - ob
    return si / fb - ob


VALUES = {
    'int': 3, 'zero': 0, 'float': 2.5, 'neg': -7.25, 'list_int': [1, 2, 3], 'list_float': [1.5, 2.0],
    'list1': [4], 'list_empty': [], 'tuple_int': (1, 2), 'tuple_float': (0.5, -1.0),
    'arr_int': np.array([1, 2, 3]), 'arr_int1': np.array([1]), 'arr_float': np.array([1.5, 2.25]),
    'arr_2d_int': np.array([[1, 2], [3, 4]]), 'arr_2d_float': np.array([[1.0, 2.5]]),
    'list_none': [1.0, None, 3.0], 'tuple_none': (None, 2.0), 'none': None,
    'np_float': np.float64(1.25), 'np_int': np.int64(2), 'arr_0d': np.array(2.0),
    'arr_f32': np.array([1.5, 2.5], dtype=np.float32), 'arr_bool_like': np.array([0, 1]),
}


def expect(v, a, b):
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        return type(v)(None if x is None else conv(x, a, b) for x in v)
    if isinstance(v, np.ndarray):
        return conv(v.astype(float), a, b)
    return conv(float(v), a, b)


def same(got, exp):
    if exp is None:
        return got is None
    if isinstance(exp, (list, tuple)):
        return type(got) is type(exp) and len(got) == len(exp) and all(
            (g is None) if e is None else (g is not None and close(g, e, 1e-6, 1e-9))
            for g, e in zip(got, exp))
    if isinstance(exp, np.ndarray) and exp.ndim:
        return isinstance(got, np.ndarray) and close(got, exp, 1e-6, 1e-9)
    return not isinstance(got, (list, tuple)) and close(got, exp, 1e-6, 1e-9)


def spoil(x):
    """Change a list or array in place."""
    if isinstance(x, list) and x:
        x[0] = -999.0
        return True
    if isinstance(x, np.ndarray) and x.ndim and x.size and x.flags.writeable:
        x[...] = -999.0
        return True
    return False


def reads(run):
    from aviary.utils.aviary_values import AviaryValues
    from aviary.utils.named_values import NamedValues

    for cls in (NamedValues, AviaryValues):
        for q, units in UNITS.items():
            for (u1, a), (u2, b) in itertools.product(units.items(), repeat=2):
                for vn, v in VALUES.items():
                    key = f'read:{cls.__name__}:{vn}:{u1}->{u2}'
                    if not run.wants(key):
                        continue
                    run.seen([cls.__name__, vn, v, u1, u2], nontrivial=u1 != u2, outcome='read')
                    run.transitions += 1
                    run.traces += 1
                    c = cls()
                    c.set_val('foo', copy.deepcopy(v), u1)
                    st, got = call(c.get_val, 'foo', u2)
                    exp = v if u1 == u2 else expect(v, a, b)
                    if st != 'ok' or not same(got, exp):
                        run.violation(key, f'{v!r} {u1} read in {u2} gives {got!r}, expected {exp!r}')
                        continue
                    st, it = call(c.get_item, 'foo')
                    if st != 'ok' or repr(it) != repr((v, u1)):
                        run.violation(key, f'reading in {u2} changed the stored value to {it!r}')
                        continue
                    # what the caller does with a converted result changes neither the store, nor later
                    # reads, nor copies of the collection
                    if u1 != u2 and spoil(got):
                        for what, d in (('the collection', c), ('a copy', c.copy()), ('a deep copy', c.deepcopy())):
                            st, again = call(d.get_val, 'foo', u2)
                            if st != 'ok' or not same(again, exp):
                                run.violation(key, f'{v!r} {u1} read in {u2}, result modified by the caller: {what} '
                                                   f'then reads {again!r}, expected {exp!r}')
                                break
                            spoil(again)
                    # a copy given another value reads that one, in any units, and the original its own
                    for other in ('copy', 'deepcopy'):
                        d = getattr(c, other)()
                        d.set_val('foo', 8.5, u1)
                        st, x = call(d.get_val, 'foo', u2)
                        st2, y = call(c.get_val, 'foo', u2)
                        if st != 'ok' or not same(x, 8.5 if u1 == u2 else conv(8.5, a, b)) or st2 != 'ok' or not same(y, exp):
                            run.violation(key, f'{v!r} {u1}: a {other} given 8.5 {u1} reads {x!r} {u2}, the original {y!r}')
                    # new units for the same value
                    c.set_val('foo', copy.deepcopy(v), u2)
                    st, x = call(c.get_val, 'foo', u2)
                    if st != 'ok' or not same(x, v):
                        run.violation(key, f'{v!r} stored in {u1}, read in {u2}, stored anew in {u2} reads {x!r}')
    # reads in incompatible or malformed units are rejected and change nothing
    for cls in (NamedValues, AviaryValues):
        for vn, v in VALUES.items():
            if vn in ('none', 'list_empty'):
                continue
            for u2 in ('lbm', None, 5, 'notaunit'):
                key = f'badread:{cls.__name__}:{vn}:{u2!r}'
                if not run.wants(key):
                    continue
                run.seen([cls.__name__, vn, u2], outcome='badread')
                run.transitions += 1
                c = cls()
                c.set_val('foo', copy.deepcopy(v), 'ft')
                st, got = call(c.get_val, 'foo', u2)
                if st != 'err':
                    run.violation(key, f'{v!r} ft read in {u2!r} was not rejected: {got!r}')
                if repr(c.get_item('foo')) != repr((v, 'ft')):
                    run.violation(key, 'a rejected read changed the stored value')


def main(run):
    run.level = 'model_checking'
    run.rule = (
        'every sequence of collection operations up to the stated depth over two collections, '
        'run on the real class and on a plain dictionary; plus every value shape x unit pair read'
    )
    maxd = 3 if run.quick else 4
    items = []
    for cls in ('NamedValues', 'AviaryValues'):
        n = len(ops(None, cls == 'AviaryValues', True))
        for d in range(1, 4):
            if d == 1:
                items.append((cls, 1, True, ()))
            else:
                items += [(cls, d, True, (i,)) for i in range(n)]
        if maxd == 4:
            n = len(ops(None, cls == 'AviaryValues', False))
            items += [(cls, 4, False, (i, j)) for i in range(n) for j in range(n)]
    run.extra['max_depth'] = maxd
    pmap(run, run_traces, items, chunk=max(1, len(items) // 64))
    reads(run)
    # None values passed to a checked collection etc. are C02's subject
