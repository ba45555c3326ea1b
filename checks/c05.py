"""
C05: data table files. Every table shape / value class / units / label / comment combination in bounds is
written and read back; every spelling of an equivalent file in bounds is read; every malformed file in bounds
is refused.
"""
import itertools
import os

import numpy as np

from mc.harness import call, pmap

VALS = [0.0, 1.0, -2.5, 1e-7, 123456789.125, 0.1, -3e10, 1 / 3, 7]
UN = ['unitless', 'ft', 'lbf', 'm/s**2', 'lbm/(hp*h)', 'degR', None]
NAMES = ['alpha', 'alpha_max', 'max', 'aircraft:wing:span', 'mach', 'span', 'x1', 'x']


def mk(ncol, nrow, kind, unit_off, names=NAMES):
    from aviary.utils.named_values import NamedValues

    nv = NamedValues()
    for c in range(ncol):
        v = [VALS[(c * 5 + r * 3 + ncol) % len(VALS)] for r in range(nrow)]
        if kind == 'array':
            v = np.array(v)
        elif kind == 'int':
            v = np.array([int(x) if abs(x) < 1e12 else 3 for x in v])
        elif kind == 'tuple':
            v = tuple(v)
        u = UN[(c + unit_off) % len(UN)]
        if u is None:
            u = 'unitless'
        nv.set_val(names[c], v, u)
    return nv


def snapshot(nv):
    return [(k, np.array(v, float).tolist(), u) for k, (v, u) in nv.items()]


def round_trip(run, items):
    from pathlib import Path

    from aviary.utils.csv_data_file import read_data_file, write_data_file

    for ncol, nrow, kind, uo, outs, comments, stamp, aspath in items:
        key = (f'round trip {ncol}x{nrow} {kind} units+{uo} outputs={outs} comments={comments!r} '
               f'stamp={stamp} path={aspath}')
        if not run.wants(key):
            continue
        nv = mk(ncol, nrow, kind, uo)
        before = snapshot(nv)
        names = NAMES[:ncol]
        outputs = None if outs is None else [n for i, n in enumerate(names) if outs >> i & 1]
        com = list(comments) if isinstance(comments, list) else comments
        fn = os.path.abspath(f't_{os.getpid()}.csv')
        run.seen(key, outcome=f'{kind} {outs is None} {len(comments)}')
        with run.guard(key, key):
            kw = {}
            if outputs is not None:
                kw['outputs'] = list(outputs)
            if comments != []:
                kw['comments'] = com
            if stamp:
                kw['include_timestamp'] = True
            write_data_file(Path(fn) if aspath else fn, nv, **kw)
            if isinstance(comments, list) and com != comments:
                run.violation(key, f'the list of comments passed in was modified: {com}', key)
            if snapshot(nv) != before:
                run.violation(key, 'the data passed in was modified by writing', key)
            d, inp, out, rc = read_data_file(fn, save_comments=True)
            if snapshot(d) != before:
                run.violation(key, f'read back {snapshot(d)}, wrote {before}', key)
            wi = [] if outputs is None else [n for n in names if n not in outputs]
            wo = [] if outputs is None else list(outputs)
            if list(inp) != wi or list(out) != wo:
                run.violation(key, f'labels {inp} {out}, expected {wi} {wo}', key)
            want = [comments] if isinstance(comments, str) else list(comments)
            want = [c.lstrip('#').strip() for c in want]
            got = list(rc)
            if stamp:
                if not got or not got[0].startswith('created'):
                    run.violation(key, f'no time stamp in {got}', key)
                got = got[1:]
            if got != want:
                run.violation(key, f'comments {got}, expected {want}', key)
            r2 = read_data_file(fn)
            if len(r2) != 3 or snapshot(r2[0]) != before:
                run.violation(key, 'reading without comments differs', key)


HEAD = [('Mach', 'unitless', 'input'), ('Net Thrust', 'lbf', 'output'), ('Fuel Flow', 'lbm/h', 'output')]
ROWS = [[0.0, 1200.5, 33.0], [0.4, -10.0, 1e-3], [0.8, 7.0, 0.25]]
ALIAS = {'THR': ['net_thrust', 'Thrust'], 'FF': 'fuel flow', 'M': ['mach', 'Mach Number']}


def spellings(run, items):
    from aviary.utils.csv_data_file import read_data_file

    for sep, style, label, units, case, junk, alias, meta in items:
        key = (f'spelling sep={sep!r} space={style} label={label} units={units} case={case} '
               f'junk={junk} alias={alias} metadata={meta}')
        if not run.wants(key):
            continue
        head = []
        for n, u, lab in HEAD:
            n = {'asis': n, 'lower': n.lower(), 'upper': n.upper(), 'under': n.replace(' ', '_')}[case]
            extra = []
            if units and u != 'unitless':
                extra.append(u)
            if label == 'after':
                extra.append(lab)
            elif label == 'before':
                extra.insert(0, lab)
            if extra:
                n += (' (' if style != 'tight' else '(') + \
                    (', ' if style != 'tight' else ',').join(extra) + ')'
            head.append(n)
        if label == 'before' and units:
            continue  # the label comes after the units
        pad = {'tight': '', 'loose': ' ', 'wide': '   \t '}[style]
        lines = []
        if 'c' in junk:
            lines += ['# first comment', '   # second']
        if 'b' in junk:
            lines += ['', '   ', '\t']
        lines.append((sep + pad).join(head) + (' # on the header' if 'c' in junk else ''))
        for i, r in enumerate(ROWS):
            s = (sep + pad).join(repr(x) for x in r)
            if 't' in junk:
                s += sep
            if 'c' in junk and i == 1:
                s += '  # on a row, with, commas'
            lines.append(pad + s)
            if 'b' in junk:
                lines.append('')
            if 'c' in junk:
                lines.append('# between')
        fn = os.path.abspath(f's_{os.getpid()}.csv')
        eol = '\r\n' if 'r' in junk else '\n'
        with open(fn, 'w', newline='', encoding='utf-8-sig' if 'u' in junk else 'utf-8') as f:
            f.write(eol.join(lines) + ('' if 'e' in junk else eol))
        run.seen(key, outcome=f'{sep} {case} {alias} {meta}')
        al = {k: (v if isinstance(v, str) else list(v)) for k, v in ALIAS.items()} if alias else None
        md = None
        if alias:
            names = ['M', 'THR', 'FF']
        else:
            names = [h.split('(')[0].strip().replace(' ', '_') for h in head]
        keep = list(range(3))
        if meta:
            md = {names[i]: {'units': HEAD[i][1]} for i in range(3) if i != meta - 1}
            keep = [i for i in range(3) if i != meta - 1]
        with run.guard(key, key):
            kw = dict(verbosity=0)
            if al is not None:
                kw['aliases'] = al
            if md is not None:
                kw['metadata'] = md
            d, inp, out, com = read_data_file(fn, save_comments=True, **kw)
            want = []
            for i in keep:
                u = HEAD[i][1] if units or meta else 'unitless'
                want.append((names[i], [r[i] for r in ROWS], u))
            got = [(k, np.asarray(v).tolist(), u) for k, (v, u) in d.items()]
            if got != want:
                run.violation(key, f'read {got}, the file says {want}', key)
            wi = [names[i] for i in keep if label and HEAD[i][2] == 'input']
            wo = [names[i] for i in keep if label and HEAD[i][2] == 'output']
            if [list(inp), list(out)] != [wi, wo]:
                run.violation(key, f'labels {inp} {out}, the file says {wi} {wo}', key)
            wc = []
            if 'c' in junk:
                wc = ['first comment', 'second', 'on the header', 'between',
                      'on a row, with, commas', 'between', 'between']
            if list(com) != wc:
                run.violation(key, f'comments {com}, the file says {wc}', key)
            if al is not None and al != ALIAS:
                run.violation(key, f'the aliases passed in were modified: {al}', key)


def refusals(run):
    from aviary.utils.csv_data_file import read_data_file, write_data_file

    good = 'a (ft), b, c (lbf)\n1, 2, 3\n4, 5, 6\n'
    bad = {
        'text in a row': 'a (ft), b\n1, 2\n3, x\n',
        'text in the first row': 'a (ft), b\n1, zz\n3, 4\n',
        'second header': 'a (ft), b\n1, 2\na, b\n3, 4\n',
        'unknown units': 'a (ftt), b\n1, 2\n',
        'row with too few values': 'a, b, c\n1, 2, 3\n4, 5\n',
        'same variable twice': 'a, a, b\n1, 2, 3\n4, 5, 6\n',
        'no header': '1, 2\n3, 4\n',
    }
    for name, text in dict(good=good, **bad).items():
        for md in (False, True):
            key = f'refuse {name} metadata={md}'
            if not run.wants(key):
                continue
            with open('r.csv', 'w') as f:
                f.write(text)
            m = {'a': {'units': 'ft'}, 'b': {'units': 'unitless'}, 'c': {'units': 'lbf'}}
            st, v = call(read_data_file, os.path.abspath('r.csv'), metadata=m if md else None,
                         verbosity=0)
            run.seen(key, outcome=st)
            if (st == 'ok') != (name == 'good'):
                run.violation(key, f'{"accepted" if st == "ok" else "refused"}: {v!r}', key)
    for u in ('s', 'kg', 'degF', 'ft**2'):
        key = f'refuse units {u} for a length'
        if run.wants(key):
            with open('r.csv', 'w') as f:
                f.write(f'a ({u}), b\n1, 2\n')
            st, v = call(read_data_file, os.path.abspath('r.csv'),
                         metadata={'a': {'units': 'ft'}, 'b': {'units': 'unitless'}}, verbosity=0)
            run.seen(key, outcome=st)
            if st == 'ok':
                run.violation(key, 'incompatible units were accepted', key)
    for two in (('thrust', 'net thrust'), ('Thrust', 'thrust')):
        key = f'refuse two columns for one variable {two}'
        if run.wants(key):
            with open('r.csv', 'w') as f:
                f.write(f'{two[0]}, {two[1]}, mach\n1, 2, 3\n4, 5, 6\n')
            st, v = call(read_data_file, os.path.abspath('r.csv'), verbosity=0,
                         aliases={'T': ['thrust', 'net thrust'], 'M': 'mach'})
            run.seen(key, outcome=st)
            if st == 'ok' and np.asarray(v[0].get_val('M', 'unitless')).tolist() != [3.0, 6.0]:
                run.violation(key, f'another column was returned under the name: {v[0]}', key)
    key = 'refuse writing nothing'
    if run.wants(key):
        st, v = call(write_data_file, os.path.abspath('w.csv'))
        run.seen(key, outcome=st)
        if st == 'ok':
            run.violation(key, 'accepted', key)
    key = 'missing file'
    if run.wants(key):
        st, v = call(read_data_file, os.path.abspath('not_there.csv'))
        run.seen(key, outcome=st)
        if st == 'ok':
            run.violation(key, 'accepted', key)


def main(run):
    q = run.quick
    run.rule = ('case = one table written and read back, one spelling of a file read, or one '
                'malformed file; all combinations of the listed features')
    comments = [[], ['one comment'], ['# marked', 'plain, with comma', 'x # y'], 'single string']
    items = [(c, r, k, uo, o, cm, st, pa)
             for c in ((1, 2, 3, 5) if q else range(1, 8)) for r in ((1, 2, 4) if q else (1, 2, 3, 9))
             for k in ('array', 'list', 'tuple', 'int') for uo in range(len(UN))
             for o in ((None, *range(2 ** c)) if c < 4 or not q else (None, 0, 1, 2, 5, 7)) for cm in comments
             for st in (False, True) for pa in ((False,) if q else (False, True))]
    pmap(run, round_trip, items)
    junks = [''.join(j) for n in range(4 if q else 7) for j in itertools.combinations('cbtrue', n)]
    items = [(s, st, lab, u, ca, j, al, m)
             for s in (',', ';') for st in ('tight', 'loose', 'wide')
             for lab in (None, 'after', 'before') for u in (False, True)
             for ca in ('asis', 'lower', 'upper', 'under') for j in junks
             for al in (False, True) for m in (0, 1, 2, 3)]
    if q:
        items = [x for i, x in enumerate(items) if x[5] in ('', 'c', 'cbt', 'bt', 'r', 'u', 'e')]
    pmap(run, spellings, items)
    refusals(run)
