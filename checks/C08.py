"""
The correlation database behaves like a map from (tag, pair, window) to traces
after every history of additions and removals.
"""
import fnmatch
import itertools
import os
import warnings

import numpy as np

from mc import build as B
from mc.core import Result
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'closure of the reachable states of a database file under all additions '
    '(two versions of each entry, whole streams), removals (exact, by '
    'wildcard, of whole pairs, in reversed order, of absent entries) and '
    'reopening, over universes of entries whose codes are prefixes of each '
    'other; state = groups, headers, and data in the file. In every state all '
    'queries of a product of exact, reversed, and wildcard requests are '
    'compared with a dictionary. Non-trivial: more than 20 states.')
ASSUMPTIONS = ['the behaviour of a file depends on its logical content only',
               'a missing entry may be reported as KeyError or empty result']
CO = {'subdir': 'corr', 'read_start': '2015-01-01', 'sampling_rate': 2,
      'preProcessing': [], 'subdivision': {'corr_len': 10, 'corr_inc': 10},
      'corr_args': {'lengthToSave': 1}}

S = 'subdivision'
UNIV = [
    # windows
    [(S, 'A-A', '1-10', 'HHZ-HHZ', 0, 10), (S, 'A-A', '1-10', 'HHZ-HHZ', 0, 20),
     (S, 'A-A', '1-10', 'HHZ-HHZ', 86400, 86410),
     (S, 'A-A', '1-10', 'HHZ-HHZ', 10, 20)],
    # channels
    [(S, 'A-A', '1-10', 'HH-HH', 0, 10), (S, 'A-A', '1-10', 'HHE-HHZ', 0, 10),
     (S, 'A-A', '1-10', 'HHZ-HHE', 0, 10),
     (S, 'A-A', '1-10', 'HHZ-HHZ', 0, 10)],
    # stations
    [(S, 'A-A', '1-1', 'HHZ-HHZ', 0, 10), (S, 'A-A', '1-10', 'HHZ-HHZ', 0, 10),
     (S, 'A-A', '1-100', 'HHZ-HHZ', 0, 10),
     (S, 'A-A', '10-10', 'HHZ-HHZ', 0, 10)],
    # networks
    [(S, 'A-A', '1-1', 'HHZ-HHZ', 0, 10), (S, 'A-AB', '1-1', 'HHZ-HHZ', 0, 10),
     (S, 'A-B', '10-1', 'HHZ-HHE', 0, 10),
     (S, 'AB-AB', '1-1', 'HHZ-HHZ', 0, 10)],
    # tags
    [(S, 'A-A', '1-1', 'HHZ-HHZ', 0, 10),
     ('stack_1', 'A-A', '1-1', 'HHZ-HHZ', 0, 10),
     ('stack_10', 'A-A', '1-1', 'HHZ-HHZ', 0, 10),
     ('recombined', 'A-A', '1-1', 'HHZ-HHZ', 0, 10)],
    # mixture
    [(S, 'A-A', '1-1', 'HHE-HHZ', 0, 10),
     ('stack_1', 'A-A', '1-1', 'HHE-HHZ', 0, 10),
     (S, 'A-A', '1-1', 'HHE-HHN', 0, 10), (S, 'A-A', '1-2', 'HHZ-HHE', 0, 10),
     ],
]


def cases(tier):
    out = [dict(u=u, ver=2 if i == 0 or tier == 'thorough' else 1)
           for i, u in enumerate(UNIV)]
    if tier == 'thorough':
        # all universes of five entries out of a larger alphabet
        alpha = sorted({e for u in UNIV for e in u})
        for u in itertools.combinations(alpha, 5):
            if len({x[:4] for x in u}) >= 4:
                out.append(dict(u=u, ver=1))
    else:
        alpha = sorted({e for u in UNIV for e in u})
        for u in itertools.combinations(alpha[::4], 4):
            if len({x[:4] for x in u}) >= 4:
                out.append(dict(u=u, ver=1))
    return out


def mk(e, ver):
    from obspy.core import Stats
    from seismic.correlate.stream import CorrTrace
    tag, n, s, c, t0, t1 = e
    k = hash_(e) + 1000*ver
    x = np.random.RandomState(k % 2**31).randn(7)
    st = Stats(dict(network=n, station=s, channel=c, location='-',
                    sampling_rate=2.))
    tr = CorrTrace(x, _header=st)
    st = tr.stats
    st['corr_start'] = B.utc(t0)
    st['corr_end'] = B.utc(t1)
    st['start_lag'] = -1.5
    st['dist'] = float(k % 100)
    return tr


def hash_(e):
    import zlib
    return zlib.crc32(repr(list(e)).encode()) % 10**6


def dump(fn):
    import h5py
    out = []
    with h5py.File(fn, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                out.append((name, obj[()].tobytes(), tuple(sorted(
                    (k, str(v)) for k, v in obj.attrs.items()))))
            else:
                out.append((name,))
        f.visititems(visit)
    return tuple(sorted(out))


def flip(code):
    return '-'.join(code.split('-')[::-1])


def exact(code):
    return '*' not in code and '?' not in code and '[' not in code


def q_match(e, tag, n, s, c, t0, t1):
    """does the entry satisfy the request"""
    if not fnmatch.fnmatchcase(e[0], tag):
        return False
    if t0 is not None and e[4] != t0 or t1 is not None and e[5] != t1:
        return False
    return all(fnmatch.fnmatchcase(a, b)
               for a, b in zip(e[1:4], (n, s, c)))


def ordered(n, s, c):
    """the canonical order, if the request determines it"""
    for code in (n, s, c):
        p = code.split('-')
        if len(p) != 2 or not exact(code):
            return n, s, c
        if p[0] != p[1]:
            if p[0] > p[1]:
                return flip(n), flip(s), flip(c)
            return n, s, c
    return n, s, c


def queries(u):
    ns = sorted({e[1] for e in u})
    ss = sorted({e[2] for e in u})
    cs = sorted({e[3] for e in u})
    ts = sorted({e[0] for e in u})
    qn = ns + [flip(x) for x in ns if x != flip(x)] + ['*', 'A-*', 'A?-*']
    qs = ss + [flip(x) for x in ss if x != flip(x)] + ['*', '1-*', '1-1?',
                                                      '?-*']
    qc = cs + [flip(x) for x in cs if x != flip(x)] + ['*', '*-HHZ', 'HH?-HHZ',
                                                      'HHZ-*']
    qt = ts + (['*', 'stack_?', 'stack_*'] if len(ts) > 1 else ['*'])
    times = sorted({(e[4], e[5]) for e in u})
    qq = [(None, None)] + times + [(times[0][0], None), (None, times[0][1])]
    if len(times) == 1:
        qq = [(None, None), times[0], (times[0][0], None)]
    seen = set()
    for t, n, s, c, (a, b) in itertools.product(qt, qn, qs, qc, qq):
        w = sum(not exact(x) for x in (t, n, s, c))
        r = sum(exact(x) and x not in y
                for x, y in ((n, ns), (s, ss), (c, cs)))
        # reversed requests only all together
        if r and (flip(n), flip(s), flip(c)) != ordered(n, s, c):
            continue
        if w > 2 and not (w == 4 or (n, s, c) == ('*',)*3):
            continue
        if w and (a is None) != (b is None) and w > 1:
            continue
        seen.add((t, n, s, c, a, b))
    return sorted(seen, key=repr)


def fiss(t):
    return B.utc(t).format_fissures()


def ops(u, ver):
    out = []
    for i in range(len(u)):
        for v in range(ver):
            out.append(('add', i, v))
        out.append(('rm', i))
        out.append(('rmrev', i))
    for k in sorted({tuple(e[:4]) for e in u}):
        out.append(('rmpair', k))
        out.append(('rmday', k))
    # patterns that end with a single character
    k = tuple(u[0][:4])
    t = min(e[4] for e in u if tuple(e[:4]) == k)
    out.append(('rmpat', k, fiss(t)[:-1] + '?'))
    out.append(('addall', 0))
    out.append(('addsome', list(range(0, len(u), 2))))
    out.append(('open',))
    out.append(('rmmissing',))
    return out


def apply_model(m, op, u):
    m = dict(m)
    if op[0] == 'add':
        m.setdefault(op[1], op[2])
    elif op[0] == 'addall':
        for i in range(len(u)):
            m.setdefault(i, 0)
    elif op[0] == 'addsome':
        for i in op[1]:
            m.setdefault(i, 0)
    elif op[0] in ('rm', 'rmrev'):
        # a start time identifies all windows that begin there
        m = {i: v for i, v in m.items() if u[i][:5] != u[op[1]][:5]}
    elif op[0] == 'rmpair':
        m = {i: v for i, v in m.items() if tuple(u[i][:4]) != op[1]}
    elif op[0] == 'rmday':
        m = {i: v for i, v in m.items()
             if tuple(u[i][:4]) != op[1] or u[i][4] >= 86400}
    elif op[0] == 'rmpat':
        m = {i: v for i, v in m.items() if tuple(u[i][:4]) != op[1]
             or not fnmatch.fnmatchcase(fiss(u[i][4]), op[2])}
    return m


def apply_real(db, op, u):
    from seismic.correlate.stream import CorrStream
    if op[0] == 'add':
        db.add_correlation(mk(u[op[1]], op[2]), u[op[1]][0])
    elif op[0] in ('addall', 'addsome'):
        idx = range(len(u)) if op[0] == 'addall' else op[1]
        for tag in sorted({u[i][0] for i in idx}):
            db.add_correlation(CorrStream(
                [mk(u[i], 0) for i in idx if u[i][0] == tag]), tag)
    elif op[0] in ('rm', 'rmrev'):
        tag, n, s, c, t, _ = u[op[1]]
        if op[0] == 'rmrev':
            n, s, c = flip(n), flip(s), flip(c)
        db.remove_data(n, s, c, tag, B.utc(t))
    elif op[0] == 'rmpair':
        tag, n, s, c = op[1]
        db.remove_data(n, s, c, tag, '*')
    elif op[0] == 'rmday':
        tag, n, s, c = op[1]
        try:
            db.remove_data(n, s, c, tag, '2015001T*')
        except KeyError:
            pass   # nothing stored
    elif op[0] == 'rmpat':
        tag, n, s, c = op[1]
        try:
            db.remove_data(n, s, c, tag, op[2])
        except KeyError:
            pass   # nothing stored
    elif op[0] == 'rmmissing':
        db.remove_data('A-Z', '1-1', 'HHZ-HHZ', 'subdivision', B.utc(5))
        try:
            db.remove_data('A-Z', '1-1', 'HHZ-HHZ', 'subdivision', '2015*')
        except KeyError:
            pass
        # a pattern has to match the whole time
        for tag, n, s, c in sorted({tuple(e[:4]) for e in u}):
            try:
                db.remove_data(n, s, c, tag, fiss(u[0][4])[:5] + '?1')
            except KeyError:
                pass


_MK = {}


def ref(e, v):
    if (e, v) not in _MK:
        _MK[(e, v)] = mk(e, v)
    return _MK[(e, v)]


def same(tr, ref):
    s, r = tr.stats, ref.stats
    return tr.data.shape == ref.data.shape and \
        np.array_equal(tr.data, ref.data) and all(
            s[k] == r[k] for k in (
                'network', 'station', 'channel', 'corr_start', 'corr_end',
                'dist', 'start_lag', 'sampling_rate', 'npts'))


def check_state(res, db, m, u, qs, hist):
    for q in qs:
        tag, n, s, c, a, b = q
        on, os_, oc = ordered(n, s, c)
        want = sorted((i for i in m if q_match(
            u[i], tag, on, os_, oc, a, b)),
            key=lambda i: (tuple(u[i][:4]), u[i][4], u[i][5]))
        try:
            st = db.get_data(
                n, s, c, tag, None if a is None else B.utc(a),
                None if b is None else B.utc(b))
        except KeyError:
            st = []
        got = []
        for tr in st:
            for i in m:
                if i not in got and same(tr, ref(u[i], m[i])):
                    got.append(i)
                    break
            else:
                got.append(f'unknown {tr.id} {tr.stats.corr_start}')
        res.add('queries')
        if sorted(map(str, got)) != sorted(map(str, want)):
            res.fail('get_data', f'after {hist}: request {q} returned '
                     f'{got}, expected {want} of {u}')
    for k in sorted({tuple(e[:3]) for e in u} | {(S, 'A-Z', '1-1')}):
        tag, n, s = k
        here = [u[i] for i in m if tuple(u[i][:3]) == k]
        chans = db.get_available_channels(tag, n, s)
        ever = {e[3] for e in u if tuple(e[:3]) == k}
        if not {e[3] for e in here} <= set(chans) <= ever or \
                len(set(chans)) != len(chans):
            res.fail('channels', f'after {hist}: {k} {chans} {here}')
        for ch in ['*', 'HHZ-*', '*-HHZ'] + sorted(ever) + [
                sorted(ever), ['HHE*', 'HHZ*']]:
            d = db.get_available_starttimes(n, s, tag, ch)
            pat = [ch] if isinstance(ch, str) else ch
            want = {}
            for e in here:
                if any(fnmatch.fnmatchcase(e[3], p) for p in pat):
                    want.setdefault(e[3], set()).add(
                        B.utc(e[4]).format_fissures())
            got = {x: set(v) for x, v in d.items() if len(v)}
            if got != want or any(len(set(v)) != len(v) for v in d.values()):
                res.fail('starttimes', f'after {hist}: {k} {ch} {got} {want}')


def run_case(case):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    import contextlib
    import io
    warnings.simplefilter('ignore')
    res = Result()
    u = [tuple(e) for e in case['u']]
    qs = queries(u)
    # all requests once per content; states that differ in empty groups or
    # versions only: requests without wildcards and for everything
    few = [q for q in qs if all(map(exact, q[:4])) or q[1:4] == ('*',)*3]
    full = set()
    op_list = ops(u, case['ver'])
    with B.Scratch('c08') as d:
        fn = os.path.join(d, 'A-A.1-1.h5')

        def load(blob):
            if blob is None:
                if os.path.exists(fn):
                    os.remove(fn)
            else:
                with open(fn, 'wb') as f:
                    f.write(blob)

        def key():
            return dump(fn)

        with CorrelationDataBase(fn, corr_options=CO) as db:
            pass
        with open(fn, 'rb') as f:
            blob0 = f.read()
        todo = [(blob0, {}, [])]
        seen = {(key(), ())}
        with CorrelationDataBase(fn, mode='r') as db:
            check_state(res, db, {}, u, qs, [])
        while todo:
            blob, m, hist = todo.pop(0)
            for op in op_list:
                load(blob)
                m2 = apply_model(m, op, u)
                h2 = hist + [op]
                with contextlib.redirect_stdout(io.StringIO()):
                    # the extension does not need to be given
                    with CorrelationDataBase(
                            fn if len(h2) % 2 else fn[:-3],
                            corr_options=CO) as db:
                        apply_real(db, op, u)
                res.transitions += 1
                k = (key(), tuple(sorted(m2.items())))
                if k in seen:
                    continue
                seen.add(k)
                res.state(k)
                with CorrelationDataBase(fn, mode='r') as db:
                    check_state(res, db, m2, u, few if frozenset(m2) in full
                                else qs, h2)
                full.add(frozenset(m2))
                res.traces += 1
                if len(res.violations) > 20:
                    return res
                with open(fn, 'rb') as f:
                    todo.append((f.read(), m2, h2))
        res.see(len(seen))
        res.nontrivial = len(seen) > 20
    return res
