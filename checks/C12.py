"""
Selecting and stacking correlations in time.
"""
import itertools
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all subsets (bounded size) of a universe of correlations (regular, with '
    'gaps, crossing midnight, of different lengths, nested) x assignment of '
    'channels and locations x order in the stream; on each: every selection, '
    'sliding window, stack, and conversion of a product of arguments. The '
    'exact set of correlations (identified by their data) and all values and '
    'times of stacks are compared with interval arithmetic on a table. '
    'Non-trivial: more than one correlation.')
ASSUMPTIONS = ['at the exact edges of a correlation, removal at a given time '
               'is left open']
CHUNK = 4

H = 3600
DAY0 = -(B.T0 % 86400)      # midnight relative to T0
REG = [(DAY0 + a*H, DAY0 + b*H) for a, b in [
    (0, 1), (1, 2), (2, 3), (3, 4), (23, 24), (24, 25), (48, 49)]]
ODD = [(DAY0 + a*H, DAY0 + b*H) for a, b in [
    (23.5, 24.5), (23, 24), (22, 25), (24, 24.5), (2, 3), (2.25, 2.5)]]


def cases(tier):
    out = []
    n = 3 if tier == 'quick' else 5
    for name, univ in (('reg', REG), ('odd', ODD)):
        for k in range(1, n+1):
            for sub in itertools.combinations(range(len(univ)), k):
                for ids in range(3):
                    if k == 1 and ids:
                        continue
                    out.append(dict(u=name, sub=list(sub), ids=ids))
    out += [dict(kind='mixed', u=name) for name in ('reg', 'odd')]
    out += [dict(kind='rates', u=name) for name in ('reg', 'odd')]
    return out


IDS = [('HHZ-HHZ', '00-00'), ('HHZ-HHN', '00-00'), ('HHZ-HHZ', '00-01')]


def build(case, order):
    from seismic.correlate.stream import CorrTrace, CorrStream
    univ = REG if case['u'] == 'reg' else ODD
    tab, st = [], CorrStream()
    for i, k in enumerate(case['sub']):
        # ids: all the same / channels alternate / locations alternate
        cha, loc = IDS[0 if case['ids'] == 0 else
                       (i % 2) if case['ids'] == 1 else 2*(i % 2)]
        x = np.cos(np.arange(9.)*(k+1)) + k
        tab.append(dict(a=univ[k][0], b=univ[k][1], cha=cha, loc=loc, x=x))
    for r in tab[::order]:
        st.append(CorrTrace(r['x'].copy(), _header=dict(
            network='A-A', station='S-T', location=r['loc'],
            channel=r['cha'], sampling_rate=2., start_lag=-2.,
            corr_start=B.utc(r['a']), corr_end=B.utc(r['b']))))
    return tab, st


def ident(tr):
    return (round(tr.stats.corr_start.timestamp - B.T0, 3),
            round(tr.stats.corr_end.timestamp - B.T0, 3),
            tr.stats.channel, tr.stats.location,
            tuple(np.round(tr.data, 9)))


def rid(r):
    return (r['a'], r['b'], r['cha'], r['loc'], tuple(np.round(r['x'], 9)))


def cmp(res, name, what, got, exp):
    g, e = sorted(ident(t) for t in got), sorted(rid(r) for r in exp)
    if g != e:
        res.fail(name, f'{what}: {[x[:4] for x in g]} instead of '
                 f'{[x[:4] for x in e]}')
        return False
    return True


def m_partial(tab, a, b):
    return [r for r in tab if a < r['b'] <= b]


def m_inside(tab, a, b):
    return [r for r in tab if r['a'] >= a and r['b'] <= b]


def m_stack(rows, weight, loc):
    groups = {}
    for r in sorted(rows, key=lambda r: r['a']):
        groups.setdefault((r['cha'],) + ((r['loc'],) if loc else ()),
                          []).append(r)
    out = []
    for g in groups.values():
        w = np.array([r['b'] - r['a'] if weight == 'by_length' else 1.
                      for r in g])
        d = sum(r['x']*v for r, v in zip(g, w))/w.sum()
        d = d/np.abs(d).max()
        out.append(dict(a=min(r['a'] for r in g), b=max(r['b'] for r in g),
                        cha=g[0]['cha'], loc=g[0]['loc'] if loc else None,
                        x=d))
    return out


def cmp_stack(res, what, got, exp):
    key = lambda r: (r['a'], r['b'], r['cha'], r['loc'] or '')  # noqa
    exp = sorted(exp, key=key)
    g = sorted((dict(
        a=t.stats.corr_start.timestamp - B.T0,
        b=t.stats.corr_end.timestamp - B.T0, cha=t.stats.channel,
        loc=t.stats.location, x=t.data) for t in got), key=key)
    if exp and exp[0]['loc'] is None:
        for r in g:
            r['loc'] = None
        g.sort(key=key)
    show = [[(r['a'], r['b'], r['cha'], r['loc']) for r in x]
            for x in (g, exp)]
    if len(g) != len(exp) or any(
            abs(x['a'] - y['a']) > 1e-3 or abs(x['b'] - y['b']) > 1e-3 or
            x['cha'] != y['cha'] or x['loc'] != y['loc']
            for x, y in zip(g, exp)):
        res.fail('stack', f'{what}: {show[0]} instead of {show[1]}')
        return False
    for x, y in zip(g, exp):
        if x['x'].shape != y['x'].shape or not np.allclose(
                x['x'], y['x'], atol=1e-9):
            res.fail('stack-values', f'{what}: {x["x"][:3]} instead of '
                     f'{y["x"][:3]} for {show[1]}')
            return False
    return True


def run_mixed(case, res):
    """
    Stacks of correlations of different lengths: the longest ones are used,
    and the lags are theirs
    """
    from seismic.correlate.stream import CorrTrace, CorrStream
    univ = (REG if case['u'] == 'reg' else ODD)[:4]
    n = 0
    for long, order in itertools.product(
            itertools.product((False, True), repeat=len(univ)), (1, -1)):
        if not any(long):
            continue
        st, rows = CorrStream(), []
        for i, ((a, b), lo) in list(enumerate(zip(univ, long)))[::order]:
            x = np.cos(np.arange(9. if lo else 5.)*(i+1)) + i
            st.append(CorrTrace(x.copy(), _header=dict(
                network='A-A', station='S-T', location='00-00',
                channel='HHZ-HHZ', sampling_rate=2.,
                start_lag=-2. if lo else -.5, corr_start=B.utc(a),
                corr_end=B.utc(b))))
            if lo:
                rows.append(dict(a=a, b=b, cha='HHZ-HHZ', loc='00-00', x=x))
        for w in ('by_length', 'mean'):
            what = f'{case["u"]} {long} {order} {w}'
            got = st.copy().stack(weight=w)
            e = m_stack(rows, w, True)[0]['x']
            n += 1
            if len(got) != 1 or got[0].data.shape != e.shape or \
                    not np.allclose(got[0].data, e, atol=1e-9):
                res.fail('mixed-values', f'{what}: {got}')
                return
            t = got[0].stats
            if abs(t.start_lag + 2) > 1e-9 or abs(t.end_lag - 2) > 1e-9 or \
                    t.npts != 9:
                res.fail('mixed-lags', f'{what}: lags {t.start_lag} to '
                         f'{t.end_lag}')
                return
            # no later, and no earlier than what was stacked or given
            cs = t.corr_start.timestamp - B.T0
            ce = t.corr_end.timestamp - B.T0
            if not (min(a for a, _ in univ) <= cs
                    <= min(r['a'] for r in rows)
                    and max(r['b'] for r in rows) <= ce
                    <= max(b for _, b in univ)):
                res.fail('mixed-times', f'{what}: {cs} to {ce}')
                return
    res.count(transitions=n, traces=n)
    res.state(case)
    res.nontrivial = True
    res.sample = dict(case)


def run_rates(case, res):
    """
    A matrix has one sampling rate (of the first correlation); others are
    left out with their times
    """
    from seismic.correlate.stream import CorrTrace, CorrStream
    univ = (REG if case['u'] == 'reg' else ODD)[:4]
    n = 0
    for rates, order, tm, inplace in itertools.product(
            itertools.product((2., 2.5, 4.), repeat=len(univ)), (1, -1),
            (None, (min(a for a, _ in univ) - 1, max(
                b for _, b in univ) + 1)), (True, False)):
        st, rows = CorrStream(), []
        for i, ((a, b), sr) in list(enumerate(zip(univ, rates)))[::order]:
            x = np.cos(np.arange(4*sr + 1)*(i+1)) + i
            st.append(CorrTrace(x.copy(), _header=dict(
                network='A-A', station='S-T', location='00-00',
                channel='HHZ-HHZ', sampling_rate=sr, start_lag=-2.,
                corr_start=B.utc(a), corr_end=B.utc(b))))
            rows.append((a, b, sr, tuple(x)))
        if tm:
            rows.sort(key=lambda r: r[0])
        exp = [r for r in rows if r[2] == rows[0][2]]
        what = f'{case["u"]} {rates} {order} {tm} {inplace}'
        cb = st.create_corr_bulk(
            times=[B.utc(t) for t in tm] if tm else None, inplace=inplace)
        s = cb.stats
        got = [(a.timestamp - B.T0, b.timestamp - B.T0, s.sampling_rate,
                tuple(x)) for a, b, x in zip(
                    s.corr_start, s.corr_end, cb.data)]
        n += 1
        if len(cb.data) != len(exp) or sorted(got) != sorted(exp) \
                or s.npts != cb.data.shape[1] or s.start_lag != -2 \
                or s.end_lag != 2 or len(s.location) != len(exp):
            res.fail('rates', f'{what}: {[r[:3] for r in got]} instead of '
                     f'{[r[:3] for r in exp]}')
            return
    res.count(transitions=n, traces=n)
    res.state(case)
    res.nontrivial = True
    res.sample = dict(case)


def sod(t):
    return (t - DAY0) % 86400


def in_day(r, t0, t1):
    """is the correlation inside of the time span t0-t1 of some day?"""
    if t1 <= t0:
        t1 += 86400
    return any(r['a'] >= DAY0 + 86400*d + t0 - 1e-6 and
               r['b'] <= DAY0 + 86400*d + t1 + 1e-6
               for d in range(-2, 5))


def one(case, order, res):
    tab, st = build(case, order)
    name = f'{case["u"]}{case["sub"]} ids {case["ids"]} order {order}: '
    n = 0

    def check_input():
        return cmp(res, 'input', name + 'stream changed', st, tab)

    grid = sorted({r['a'] for r in tab} | {r['b'] for r in tab})
    mid = [(x+y)/2 for x, y in zip(grid, grid[1:])]
    pts = sorted(set([grid[0] - 500] + grid + mid[:3] + [grid[-1] + 500]))
    for a, b in itertools.combinations(pts, 2):
        for part in (True, False):
            s = st.select_corr_time(B.utc(a), B.utc(b), part)
            exp = (m_partial if part else m_inside)(tab, a, b)
            if not cmp(res, 'select_corr_time',
                       f'{name}{a}-{b} partial {part}', s, exp):
                return
            cs = [t.stats.corr_start for t in s]
            if cs != sorted(cs):
                res.fail('order', f'{name}{a}-{b}: not sorted')
                return
            n += 1
    if not check_input():
        return
    lmax = max(r['b'] - r['a'] for r in tab)
    for wl, step in [(H, H), (2*H, H), (3*H, 3*H), (H, 2*H), (24*H, 24*H),
                     (1.5*H, .5*H)]:
        for part in (True, False):
            for a, b in [(None, None), (grid[0] - .3*H, None),
                         (None, grid[-1] - .5*H),
                         (grid[0] + .5*H, grid[-1] + H)]:
                kw = dict(starttime=None if a is None else B.utc(a),
                          endtime=None if b is None else B.utc(b))
                a = grid[0] if a is None else a
                b = grid[-1] if b is None else b
                try:
                    got = list(st.slide(wl, step, part, **kw))
                except ValueError:
                    if wl >= lmax:
                        res.fail('slide', f'{name}{wl} {step}: refused')
                        return
                    continue
                if wl < lmax:
                    res.fail('slide', f'{name}{wl}: not refused')
                    return
                exp = []
                x = a
                while x < b:
                    e = (m_partial if part else m_inside)(tab, x, x + wl)
                    if e:
                        exp.append(e)
                    x += step
                if len(got) != len(exp):
                    res.fail('slide', f'{name}{wl} {step} {part} {a}-{b}: '
                             f'{len(got)} windows instead of {len(exp)}')
                    return
                for g, e in zip(got, exp):
                    if not cmp(res, 'slide', f'{name}{wl} {step} {part} '
                               f'{a}-{b}', g, e):
                        return
                n += 1
    if not check_input():
        return
    for sl, w, loc in itertools.product(
            [0, H, 2*H, 3.5*H, 'daily'], ['by_length', 'mean'],
            [True, False]):
        for a, b in ((None, None), (grid[0] + .5*H, None),
                     (grid[0] - .6*H, None), (None, grid[-1] - .5*H),
                     (grid[0] - 1.3*H, grid[-1] + 2*H)):
            if (a is not None or b is not None) and sl == 0:
                continue
            what = f'{name}stack {sl} {w} location {loc} {a}-{b}'
            try:
                got = st.stack(weight=w, stack_len=sl, regard_location=loc,
                               starttime=None if a is None else B.utc(a),
                               endtime=None if b is None else B.utc(b))
            except ValueError as e:
                if sl not in (0, 'daily') and sl < lmax:
                    continue
                res.fail('stack-error', f'{what}: {e!r}')
                return
            if sl == 0:
                exp = m_stack(tab, w, loc)
            else:
                x = grid[0] if a is None else a
                le = sl
                if sl == 'daily':
                    le = 86400
                    x -= sod(x)
                exp = []
                while x < (grid[-1] if b is None else b):
                    exp += m_stack(m_partial(tab, x, x+le), w, loc)
                    x += le
            if not cmp_stack(res, what, got, exp):
                return
            if not check_input():
                return
            n += 1
    times = [(0, 0, 0), (1, 0, 0), (2, 0, 0.), (23, 0, 0), (23, 30, 0),
             (0, 30, 0), (2, 29, 59.5)]
    for t0, t1 in itertools.permutations(times, 2):
        for ex in (False, True):
            if t0[2] == 59.5 and t0 == t1:
                continue
            s = st.select_time(t0, t1, exclude=ex)
            a, b = [t[0]*3600 + t[1]*60 + t[2] for t in (t0, t1)]
            exp = [r for r in tab if in_day(r, a, b) != ex]
            if not cmp(res, 'select_time', f'{name}{t0}-{t1} exclude {ex}',
                       s, exp):
                return
            n += 1
    for k in (0, 1, 2):
        for us in itertools.combinations(
                [(x+y)/2 for x, y in zip(grid, grid[1:])] + [
                    grid[0] - 10, grid[-1] + 10], k):
            s = st.pop_at_utcs(np.array([B.utc(u) for u in us]))
            exp = [r for r in tab if not any(
                r['a'] < u < r['b'] for u in us)]
            if not cmp(res, 'pop', f'{name}remove {us}', s, exp):
                return
            n += 1
    if not check_input():
        return
    # duplicates
    for rep in itertools.product((1, 2), repeat=len(st)):
        d = st.copy()
        d.clear()
        for t, k in zip(st, rep):
            d.extend([t.copy() for _ in range(k)])
        for t, k in zip(st, rep):
            if k == 2:
                d.append(t.copy())
        order0 = [ident(t) for t in st]
        d.remove_duplicates()
        if [ident(t) for t in d] != order0:
            res.fail('duplicates', f'{name}{rep}: {len(d)} left of '
                     f'{len(st)}, or in another order')
            return
        n += 1
    # a trace that only differs in one sample / one header entry is kept
    d = st.copy()
    u = st[0].copy()
    u.data[3] += 1e-3
    v = st[0].copy()
    v.stats.corr_end += 1
    d.extend([u, v])
    d.remove_duplicates()
    if len(d) != len(st) + 2:
        res.fail('duplicates', f'{name}different correlations removed')
        return
    # conversion
    for cha, loc, tm in itertools.product(
            [None, 'HHZ-HHZ', 'HHZ-HHN', '*', 'HHZ-HH?'],
            [None, '00-00', '*'], [None, (grid[0], grid[-1]),
                                   (grid[0] + 10, grid[-1] + 10)]):
        exp = [r for r in tab if (cha is None or cha == r['cha'] or
                                  cha in ('*', 'HHZ-HH?'))
               and (loc in (None, '*') or loc == r['loc'])]
        if tm:
            exp = m_partial(exp, *tm)
        what = f'{name}matrix of {cha} {loc} {tm}'
        try:
            cb = st.copy().create_corr_bulk(
                channel=cha, location=loc,
                times=[B.utc(t) for t in tm] if tm else None)
        except ValueError as e:
            if exp:
                res.fail('bulk-error', f'{what}: {e!r}')
                return
            continue
        rows = []
        m = len(cb.data)
        s = cb.stats
        for i in range(m):
            k = {}
            for key in ('corr_start', 'corr_end', 'channel', 'location'):
                k[key] = s[key][i] if isinstance(s[key], list) else s[key]
            rows.append((k['corr_start'].timestamp - B.T0,
                         k['corr_end'].timestamp - B.T0, k['channel'],
                         k['location'], tuple(np.round(cb.data[i], 9))))
        if sorted(rows) != sorted(rid(r) for r in exp):
            res.fail('bulk', f'{what}: rows {[r[:4] for r in rows]}')
            return
        if abs(s.start_lag + 2) > 1e-9 or abs(s.end_lag - 2) > 1e-9:
            res.fail('bulk', f'{what}: lags {s.start_lag} {s.end_lag}')
            return
        n += 1
    c = st.copy()
    c.create_corr_bulk(inplace=False)
    if not cmp(res, 'bulk-inplace', name + 'data removed', c, tab):
        return
    res.count(transitions=n)


def run_case(case):
    res = Result()
    import warnings
    warnings.filterwarnings('ignore')
    if case.get('kind'):
        {'mixed': run_mixed, 'rates': run_rates}[case['kind']](case, res)
        return res
    for order in ((1, -1) if len(case['sub']) > 1 else (1,)):
        one(case, order, res)
        if res.violations:
            return res
        res.count(traces=1)
    res.state(case)
    res.nontrivial = len(case['sub']) > 1
    res.see(case)
    res.sample = dict(case)
    return res
