"""
Selection, averaging, shifting and smoothing of velocity changes.
"""
import fnmatch
import itertools
import os
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc import proj as P       # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all lists of up to 3 results from a pool that covers unavailable and '
    'partly unavailable rows, negative similarity, other axes, methods and '
    'shapes, averaged results; all availability patterns x offsets for the '
    'shift correction; all sets of stored files (auto, cross component, '
    'cross station, averaged; similar station names; folder names) x '
    'methods, run twice; all sets of correlation files x requested codes; '
    'all coordinate windows; all gap patterns for the smoothing. Compared '
    'with independent reimplementations of the documented result. '
    'Non-trivial: at least one usable result.')
ASSUMPTIONS = ['shifts are whole steps of the axis and stay inside of it']
CHUNK = 16
AX = np.linspace(-.05, .05, 11)


def cases(tier):
    out = []
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for c in itertools.product(range(len(POOL)), repeat=k):
            out.append(dict(kind='average', pool=list(c)))
    n = 4 if tier == 'quick' else 5
    av = [c for c in itertools.product((0, 1), repeat=n) if any(c)]
    for a, b in itertools.product(av, av):
        out.append(dict(kind='shift', a=list(a), b=list(b)))
    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
        for c in itertools.combinations(range(len(SEV)), k + 1):
            out.append(dict(kind='several', c=list(c)))
    for la, lo, el in itertools.product([0, 1, 2], repeat=3):
        out.append(dict(kind='coords', box=[la, lo, el]))
    for p in range(len(NETS)):
        out.append(dict(kind='find', net=p))
    meths = ['AutoComponents', 'crossComponents', 'betweenComponents',
             'StationWide', 'CrossStations', 'betweenStations']
    for m in meths:
        for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for c in itertools.combinations(range(len(FILES)), k):
                out.append(dict(kind='comp', meth=m, files=list(c), dir=0))
        for c in itertools.combinations(range(len(FILES)), 2):
            for dd in (1, 2):
                out.append(dict(kind='comp', meth=m, files=list(c), dir=dd))
        out.append(dict(kind='comp', meth=m, files=list(range(len(FILES))),
                        dir=0))
    for rows in itertools.product(range(4), repeat=4):
        out.append(dict(kind='smooth', rows=list(rows)))
    for k in (1, 2, 3):
        for c in itertools.product(range(7 if k < 3 else 5), repeat=k):
            out.append(dict(kind='wfc', c=list(c)))
    return out


def header(net='A-A', sta='S-S', cha='HHZ-HHZ', n=4, st=(0., 0., 0.),
           ev=(0., 0., 0.)):
    from seismic.correlate.stats import CorrStats
    s = CorrStats(dict(
        network=net, station=sta, channel=cha, sampling_rate=4.,
        start_lag=-5., npts=41, stla=st[0], stlo=st[1], stel=st[2],
        evla=ev[0], evlo=ev[1], evel=ev[2], _format='hdf5'))
    s['corr_start'] = [B.utc(86400*i) for i in range(n)]
    s['corr_end'] = [B.utc(86400*(i + 1)) for i in range(n)]
    s['location'] = ['00-00']*n
    return s


def peaks(idx, off=0., amp=.9):
    """similarity matrix with maxima at the given samples (None: no data)"""
    out = np.full((len(idx), len(AX)), np.nan)
    for i, k in enumerate(idx):
        if k is not None:
            out[i] = amp*np.cos((np.arange(len(AX)) - k)*.25) - off
    return out


def dv(sim, meth='single_ref', ax=AX, **kw):
    from seismic.monitor.dv import DV
    sim = np.array(sim, dtype=float)
    x = np.where(np.isnan(sim), -np.inf, sim)
    corr = x.max(axis=1)
    none = np.isinf(corr)
    corr[none] = np.nan
    val = np.array(ax)[x.argmax(axis=1)].astype(float)
    val[none] = np.nan
    return DV(corr, val, 'stretch', sim, np.array(ax), meth,
              header(n=len(sim), **kw),
              dv_processing=dict(freq_min=1, freq_max=2, tw_start=0,
                                 tw_len=5))


def part():
    x = peaks([2, 8, None, 5])
    x[0, 7:] = np.nan
    x[3] -= 2
    x[3, :2] = np.nan
    return x


# name -> (similarity, arguments, usable)
POOL = [
    lambda: dv(peaks([5, 6, 7, 2])),
    lambda: dv(peaks([3, None, 8, None]), cha='HHN-HHN'),
    lambda: dv(peaks([None]*4), sta='S-T'),
    lambda: dv(peaks([4, None, None, 1], off=2.), net='A-B'),
    lambda: dv(peaks([5, 6, 7, 2]), ax=AX*2),
    lambda: dv(peaks([1, 2, 3, 4, 5])),
    lambda: dv(peaks([9, 9, 9, 9]), cha='av'),
    lambda: dv(peaks([1, 2, 3, 4]), meth='multi_ref'),
    lambda: dv(part(), cha='HHE-HHE'),
]


def snapshot(d):
    return [np.array(x, dtype=float).tobytes() for x in (
        d.corr, d.value, d.sim_mat, d.second_axis, d.avail)] + [
        str(sorted((k, str(v)) for k, v in dict(d.stats).items()))]


def expected(use):
    """average of the usable results"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = np.array([d.sim_mat for d in use])
        cnt = (~np.isnan(sim)).sum(axis=0)
        av = np.where(cnt, np.nansum(sim, axis=0)/np.maximum(cnt, 1), np.nan)
    x = np.where(np.isnan(av), -np.inf, av)
    corr = x.max(axis=1)
    none = np.isinf(corr)
    corr[none] = np.nan
    val = use[0].second_axis[x.argmax(axis=1)].copy()
    val[none] = np.nan
    nst = np.array([~np.isnan(d.corr) for d in use]).sum(axis=0)
    codes = {}
    for k in ('network', 'station', 'channel'):
        c = {getattr(d.stats, k) for d in use}
        codes[k] = c.pop() if len(c) == 1 else 'av'
    return av, corr, val, nst, codes


def compare(got, exp, use, tol=1e-9):
    av, corr, val, nst, codes = exp
    val = val.copy()
    for i, x in enumerate(np.atleast_1d(got.value)[:len(val)]):
        # several maxima that are equal apart from rounding
        j = np.flatnonzero(np.isclose(use[0].second_axis, x, atol=tol))
        if len(j) and abs(av[i, j[0]] - corr[i]) <= 1e-12:
            val[i] = x
    for n, a, b in (('sim_mat', got.sim_mat, av), ('corr', got.corr, corr),
                    ('value', got.value, val), ('n_stat', got.n_stat, nst)):
        if np.shape(a) != b.shape or not np.allclose(
                a, b, equal_nan=True, atol=tol):
            return f'{n}: {a} instead of {b}'
    for k, v in codes.items():
        if getattr(got.stats, k) != v:
            return f'{k}: {got.stats[k]} instead of {v}'
    if not np.array_equal(got.avail, ~np.isnan(corr)):
        return f'avail {got.avail}'
    if not np.array_equal(got.second_axis, use[0].second_axis):
        return 'axis'
    if list(got.stats.corr_start) != list(use[0].stats.corr_start):
        return f'times {got.stats.corr_start}'
    return None


def run_average(case, res):
    from seismic.monitor.monitor import (
        average_components, average_components_mem_save)
    dvs = [POOL[i]() for i in case['pool']]
    before = [snapshot(d) for d in dvs]
    # documented: compared to the first one
    use = [d for d in dvs if d.stats.channel != 'av'
           and d.sim_mat.shape == dvs[0].sim_mat.shape
           and np.array_equal(d.second_axis, dvs[0].second_axis)]
    mixed = len({d.method for d in dvs}) > 1
    res.nontrivial = len(use) > 0 and not mixed
    for name, f in (('list', lambda x: average_components(x)),
                    ('noscatter', lambda x: average_components(x, False)),
                    ('mem', lambda x: average_components_mem_save(x)),
                    ('gen', lambda x: average_components_mem_save(
                        (y for y in x), False))):
        res.count(transitions=1)
        try:
            got = f(dvs)
        except TypeError as e:
            if not mixed or 'same method' not in str(e):
                if use:
                    raise
            continue
        except Exception:
            if use:
                raise
            continue
        if mixed:
            res.fail(f'average-{name}-method', f'{case}: methods were mixed')
            continue
        if not use:
            continue
        x = compare(got, expected(use), use)
        if x:
            res.fail(f'average-{name}', f'{case}: {x}')
        scat = name in ('list', 'mem')
        if (got.corrs is not None) != scat or scat and (
                not np.array_equal(got.corrs, [d.corr for d in use],
                                   equal_nan=True)
                or not np.array_equal(got.stretches, [d.value for d in use],
                                      equal_nan=True)):
            res.fail(f'average-{name}-scatter', f'{case}: scatter is wrong')
        res.see(name, tuple(np.round(np.nan_to_num(got.value, nan=9), 3)))
        got.sim_mat[:] = 7
        got.value[:] = 7
        got.second_axis  # shared axis may stay shared
        got.stats['channel'] = 'X'
    if [snapshot(d) for d in dvs] != before:
        res.fail('average-input', f'{case}: averaging changed the input')


BASE = [4, 6, 5, 7, 3]


def run_shift(case, res):
    from seismic.monitor.monitor import correct_dv_shift
    a, b = np.array(case['a'], bool), np.array(case['b'], bool)
    both = a & b
    for off, meth, ov in itertools.product((0, 2, -3), ('mean', 'median'),
                                           (0, 1, 5)):
        base = BASE if both.any() else [5]*5
        # amplitudes differ, the mean is weighted by them
        s0 = peaks([base[i] + off if a[i] else None for i in range(len(a))])
        s1 = peaks([base[i] if b[i] else None for i in range(len(a))],
                   amp=.8)
        d0, d1 = dv(s0), dv(s1)
        keep = snapshot(d1)
        res.count(transitions=1)
        ia, ib = np.flatnonzero(a), np.flatnonzero(b)
        gap = max(ia[0] - ib[-1], ib[0] - ia[-1])
        try:
            out = correct_dv_shift(d0, d1, method=meth, n_overlap=ov)
        except ValueError as e:
            if both.any() or (gap > 0 and gap <= ov):
                res.fail('shift-refused', f'{case} {off} {meth} {ov}: {e}')
            elif snapshot(d0) != snapshot(dv(s0)):
                res.fail('shift-partial', f'{case}: changed despite error')
            continue
        if not both.any() and gap > ov:
            res.fail('shift-gap', f'{case} {ov}: gap of {gap} is accepted')
            continue
        if not both.any() and gap < 0:
            # interleaved, no documented comparison
            continue
        if out[0] is not d0 or out[1] is not d1 or snapshot(d1) != keep:
            res.fail('shift-other', f'{case}: reference changed')
        if ov and both.any():
            # values beyond the common times are compared as well
            same = (a == b).all()
            if not same:
                continue
        exp = np.array([AX[base[i]] if a[i] else np.nan
                        for i in range(len(a))])
        res.see(off, meth, tuple(a), tuple(b))
        if not np.allclose(d0.value, exp, equal_nan=True):
            res.fail('shift-value', f'{case} offset {off} {meth} {ov}: '
                     f'{d0.value} instead of {exp}')
            continue
        inner = slice(max(0, -off), len(AX) - max(0, off))
        if not np.allclose(d0.sim_mat[:, inner], peaks(
                [base[i] if a[i] else None for i in range(len(a))])[
                    :, inner], equal_nan=True):
            res.fail('shift-sim', f'{case} {off}: similarity not shifted')
        outer = np.ones(len(AX), dtype=bool)
        outer[inner] = False
        if off and (~np.isnan(d0.sim_mat[:, outer])).any():
            res.fail('shift-wrap', f'{case} {off}: values reenter at the '
                     'other end of the axis')


# availability and offset
SEV = [([1, 1, 0, 0], 0), ([1, 1, 1, 0], 1), ([0, 1, 1, 0], -1),
       ([0, 1, 1, 1], 2), ([0, 0, 1, 1], -2), ([1, 0, 0, 1], 1)]


def run_several(case, res):
    """shift correction inside the average"""
    from seismic.monitor.monitor import average_components
    dvs = []
    for c in case['c']:
        a, off = SEV[c]
        dvs.append(dv(peaks([5 + off if x else None for x in a])))
    starts = [np.mean(np.flatnonzero(SEV[c][0])) for c in case['c']]
    o = np.argsort(starts, kind='stable')
    chain = len(set(starts)) == len(starts) and all(
        (np.array(SEV[case['c'][i]][0]) & np.array(SEV[case['c'][j]][0])
         ).any() for i, j in zip(o, o[1:]))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        av = average_components(dvs, correct_shift=True)
    res.count(transitions=1)
    ref = 5 + SEV[case['c'][o[0]]][1]
    ok = ~np.isnan(av.value)
    res.see(chain, tuple(ok))
    if list(ok) != [any(SEV[c][0][i] for c in case['c']) for i in range(4)]:
        res.fail('several-avail', f'{case}: {av.value}')
    if chain:
        # all agree with the earliest one
        if not np.allclose(av.value[ok], AX[ref]):
            res.fail('several', f'{case}: {av.value}, all should be at '
                     f'{AX[ref]} ({[str(x.message) for x in w]})')


STAS = {'S': (0., 0., 0.), 'T': (1., 0., 0.), 'U': (0., 1., 100.),
        'V': (1., 1., 100.)}
RANGES = [((-.5, .5), (-.5, .5), (-1., 1.)), ((0., 1.), (0., 1.), (0., 100.)),
          ((.5, 2.), (.5, 2.), (50., 200.))]


def run_coords(case, res):
    from seismic.monitor.monitor import average_dvs_by_coords
    dvs = []
    for i, (a, b) in enumerate(itertools.combinations_with_replacement(
            sorted(STAS), 2)):
        dvs.append(dv(peaks([i, 3, None, 10 - i]), sta=f'{a}-{b}',
                      st=STAS[a], ev=STAS[b]))
    dvs.append(dv(peaks([9]*4), cha='av', st=STAS['S'], ev=STAS['S']))
    box = [RANGES[k][j] for j, k in enumerate(case['box'])]
    for default_el in (False, True):
        use = []
        for d in dvs[:-1]:
            p = [STAS[x] for x in d.stats.station.split('-')]
            if all(box[j][0] <= q[j] <= box[j][1] for q in p for j in (
                    (0, 1) if default_el else (0, 1, 2))):
                use.append(d)
        before = [snapshot(d) for d in dvs]
        res.count(transitions=1)
        args = (box[0], box[1]) if default_el else tuple(box)
        try:
            got = average_dvs_by_coords(dvs, *args)
        except ValueError:
            if use:
                res.fail('coords-none', f'{case}: nothing found')
            continue
        if not use:
            res.fail('coords-some', f'{case}: result without stations')
            continue
        exp = expected(use)
        exp[4].update(network='geoav', station='geoav')
        x = compare(got, exp, use)
        if x:
            res.fail('coords', f'{case}: {x}')
        s = got.stats
        for k, v in (('la', box[0]), ('lo', box[1])):
            if tuple(s['st' + k]) != v or tuple(s['ev' + k]) != v:
                res.fail('coords-head', f'{case}: {k} {s["st" + k]}')
        if [snapshot(d) for d in dvs] != before:
            res.fail('coords-input', f'{case}: input changed')
        res.see(len(use))


CODES = [('A', 'S1'), ('A', 'S2'), ('B', 'S1'), ('AB', 'S10')]
NETS = [(n, s) for n in ('*', 'A', 'A?', ['A'], ['A', 'B'], ['A*'], ['B', '*'],
                         ['C'], ['AB', 'A'])
        for s in ('*', 'S1', 'S?', ['S1'], ['S1', 'S2'], ['S1*'], ['S2', 'X'],
                  ['X'], ['S10', 'S1'])]


def run_find(case, res):
    from seismic.monitor.monitor import corr_find_filter
    net, sta = NETS[case['net']]
    with B.Scratch('c17') as d:
        pairs = list(itertools.combinations_with_replacement(CODES, 2))
        for a, b in pairs:
            open(os.path.join(
                d, f'{a[0]}-{b[0]}.{a[1]}-{b[1]}.h5'), 'w').close()
        open(os.path.join(d, 'something.txt'), 'w').close()
        open(os.path.join(d, 'other.h5'), 'w').close()
        got = corr_find_filter(d, dict(network=net, station=sta,
                                       component='Z'), other=1)
        res.count(transitions=1)

        def ok(code, pat):
            pat = [pat] if isinstance(pat, str) else pat
            return any(fnmatch.fnmatchcase(code, p) for p in pat)
        exp = sorted(
            (f'{a[0]}-{b[0]}', f'{a[1]}-{b[1]}', os.path.join(
                d, f'{a[0]}-{b[0]}.{a[1]}-{b[1]}.h5')) for a, b in pairs
            if all(ok(x[0], net) and ok(x[1], sta) for x in (a, b)))
        res.nontrivial = len(exp) > 0
        res.see(len(exp))
        if sorted(zip(*got)) != exp:
            short = [x[:2] for x in sorted(zip(*got))]
            res.fail('find', f'{net} {sta}: {short} instead of '
                     f'{[x[:2] for x in exp]}')


FILES = [('A-A', 'ST1-ST1', 'HHZ-HHZ'), ('A-A', 'ST1-ST1', 'HHN-HHN'),
         ('A-A', 'ST1-ST1', 'HHN-HHZ'), ('A-A', 'ST1-ST1', 'HHE-HHZ'),
         ('A-A', 'ST1-ST10', 'HHZ-HHZ'), ('A-A', 'ST1-ST10', 'HHN-HHZ'),
         ('A-A', 'ST1-ST1', 'av-auto'), ('A-B', 'ST1-ST1', 'HHZ-HHZ'),
         ('A-A', 'ST1-ST1', 'av'), ('A-A', 'ST1-ST1', 'av-xc'),
         ('A-A', 'ST1-ST10', 'HHE-HHZ'), ('A-B', 'ST1-ST1', 'HHE-HHE'),
         ('A-B', 'ST1-ST1', 'HHN-HHZ'), ('A-B', 'ST1-ST1', 'HHE-HHZ'),
         ('A-A', 'ST1-ST1', 'HHZ-BHZ'), ('A-A', 'ST1-ST1', 'BHZ-BHZ')]
DIRS = ['dv', 'saved.av.dv', 'dv.HHZ-HHZ']


def run_comp(case, res):
    from seismic.monitor.dv import read_dv
    meth = case['meth'].lower()
    ch = {'autocomponents': 'av-auto', 'crosscomponents': 'av-xc',
          'betweencomponents': 'av-xc'}.get(meth, 'av')

    def wanted(f):
        s = f[1].split('-')
        c = f[2].split('-')
        if f[2].startswith('av'):
            return False
        same = s[0] == s[1] and len(set(f[0].split('-'))) == 1
        return {'autocomponents': same and c[0] == c[1],
                'crosscomponents': same and c[0] != c[1],
                'betweencomponents': same and c[0] != c[1],
                'stationwide': same, 'crossstations': not same,
                'betweenstations': not same}[meth]

    with B.Scratch('c17') as d:
        out = os.path.join(d, DIRS[case['dir']])
        os.makedirs(out)
        opts = P.dv_options(d, 0, 4, 1, 1, subdir=DIRS[case['dir']])
        content = {}
        for i in case['files']:
            n, s, c = FILES[i]
            x = dv(peaks([i, None if i % 2 else 9 - i, None, 5 + i % 3]),
                   net=n, sta=s, cha=c if not c.startswith('av') else 'av')
            x.save(os.path.join(out, f'DV-{n}.{s}.{c}'))
            content[FILES[i]] = x
        before = {f: open(os.path.join(out, f), 'rb').read()
                  for f in os.listdir(out)}
        exp = {}
        for key in {f[:2] for f in content}:
            use = [f for f in content if f[:2] == key and wanted(f)]
            if len(use) > 1 and key + (ch,) not in content:
                exp['DV-%s.%s.%s.npz' % (key + (ch,))] = [
                    content[f] for f in use]
        res.nontrivial = len(exp) > 0
        for cycle in range(2):
            with P.MonitorProject(opts) as m:
                m.compute_components_average(case['meth'])
            res.count(transitions=1)
            now = {f: open(os.path.join(out, f), 'rb').read()
                   for f in os.listdir(out)}
            new = set(now) - set(before)
            res.see(meth, len(new))
            if new != set(exp):
                res.fail(f'comp-files-{meth}', f'{case}: new files '
                         f'{sorted(new)} instead of {sorted(exp)} '
                         f'(run {cycle})')
                return
            if any(now[f] != before[f] for f in before):
                res.fail('comp-overwritten', f'{case}: a file changed')
            for f, use in exp.items():
                # order of the files is arbitrary
                e = expected(use)
                e[4]['channel'] = 'av'
                got = read_dv(os.path.join(out, f))
                x = compare(got, e, use)
                if x:
                    res.fail(f'comp-{meth}', f'{case}: {f}: {x}')


def run_smooth(case, res):
    rows = []
    for i, k in enumerate(case['rows']):
        x = peaks([(3*i) % 9 + 1])[0]
        if k == 1:
            x[:] = np.nan
        elif k == 2:
            x -= 2
        elif k == 3:
            x[4:] = np.nan
        rows.append(x)
    sim = np.array(rows)
    for win, thr in itertools.product((1, 2, 3, 5, 9), (None, 0., .5)):
        d = dv(sim)
        out = d.smooth_sim_mat(win, thr)
        res.count(transitions=1)
        s = sim.copy()
        if thr is not None:
            s[s < thr] = np.nan
        h = win//2
        exp = np.full_like(s, np.nan)
        for i in range(len(s)):
            blk = s[max(0, i - h):i + h + 1]
            c = (~np.isnan(blk)).sum(axis=0)
            exp[i, c > 0] = (np.nansum(blk, axis=0)[c > 0]/c[c > 0])
        x = np.where(np.isnan(exp), -np.inf, exp)
        corr = x.max(axis=1)
        none = np.isinf(corr)
        corr[none] = np.nan
        val = AX[x.argmax(axis=1)].copy()
        val[none] = np.nan
        for n, a, b in (('sim', d.sim_mat, exp), ('corr', d.corr, corr),
                        ('value', d.value, val),
                        ('avail', d.avail, ~none)):
            if not np.allclose(a, b, equal_nan=True):
                res.fail(f'smooth-{n}', f'{case} win {win} thr {thr}: {a} '
                         f'instead of {b}')
                return
        if out is not d or not np.array_equal(d.second_axis, AX):
            res.fail('smooth-obj', f'{case}: other object')
        res.see(win, tuple(none))


WFCP = [dict(tw_start=1, tw_len=5, freq_min=1, freq_max=2),
        dict(tw_start=2, tw_len=5, freq_min=1, freq_max=2),
        dict(tw_start=1, tw_len=6, freq_min=1, freq_max=2),
        dict(tw_start=1, tw_len=5, freq_min=.5, freq_max=2),
        dict(tw_start=1, tw_len=5, freq_min=1, freq_max=2.5)]


def run_wfc(case, res):
    from seismic.monitor.wfc import WFC
    from seismic.monitor.monitor import average_components_wfc
    wl = []
    for c in case['c']:
        x = np.cos(np.arange(8).reshape(2, 4)*(c + 1))
        if c == 1:
            x[:, 2] = np.nan
        w = WFC({'reftr_0': x, 'reftr_1': x*.5}, header(
            cha='HHZ-HH' + 'ZNE1234'[c]), WFCP[max(c - 2, 0)])
        w.compute_average()
        wl.append(w)
    data = [{k: np.array(v) for k, v in w.items()} for w in wl]
    heads = [str(dict(w.stats)) for w in wl]
    res.count(transitions=1)
    try:
        av = average_components_wfc(wl)
    except ValueError:
        if len({max(c - 2, 0) for c in case['c']}) == 1:
            raise
        return
    if len({max(c - 2, 0) for c in case['c']}) > 1:
        res.fail('wfc-mixed', f'{case}: different windows are averaged')
        return
    for k in ('reftr_0', 'reftr_1'):
        st = np.array([x[k] for x in data])
        c = (~np.isnan(st)).sum(axis=0)
        exp = np.where(c, np.nansum(st, axis=0)/np.maximum(c, 1), np.nan)
        if not np.allclose(av[k], exp, equal_nan=True):
            res.fail('wfc', f'{case}: {k}')
    av.compute_average()
    if av.stats.channel != 'av' or not np.isfinite(av.mean):
        res.fail('wfc-head', f'{case}: {av.stats.channel} {av.mean}')
    av['reftr_0'][:] = 0
    if [str(dict(w.stats)) for w in wl] != heads or any(
            not np.array_equal(w[k], x[k], equal_nan=True)
            for w, x in zip(wl, data) for k in x):
        res.fail('wfc-input', f'{case}: input changed')
    res.see(len(set(case['c'])))


def run_case(case):
    res = Result()
    {'average': run_average, 'shift': run_shift, 'several': run_several,
     'coords': run_coords, 'find': run_find, 'comp': run_comp,
     'smooth': run_smooth, 'wfc': run_wfc}[case['kind']](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
