"""
Results (velocity changes, coherence, matrices) are read back as saved.
"""
import itertools
import os
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'product of kinds of results x number of time windows x missing values x '
    'optional parts x processing information x number of save/read cycles; '
    'every attribute and header entry (value and kind: list, text, number, '
    'time) is compared with the original, the functions that use a result '
    '(text, averaging, smoothing, conversion) must work on the reread one '
    'with the same outcome, and requests by pattern return each matching '
    'file once. Non-trivial: all.')
ASSUMPTIONS = ['times to 1 ms']
CHUNK = 8

PROC = [{}, dict(freq_min=.5, freq_max=2., tw_start=1., tw_len=5.,
                 sides='both', aligned=False),
        dict(freq_min=1, freq_max=2, tw_start=0, tw_len=5, sides='left',
             aligned='mean', stretch_steps=11),
        dict(freq_min=.5, freq_max=2., tw_start=1., tw_len=5.), None]


def cases(tier):
    out = []
    for n, nan, opt, pr, meth in itertools.product(
            [1, 2, 5], ['none', 'row', 'all'], ['none', 'all', 'n_stat'],
            range(len(PROC)), ['stretch', 'shift', 'av']):
        out.append(dict(kind='dv', n=n, nan=nan, opt=opt, proc=pr, meth=meth))
    for n, nref, cha, av in itertools.product([1, 3], [1, 2, 11],
                                              ['one', 'list', 'av'],
                                              [True, False]):
        out.append(dict(kind='wfc', n=n, nref=nref, cha=cha, av=av))
    for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for f in itertools.product(range(3), repeat=k):
            out.append(dict(kind='grid', f=list(f)))
    for n, one, ref in itertools.product([1, 2, 5], [True, False],
                                         [True, False]):
        out.append(dict(kind='bulk', n=n, one=one, ref=ref))
    for s in itertools.product((0, 1), repeat=4):
        out.append(dict(kind='glob', have=list(s)))
    for n, loc, lag, npts, sr in itertools.product(
            [1, 2, 3], [('', ''), ('', '00'), ('00', '10')],
            [-10., -10.25, 0., 3.5], [2, 41], [1., 4.]):
        out.append(dict(kind='mat', n=n, loc=loc, lag=lag, npts=npts, sr=sr))
    return out


def header(n, cha='HHZ-HHN', lists=True):
    from seismic.correlate.stats import CorrStats
    s = CorrStats(dict(
        network='A-A', station='S-T', channel=cha, sampling_rate=4.,
        start_lag=-5.25, npts=41, stla=1.5, stlo=2.25, stel=3.,
        evla=-1.5, evlo=2., evel=-7.25, dist=50.125, az=10., baz=190.,
        _format='hdf5'))
    s['corr_start'] = [B.utc(86400*i + .125) for i in range(n)]
    s['corr_end'] = [B.utc(86400*i + 86400.5) for i in range(n)]
    s['location'] = ['0%d-00' % (i % 2) for i in range(n)] if lists \
        else '00-00'
    s['ntrcs'] = n
    return s


def kind(v):
    from obspy import UTCDateTime
    if isinstance(v, (list, tuple)):
        return 'list'
    if isinstance(v, (str, np.str_)):
        return 'text'
    if isinstance(v, UTCDateTime):
        return 'time'
    if isinstance(v, np.ndarray) and v.ndim:
        return 'list' if v.dtype.kind in 'UO' else 'array'
    if isinstance(v, (bool, np.bool_)):
        return 'bool'
    if isinstance(v, (int, float, np.number)):
        return 'number'
    if isinstance(v, np.ndarray):
        return 'array0'
    return type(v).__name__


def equal(a, b):
    if kind(a) != kind(b):
        return f'{a!r} instead of {b!r}'
    k = kind(a)
    if k == 'list':
        if len(a) != len(b):
            return f'{len(a)} values instead of {len(b)}'
        for x, y in zip(a, b):
            z = equal(x, y)
            if z:
                return z
        return None
    if k == 'time':
        ok = abs(a - b) < 1e-3
    elif k == 'array':
        ok = a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    elif k in ('number',):
        ok = a == b or abs(a - b) < 1e-9
    else:
        ok = a == b
    return None if ok else f'{a!r} instead of {b!r}'


def cmp_stats(got, exp, skip=()):
    g, e = dict(got), dict(exp)
    for k in e:
        if k in skip or k.startswith('processing'):
            continue
        if k not in g:
            return f'header entry {k} lost'
        x = equal(g[k], e[k])
        if x:
            return f'header entry {k}: {x}'
    return None


def make_dv(case):
    from seismic.monitor.dv import DV
    n = case['n']
    ax = np.linspace(-.02, .02, 11)
    sim = np.cos(np.arange(n)[:, None]*.3 - 50*ax[None])*.9
    if case['nan'] == 'row':
        sim[n//2] = np.nan
    elif case['nan'] == 'all':
        sim[:] = np.nan
    corr = sim.max(axis=1)
    val = ax[np.argmax(sim, axis=1)].copy()
    val[np.isnan(corr)] = np.nan
    kw = {}
    if case['opt'] == 'all':
        kw = dict(stretches=np.array([val, val]), corrs=np.array([corr, corr]))
    if case['opt'] in ('all', 'n_stat'):
        kw['n_stat'] = np.ones(n)*2
    s = header(n)
    vt, me = {'stretch': ('stretch', 'single_ref'),
              'shift': (np.array(['shift']), np.array(['time_shift'])),
              'av': ('stretch', 'multi_ref')}[case['meth']]
    if case['meth'] == 'av':
        s['channel'] = 'av'
    pr = PROC[case['proc']]
    return DV(corr, val, vt, sim, ax, me, s,
              dv_processing=pr if pr is None else dict(pr), **kw)


def text(v):
    while not isinstance(v, str):
        v = v[0]
    return str(v)


def cmp_dv(got, exp):
    for k in ('corr', 'value', 'sim_mat', 'second_axis', 'avail',
              'stretches', 'corrs', 'n_stat'):
        a, b = getattr(got, k), getattr(exp, k)
        if a is None or b is None:
            if a is not b:
                return f'{k} is {a} instead of {b}'
            continue
        if a.dtype.kind != np.asarray(b).dtype.kind:
            return f'{k} of type {a.dtype}'
        x = equal(np.atleast_1d(a), np.atleast_1d(b))
        if x:
            return f'{k}: {x}'
    for k in ('value_type', 'method'):
        if text(getattr(got, k)) != text(getattr(exp, k)):
            return f'{k}: {getattr(got, k)}'
    for k, v in (exp.dv_processing or {}).items():
        if k == 'stretch_steps':
            continue
        if k not in got.dv_processing:
            return f'processing entry {k} lost'
        x = equal(got.dv_processing[k], v)
        if x:
            return f'processing entry {k}: {x}'
    return cmp_stats(got.stats, exp.stats)


def run_dv(case, res):
    from seismic.monitor.dv import read_dv
    from seismic.monitor.monitor import average_components
    with B.Scratch('c14') as d:
        old = make_dv(case)
        cur = old
        for cyc in range(3):
            p = os.path.join(d, f'DV-{cyc}.A.B')
            cur.save(p)
            x = cmp_dv(old, make_dv(case))
            if x:
                res.fail('save-changes', f'{case}: saving changed {x}')
                return
            cur = read_dv(p + '.npz')
            res.count(transitions=2)
            x = cmp_dv(cur, old)
            if x:
                res.fail('dv', f'{case} after {cyc+1} cycles: {x}')
                return
        if str(cur).split() != str(old).split() and not (
                case['proc'] > 1 or case['meth'] == 'shift'):
            res.fail('text', f'{case}: {str(cur)!r} vs {str(old)!r}')
        if case['meth'] != 'av' and case['nan'] != 'all':
            a = average_components([read_dv(p + '.npz') for _ in range(2)])
            b = average_components([old, make_dv(case)])
            x = cmp_dv(a, b)
            if x:
                res.fail('dv-average', f'{case}: {x}')
        if case['nan'] == 'none':
            a, b = cur.smooth_sim_mat(3), old.smooth_sim_mat(3)
            x = cmp_dv(a, b)
            if x:
                res.fail('dv-smooth', f'{case}: {x}')


def run_wfc(case, res):
    from seismic.monitor.wfc import WFC, read_wfc
    from seismic.monitor.monitor import average_components_wfc
    n = case['n']
    s = header(n, 'HHZ-HHN')
    if case['cha'] == 'list':
        s['channel'] = ['HHZ-HHN']*n
    elif case['cha'] == 'av':
        s['channel'] = 'av'
    pr = dict(tw_start=2., tw_len=3.5, freq_min=.25, freq_max=.5)

    def make():
        w = WFC({f'reftr_{i}': np.cos(np.arange(n)*(i + 1.))[None]
                 for i in range(case['nref'])}, s.copy(), dict(pr))
        if case['av']:
            w.compute_average()
        return w

    def cmp(a, b):
        if sorted(a) != sorted(b):
            return f'{sorted(a)} instead of {sorted(b)}'
        for k in b:
            x = equal(a[k], b[k])
            if x:
                return f'{k}: {x}'
        if sorted(a.av) != sorted(b.av) or any(
                a.av[k] != b.av[k] for k in b.av):
            return f'averages {a.av} instead of {b.av}'
        if np.shape(a.mean) != np.shape(b.mean) or np.any(a.mean != b.mean):
            return f'mean {a.mean} instead of {b.mean}'
        for k in pr:
            x = equal(a.wfc_processing[k], b.wfc_processing[k])
            if x:
                return f'{k}: {x}'
        return cmp_stats(a.stats, b.stats)
    with B.Scratch('c14') as d:
        old = make()
        cur = old
        for cyc in range(3):
            p = os.path.join(d, f'WFC-{cyc}')
            cur.save(p)
            cur = read_wfc(p + '.npz')
            res.count(transitions=2)
            x = cmp(cur, old) or cmp(old, make())
            if x:
                res.fail('wfc', f'{case} after {cyc+1} cycles: {x}')
                return
        x = cmp(average_components_wfc([cur, read_wfc(p + '.npz')]),
                average_components_wfc([old, make()]))
        if x:
            res.fail('wfc-average', f'{case}: {x}')
        cur.compute_average()
        old.compute_average()
        x = cmp(cur, old)
        if x:
            res.fail('wfc-recompute', f'{case}: {x}')
        got = read_wfc(os.path.join(d, 'WFC-*.npz'))
        if len(got) != 3:
            res.fail('wfc-glob', f'{len(got)} of 3 files')


def run_grid(case, res):
    """Table of coherence over frequency and lag time"""
    from seismic.monitor.wfc import WFC, WFCBulk
    F = [(.25, .5), (.5, 1.), (.1, .3)]
    T = [(0., 5.), (5., 2.5), (2., 2.)]
    for tt in itertools.product(range(3), repeat=len(case['f'])):
        for av in (True, False):
            ws, exp = [], {}
            for i, (f, t) in enumerate(zip(case['f'], tt)):
                w = WFC({'reftr_0': np.ones((1, 3))*(i + 1)}, header(3), dict(
                    freq_min=F[f][0], freq_max=F[f][1], tw_start=T[t][0],
                    tw_len=T[t][1]))
                if av:
                    w.compute_average()
                ws.append(w)
                exp.setdefault((sum(F[f])/2, T[t][0] + T[t][1]/2),
                               []).append(i + 1)
            b = WFCBulk(ws)
            got = {}
            if b.wfc.shape != (len(b.cfreq), len(b.lw)):
                res.fail('grid', f'shape {b.wfc.shape}')
                return
            for i, f in enumerate(b.cfreq):
                for j, t in enumerate(b.lw):
                    if not np.isnan(b.wfc[i, j]):
                        got[f, t] = b.wfc[i, j]
            res.count(transitions=1)
            if set(got) != set(exp) or any(
                    got[k] not in exp[k] for k in got) or \
                    list(b.cfreq) != sorted(set(k[0] for k in exp)) or \
                    list(b.lw) != sorted(set(k[1] for k in exp)):
                res.fail('grid', f'{case} {tt}: {got} instead of {exp}')
                return


def run_bulk(case, res):
    from seismic.correlate.stream import CorrBulk, read_corr_bulk
    n = case['n']
    s = header(n, lists=not case['one'])
    if not case['one']:
        s['channel'] = ['HHZ-HHN', 'HHZ-HHZ'][:n] + ['HHZ-HHE']*(n-2)
    x = np.cos(np.arange(n*41.)).reshape(n, 41)
    if n > 2:
        x[1] = np.nan
    cb = CorrBulk(x.copy(), s)
    if case['ref']:
        cb.extract_trace('mean')
    exp = dict(cb.stats)
    cur = cb
    with B.Scratch('c14') as d:
        for cyc in range(3):
            p = os.path.join(d, f'b{cyc}.npz')
            cur.save(p)
            cur = read_corr_bulk(p)
            res.count(transitions=2)
            if not np.array_equal(cur.data, x, equal_nan=True):
                res.fail('bulk', f'{case} cycle {cyc}: data differ')
                return
            y = cmp_stats(cur.stats, exp, skip=('location', 'channel'))
            if not y:
                for k in ('location', 'channel'):
                    a = cur.stats[k]
                    a = a if isinstance(a, str) else list(a)
                    if a != exp[k]:
                        y = f'{k}: {a} instead of {exp[k]}'
            if y:
                res.fail('bulk', f'{case} cycle {cyc}: {y}')
                return
        a = cur.create_corr_stream()
        b = cb.create_corr_stream()
        for t, u in zip(a, b):
            y = cmp_stats(t.stats, u.stats)
            if y or not np.array_equal(t.data, u.data, equal_nan=True):
                res.fail('bulk-stream', f'{case}: {y}')
                return


def run_mat(case, res):
    """files of the version for python 2"""
    from scipy.io import savemat, loadmat
    from obspy import UTCDateTime
    from seismic.utils.io import mat_to_corrtrace, corrmat_to_corrbulk
    n, npts, sr = case['n'], case['npts'], case['sr']
    x = np.cos(np.arange(n*npts)*.7).reshape(n, npts)
    zero = UTCDateTime(1971, 1, 1)
    st = [dict(network='N%d' % i, station='S%d' % i, location=case['loc'][i],
               channel='HH' + 'ZN'[i], starttime=str(B.utc(i)),
               endtime=str(B.utc(3600)), sampling_rate=10., npts=36001,
               delta=.1, calib=1.) for i in range(2)]
    cs = dict(network='N0-N1', station='S0-S1', location='00-00',
              channel='HHZ-HHN', sampling_rate=sr, delta=1/sr, npts=npts,
              starttime=str(zero + case['lag']),
              endtime=str(zero + case['lag'] + (npts - 1)/sr))
    times = [str(B.utc(3600.*i + .5)) for i in range(n)]
    with B.Scratch('c14') as d:
        p = os.path.join(d, 'old.mat')
        savemat(p, dict(corr_data=x, time=times, stats=cs))
        b = corrmat_to_corrbulk(p)
        res.count(transitions=1)
        lag = case['lag'] + np.arange(npts)/sr
        s = b.stats
        if not np.array_equal(b.data, x) or abs(
                s.start_lag - lag[0]) > 1e-6 or abs(
                s.end_lag - lag[-1]) > 1e-6 or s.sampling_rate != sr or \
                (s.network, s.station, s.channel, s.location) != (
                    'N0-N1', 'S0-S1', 'HHZ-HHN', '00-00') or \
                [UTCDateTime(t) for t in times] != list(s.corr_start):
            res.fail('mat-bulk', f'{case}: {s}')
            return
        cs = dict(cs, sampling_rate=10., delta=.1,
                  endtime=str(zero + case['lag'] + (npts - 1)/10.))
        savemat(p, dict(corr_trace=x[0], stats=cs, stats_tr1=st[0],
                        stats_tr2=st[1]))
        t = mat_to_corrtrace(loadmat(p))
        res.count(transitions=1)
        s = t.stats
        loc = '-'.join(x or '-' for x in case['loc'])
        if not np.array_equal(t.data, x[0]) or abs(
                s.start_lag - case['lag']) > 1e-6 or abs(
                s.end_lag - case['lag'] - (npts - 1)/10.) > 1e-6 or \
                (s.network, s.station, s.channel, s.location) != (
                    'N0-N1', 'S0-S1', 'HHZ-HHN', loc) or \
                s.corr_start != B.utc(1) or s.corr_end != B.utc(3600):
            res.fail('mat-trace', f'{case}: {s}')


def run_glob(case, res):
    """reading several files by pattern"""
    from seismic.monitor.dv import read_dv
    names = ['DV-A-A.S-S.HHZ-HHZ', 'DV-A-A.S-S.HHZ-HHN',
             'DV-A-A.S1-S1.HHZ-HHZ', 'DV-B-B.S-S.av']
    with B.Scratch('c14') as d:
        have = []
        for i, (nm, h) in enumerate(zip(names, case['have'])):
            if h:
                dv = make_dv(dict(n=2, nan='none', opt='none', proc=1,
                                  meth='stretch'))
                dv.stats.network = nm
                dv.save(os.path.join(d, nm))
                have.append(nm)
        import fnmatch
        for pat in ['*', 'DV-A-A.S-S.*', 'DV-?-?.S*-S*.HHZ-HHZ*',
                    'DV-*.HHZ-HH?.npz', 'DV-C*']:
            exp = [x for x in have if fnmatch.fnmatchcase(x + '.npz', pat)]
            try:
                got = read_dv(os.path.join(d, pat))
            except FileNotFoundError:
                got = []
            if not isinstance(got, list):
                got = [got]
            got = sorted(x.stats.network for x in got)
            res.count(transitions=1)
            if got != sorted(exp):
                res.fail('glob', f'{have}, {pat}: {got}')
                return


def run_case(case):
    res = Result()
    import warnings
    warnings.filterwarnings('ignore')
    with np.errstate(all='ignore'):
        {'dv': run_dv, 'wfc': run_wfc, 'grid': run_grid, 'bulk': run_bulk,
         'glob': run_glob, 'mat': run_mat}[case['kind']](case, res)
    res.count(traces=1)
    res.state(case)
    res.nontrivial = True
    res.see(case)
    res.sample = dict(case)
    return res
