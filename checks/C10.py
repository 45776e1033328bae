"""
What is stored in a correlation database is read back unchanged: data and
header for every day of the year, lag axis, and type of header entry.
"""
import itertools
import os
import warnings

import numpy as np

from mc import build as B
from mc.core import Result
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'all days of the years (leap, non-leap, around 1970 and 2000) x times of '
    'day x window lengths up to and beyond a day; product of lag axes (number '
    'of samples, sampling rate, first lag) x data types x compression; types '
    'of header entries; file names. Each entry is written, the file closed, '
    'read by all access paths and compared. Non-trivial: all.')
ASSUMPTIONS = ['times are kept to 0.1 ms (the resolution of the format)']
TOD = [0, 1, 59, 3599.5, 43200.1234, 86399, 86399.9999]
CHUNK = 2


def cases(tier):
    out = []
    years = [1969, 1970, 1999, 2000, 2012, 2015, 2016, 2024] \
        if tier == 'quick' else list(range(1960, 2041))
    for y in years:
        out.append(dict(kind='days', year=y, tod=TOD if tier == 'thorough'
                        else [0, 43200.1234, 86399.9999],
                        lens=[10, 86398, 86400*40] if tier == 'thorough'
                        else [10, 86400*40]))
    for dt, comp in itertools.product(
            ['f8', 'f4', 'i4', '>f8', 'i8'],
            ['gzip3', 'gzip1', 'gzip9', 'gzip0', 'gzip12', None]):
        out.append(dict(kind='lag', dtype=dt, comp=comp))
    for name in ('A-A.1-1.h5', 'A-A.1-1', 'x', 'some.dir/A-A.1-10'):
        out.append(dict(kind='name', name=name))
    out.append(dict(kind='header'))
    return out


def run_case(case):
    warnings.simplefilter('ignore')
    res = Result()
    with B.Scratch('c10') as d:
        globals()['case_' + case['kind']](res, case, d)
    return res


CO = {'sampling_rate': 2, 'preProcessing': [], 'subdivision': {},
      'corr_args': {}}


def tr(x, t0, t1, sr=2., lag=-1., **kw):
    from obspy.core import Stats
    from seismic.correlate.stream import CorrTrace
    t = CorrTrace(x, _header=Stats(dict(
        network='A-A', station='1-2', channel='HHZ-HHZ', location='00-10',
        sampling_rate=sr)))
    t.stats['corr_start'] = t0
    t.stats['corr_end'] = t1
    t.stats['start_lag'] = lag
    for k, v in kw.items():
        t.stats[k] = v
    return t


def same(a, b, where, res):
    """headers and data"""
    ok = a.data.tobytes() == b.data.tobytes() \
        and a.data.dtype == b.data.dtype
    res.expect(ok, f'data:{where}', f'data {a.data} {b.data}')
    for k in set(a.stats) | set(b.stats):
        x, y = a.stats.get(k), b.stats.get(k)
        if k in ('corr_start', 'corr_end', 'starttime', 'endtime'):
            ok = abs(x - y) < 1e-4
        elif isinstance(x, float) or isinstance(y, float):
            ok = np.isclose(x, y, rtol=1e-12, atol=0)
        elif isinstance(x, (list, tuple, np.ndarray)):
            ok = list(x) == list(y)
        else:
            ok = x == y
        res.expect(ok, f'header:{where}:{k}', f'{k}: {x!r} {y!r}')


def case_days(res, case, d):
    from obspy import UTCDateTime
    from seismic.db.corr_hdf5 import CorrelationDataBase
    from seismic.correlate.stream import CorrStream
    fn = os.path.join(d, 'A-A.1-2.h5')
    y = case['year']
    ndays = 366 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365
    day0 = UTCDateTime(y, 1, 1)
    st = CorrStream()
    for i, tod, ln in itertools.product(
            range(ndays), case['tod'], case['lens']):
        t = day0 + i*86400 + tod
        st.append(tr(np.arange(3.)*i, t, t+ln))
    # independent anchor of the calendar
    for i in (0, 31, 58, 59, 60, ndays-1):
        import datetime
        dd = datetime.date(y, 1, 1) + datetime.timedelta(days=i)
        t = st[i*len(case['tod'])*len(case['lens'])].stats.corr_start
        res.expect((t.year, t.month, t.day) == (dd.year, dd.month, dd.day),
                   'calendar', f'{t} {dd}')
    with CorrelationDataBase(fn, corr_options=CO) as db:
        db.add_correlation(st, 'subdivision')
    with CorrelationDataBase(fn, mode='r') as db:
        out = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision')
        sst = db.get_available_starttimes('A-A', '1-2', 'subdivision')
        res.expect(len(out) == len(st), 'number',
                   f'{len(out)} of {len(st)} entries in {y}')
        key = {(round(o.stats.corr_start.timestamp, 4),
                round(o.stats.corr_end - o.stats.corr_start)): o for o in out}
        stamps = {round(UTCDateTime(s).timestamp, 4)
                  for s in sst['HHZ-HHZ']}
        for i, a in enumerate(st):
            s = a.stats
            k = (round(s.corr_start.timestamp, 4),
                 round(s.corr_end - s.corr_start))
            b = key.get(k)
            res.transitions += 1
            res.state(str(s.corr_start), str(s.corr_end))
            if not res.expect(b is not None, 'lost', f'{s.corr_start}'):
                continue
            same(a, b, 'days', res)
            res.expect(k[0] in stamps, 'starttimes', f'{s.corr_start}')
            if i % 7 == 0 or i >= len(st) - 20:
                one = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                                  s.corr_start, s.corr_end)
                if res.expect(len(one) == 1, 'exact', f'{s.corr_start}'):
                    same(a, one[0], 'exact', res)
                one = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                                  s.corr_start)
                res.expect(len(one) == len(case['lens']), 'bystart',
                           f'{s.corr_start} {len(one)}')
    res.traces += 1
    res.see(y, len(st))


def case_lag(res, case, d):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    fn = os.path.join(d, 'A-A.1-2.h5')
    k = 0
    ref = []
    grid = list(itertools.product(
        (1, 2, 5, 8, 101), (1., 2., 3., 25., 1/3., 0.1),
        (-50., 0., 0.5, -1/3., 1e-3, -12.125)))
    with CorrelationDataBase(fn, corr_options=CO,
                             compression=case['comp']) as db:
        for n, sr, lag in grid:
            r = np.random.RandomState(k)
            x = (r.randn(n)*1000).astype(case['dtype'])
            if case['dtype'][-2] == 'f' and n > 3:
                x[1] = np.nan if k % 3 == 0 else 1e-30
                x[2] = np.inf if k % 5 == 0 else -0.
            a = tr(x, B.utc(k), B.utc(k+10), sr, lag)
            ref.append(a)
            db.add_correlation(a)
            k += 1
    with CorrelationDataBase(fn, mode='r') as db:
        for i, a in enumerate(ref):
            b = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                            B.utc(i), B.utc(i+10))[0]
            res.transitions += 1
            res.state(case, i)
            x, y = a.data, b.data
            res.expect(x.shape == y.shape and x.dtype == y.dtype
                       and x.tobytes() == y.tobytes(), 'lag:data',
                       f'{case} {x[:5]} {y[:5]}')
            a.data = b.data
            same(a, b, 'lag', res)
            t = b.times()
            lag = grid[i][2] + np.arange(len(x))/grid[i][1]
            res.expect(np.allclose(t, lag, atol=1e-9), 'lag:axis',
                       f'{t[:3]} {lag[:3]}')
    res.traces += 1
    res.see(case)


def case_name(res, case, d):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    os.makedirs(os.path.join(d, 'some.dir'))
    fn = os.path.join(d, case['name'])
    a = tr(np.arange(5.), B.utc(0), B.utc(5))
    with CorrelationDataBase(fn, corr_options=CO) as db:
        db.add_correlation(a)
    with CorrelationDataBase(fn, mode='r') as db:
        same(a, db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision')[0],
             'name', res)
    fs = [f for _, _, ff in os.walk(d) for f in ff]
    res.expect(len(fs) == 1 and fs[0].endswith('.h5'), 'name', f'{fs}')
    res.state(case)
    res.transitions += 1
    res.traces += 1


def case_header(res, case, d):
    from obspy import UTCDateTime
    from seismic.db.corr_hdf5 import CorrelationDataBase
    fn = os.path.join(d, 'A-A.1-2.h5')
    kws = [
        dict(stla=1.5, stlo=-2., stel=0., evla=np.float64(3.), evlo=4,
             evel=np.float32(5.), dist=12.345, az=0., baz=360.),
        dict(processing=[]), dict(processing=['one']),
        dict(processing=['a'*300, "quote ' \" and ü", '']*20),
        dict(flag=True, other=False), dict(name='ä/b c'), dict(empty=''),
        dict(ints=[1, 2, 3]), dict(arr=np.arange(4.)),
        dict(big=2**40, neg=-1), dict(location='-'), dict(calib=2.5),
        dict(_FORMAT='x')]
    for i, kw in enumerate(kws):
        a = tr(np.arange(4.), B.utc(i), B.utc(i+5), **kw)
        with CorrelationDataBase(fn, corr_options=CO) as db:
            db.add_correlation(a)
        with CorrelationDataBase(fn, mode='r') as db:
            b = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                            B.utc(i), B.utc(i+5))[0]
        same(a, b, 'header', res)
        if 'processing' in kw:
            res.expect(list(b.stats.processing) == kw['processing'] and
                       isinstance(b.stats.processing, list), 'processing',
                       f'{b.stats.processing!r} of {kw}')
        # once more through the file: nothing drifts
        with CorrelationDataBase(fn + '2.h5', corr_options=CO) as db:
            db.add_correlation(b)
        with CorrelationDataBase(fn + '2.h5', mode='r') as db:
            c = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                            B.utc(i), B.utc(i+5))[0]
        same(b, c, 'twice', res)
        res.expect(isinstance(b.stats.corr_start, UTCDateTime), 'type',
                   'time is not a UTCDateTime')
        res.transitions += 2
        res.state(kw)
    # entries that cannot be stored do not cost the others
    a = tr(np.arange(4.), B.utc(1000), B.utc(1005), odd={'a': 1}, dist=3.)
    with CorrelationDataBase(fn, corr_options=CO) as db:
        db.add_correlation(a)
    with CorrelationDataBase(fn, mode='r') as db:
        b = db.get_data('A-A', '1-2', 'HHZ-HHZ', 'subdivision',
                        B.utc(1000), B.utc(1005))[0]
        res.expect(b.stats.dist == 3. and b.stats.npts == 4, 'odd', f'{b}')
    res.traces += 1
