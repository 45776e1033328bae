"""
Raw data with a higher sampling rate than the project: every sample keeps its
time, the signal below the new Nyquist frequency its shape.
"""
import itertools
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B, corrmodel as M      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    '(a) product of native rate x new rate x anti-alias filter x container '
    '(trace, stream) x length x offset of the first sample x type: monochrome '
    'signals below and above the new Nyquist frequency, and bursts at both '
    'ends; the times of signals in the resampled data are compared with the '
    'known ones, all variants with each other; (b) all streams of up to three '
    'traces of different rates: each is treated as if alone; (c) trimming by '
    'offsets: interval arithmetic on tables of samples; (d) complete runs, '
    'product of native rates of two stations x offset of the sample grids x '
    'gaps x true delay: the lag of the maximum is the delay. Non-trivial: '
    'data are resampled.')
ASSUMPTIONS = [
    'tolerance of one new sample where the factor is no integer or the '
    'samples are not on a common grid',
    'a delay by the causal anti-alias filter of at most 3.5 new samples, the '
    'same at all times, is accepted (documented filter)']
CHUNK = 4

RATES = [1, 1.5, 2, 2.5, 3, 4, 5, 10, 16, 20, 40, 3.7, 2.99, 4.02, 1.8]


def cases(tier):
    out = []
    new = [1., 2.5] if tier == 'quick' else [.5, 1., 2., 2.5, 10., 25.]
    for q, srn, filt, cont in itertools.product(
            RATES, new, [True, False], ['trace', 'stream', 'part']):
        out.append(dict(kind='func', q=q, srn=srn, filt=filt, cont=cont))
    pool = [.5, 1, 2, 3, 2.5]
    for k in (1, 2, 3):
        for c in itertools.product(pool, repeat=k):
            out.append(dict(kind='mix', rates=list(c)))
    for k in (1, 2, 3):
        for c in itertools.product(range(len(TRIM)), repeat=k):
            out.append(dict(kind='trim', trs=list(c)))
    nat = [(1, 1), (2, 2), (4, 4), (2.5, 2.5), (10, 10), (2, 4), (4, 10),
           (2.5, 4), (1, 2), (4, 1)]
    if tier == 'thorough':
        nat += [(5, 5), (20, 20), (3, 3), (1.5, 1.5), (5, 3), (10, 1)]
    for (a, b), pat, tau in itertools.product(
            nat, ['ff', 'gf', 'fg', 'gg', 'lf', 'hg'], [0, 3, -4.5]):
        for off in ((0, 0), (.25, 0), (0, .5), (.4, .1)):
            if off != (0, 0) and tier == 'quick' and (
                    tau == 3 or pat not in ('ff', 'gf')):
                continue
            out.append(dict(kind='run', rates=[a, b], pat=pat, tau=tau,
                            off=list(off)))
    return out


def resample(*a):
    from seismic.utils.miic_utils import resample_or_decimate
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return resample_or_decimate(*a)


def mk(x, sr, off, code='S', **kw):
    return B.trace('AA', code, 'HHZ', off, x, sr)


def run_func(case, res):
    from obspy import Stream
    srn = case['srn']
    sr = srn*case['q']
    res.nontrivial = sr != srn
    integer = abs(case['q'] - round(case['q'])) < 1e-9
    n0 = int(round(600*case['q']))
    ref = {}

    def treat(x, off, what):
        """resampled trace, or None after a violation"""
        x = np.array(x)
        tr = mk(x.copy(), sr, off)
        tr.stats.location = '07'
        if case['cont'] == 'trace':
            d = resample(tr, srn, case['filt'])
            r = tr
        else:
            st = Stream([tr])
            if case['cont'] == 'part':
                st += mk(np.arange(n0) % 17., sr, 5., 'T')
            d = resample(st, srn, case['filt'])
            if len(d) != 1 + (case['cont'] == 'part') or len(st) != len(d):
                res.fail('count', f'{case} {what}: {d}')
                return None
            r = st[0]
            d = d[0]
        for t in (r, d):
            s = t.stats
            if s.sampling_rate != srn:
                res.fail('rate', f'{case} {what}: {s.sampling_rate}')
                return None
            if abs(s.starttime - B.utc(off)) > 1e-6 or t.id != \
                    'AA.S.07.HHZ' or s.npts != len(t.data):
                res.fail('head', f'{case} {what}: {t}')
                return None
            last = B.utc(off) + (len(x) - 1)/sr
            if not -2/srn - 1e-6 < s.endtime - last < 1/srn - 1e-6 or (
                    integer and s.endtime - last > 1e-6):
                res.fail('end', f'{case} {what}: ends {s.endtime} instead '
                         f'of {last}')
                return None
        if not np.array_equal(r.data, d.data):
            res.fail('returned', f'{case} {what}: not what is in the stream')
            return None
        if sr == srn and not np.array_equal(r.data, x):
            res.fail('equal', f'{case} {what}: data changed')
            return None
        res.count(transitions=1)
        return r

    for extra, off, dtype in itertools.product(
            (0, 1, 2, 7), (0, .25/sr, .37, 86399.5), ('f8', 'f4', 'i4')):
        n = n0 + extra
        if extra > 1 and (off or dtype != 'f8'):
            continue
        t = np.arange(n)/sr
        what = f'{n} samples, offset {off}, {dtype}'
        tn = None
        # monochrome signals
        for f in (.03, .1, .2, .6, .9, 1.3):
            if f >= .5*case['q'] - .02:
                continue
            if .1 < f < .5 and (off or dtype != 'f8'):
                continue
            if f > .5 and not case['filt']:
                continue
            x = (1e6*np.cos(2*np.pi*f*(t*srn - 300))).astype(dtype)
            r = treat(x, off, what)
            if r is None:
                return
            tn = np.arange(r.stats.npts)
            m = (tn > 100) & (tn < 500)
            z = np.hanning(m.sum())
            if f > .5:
                if np.abs(r.data[m]).max() > 1e4:
                    res.fail('alias', f'{case} {what}: {f} of the new '
                             f'rate appears with amplitude '
                             f'{np.abs(r.data[m]).max()/1e6:.3g}')
                    return
                continue
            c = 2*(r.data[m]*z*np.exp(
                -2j*np.pi*f*(tn[m] - 300))).sum()/z.sum()/1e6
            delay = -np.angle(c)/2/np.pi/f
            if sr == srn or not case['filt']:
                lo, hi = (-.05, .05) if integer else (-.6, .6)
            elif integer:
                lo, hi = -.05, 3.5
            else:
                lo, hi = -.6, 4.1
            if delay < -1e-9 - 1 and f > .1:
                delay += 1/f
            if not lo - 1e-3 <= delay <= hi:
                res.fail('delay', f'{case} {what}: signal of {f} of the new '
                         f'rate is delayed by {delay:.3f} samples')
                return
            a = .97 if integer else .3 if extra or off else .75
            if not a < abs(c) < 1.03:
                res.fail('amplitude', f'{case} {what}: amplitude '
                         f'{abs(c):.3f} at {f}')
                return
            # the same, whatever offset, type, and container
            k = ref.setdefault((f, extra), c)
            if abs(k - c) > 1e-3:
                res.fail('variants', f'{case} {what}: {c} instead of {k}')
                return
        # bursts near both ends: no drift
        for p in (.12, .88):
            tc = p*600
            x = (1e6*np.exp(-((t*srn - tc)/8)**2)).astype(dtype)
            r = treat(x, off, what)
            if r is None:
                return
            tn = np.arange(r.stats.npts)
            y = np.clip(r.data, 0, None)**2
            d = (tn*y).sum()/y.sum() - tc
            lo, hi = (-.05, .05) if sr == srn or not case['filt'] else \
                (-.05, 3.5)
            if not integer:
                lo, hi = lo - 1, hi + 1
            if not lo <= d <= hi:
                res.fail('time', f'{case} {what}: burst at sample {tc} '
                         f'found {d:.3f} later')
                return
        res.state(case, extra, off, dtype)
    # never upwards
    tr = mk(np.arange(50.), srn*.8, 0)
    for data in (tr, Stream([tr])):
        try:
            resample(data, srn, case['filt'])
            res.fail('upwards', f'{case}: rate increased')
        except ValueError:
            pass
        if tr.stats.sampling_rate != srn*.8 or not np.array_equal(
                tr.data, np.arange(50.)):
            res.fail('upwards', f'{case}: refused, but changed')
    st = Stream()
    if len(resample(st, srn)) or st is None:
        res.fail('empty', 'empty stream')
    try:
        resample(np.arange(5.), srn)
        res.fail('type', 'array accepted')
    except TypeError:
        pass
    res.count(traces=1)


def run_mix(case, res):
    from obspy import Stream
    for srn in (1., 2.):
        def make():
            return [mk(B.noise(i+1, int(200*q) + 3*i).astype('f8'), float(q),
                       7.*i, f'S{i}') for i, q in enumerate(case['rates'])]
        st = Stream(make())
        alone = make()
        low = [tr.stats.sampling_rate < srn for tr in alone]
        same = len(set(case['rates'])) == 1
        for tr, lo in zip(alone, low):
            if not lo:
                resample(tr, srn)
        try:
            out = resample(st, srn)
        except ValueError:
            if not (same and low[0]):
                res.fail('mix-refused', f'{case} {srn}')
                return
            out = st
        else:
            if same and low[0]:
                res.fail('mix-upwards', f'{case} {srn}')
                return
        if len(out) != len(alone) or len(st) != len(alone):
            res.fail('mix-count', f'{case} {srn}: {out}')
            return
        for a, b in zip(out, alone):
            if a.id != b.id or a.stats.starttime != b.stats.starttime or \
                    a.stats.sampling_rate != b.stats.sampling_rate or \
                    a.data.shape != b.data.shape or \
                    not np.allclose(a.data, b.data, rtol=1e-9, atol=1e-6):
                res.fail('mix', f'{case} {srn}: {a} instead of {b}')
                return
        res.count(transitions=1)
        res.state(case['rates'], srn)
    res.nontrivial = len(set(case['rates'])) > 1
    res.count(traces=1)


# number of samples, rate, start
TRIM = [(41, 1., 0.), (41, 2., 3.), (11, 4., 100.25)]


def run_trim(case, res):
    from obspy import Stream
    from seismic.utils.miic_utils import trim_stream_delta, trim_trace_delta
    for a, b, pad in itertools.product(
            (0, 1, 2.5, -2, 9), (0, 1, 4, -3, 30), (False, True)):
        st = Stream([mk(np.arange(float(TRIM[i][0])) + 100*k, TRIM[i][1],
                        TRIM[i][2], f'S{k}')
                     for k, i in enumerate(case['trs'])])
        trs = st.traces[:]
        try:
            if len(trs) == 1:
                trim_trace_delta(trs[0], a, b, pad=pad)
            else:
                trim_stream_delta(st, a, b, pad=pad)
        except ValueError:
            # nothing would be left
            if all((TRIM[i][0] - 1)/TRIM[i][1] > a + b for i in case['trs']):
                res.fail('trim-refused', f'{case} {a} {b}')
                return
            continue
        for k, (i, tr) in enumerate(zip(case['trs'], trs)):
            n, sr, t0 = TRIM[i]
            if abs(a*sr - round(a*sr)) > 1e-9:
                continue    # between samples
            i0, i1 = round(a*sr), n - 1 - round(b*sr)
            if not pad:
                i0, i1 = max(i0, 0), min(i1, n-1)
            e = [float(j) + 100*k if 0 <= j < n else None
                 for j in range(i0, i1+1)]
            d = np.ma.masked_invalid(np.ma.asarray(tr.data))
            g = [None if x is np.ma.masked else float(x) for x in d]
            if not e:
                if len(g):
                    res.fail('trim-rest', f'{case} {a} {b} {pad}: {g}')
                    return
                continue
            if g != e or abs(tr.stats.starttime - B.utc(
                    t0 + i0/sr)) > 1e-6:
                res.fail('trim', f'{case} {a} {b} pad {pad}: {g} from '
                         f'{tr.stats.starttime} instead of {e}')
                return
            res.count(transitions=1)
        res.state(case, a, b, pad)
    res.nontrivial = True
    res.count(traces=1)


_F = np.random.RandomState(3).uniform(.03, .3, 60)
_P = np.random.RandomState(4).uniform(0, 2*np.pi, 60)


def signal(t):
    """band-limited ground motion at any time"""
    return np.cos(2*np.pi*np.outer(t, _F) + _P).sum(axis=1)


def run_run(case, res):
    T, srn = 480, 1.
    gaps = {'f': None, 'g': (150, 165), 'l': (-100, 47), 'h': (90, 91.5)}
    with B.Scratch('c26') as d:
        for i, (q, p) in enumerate(zip(case['rates'], case['pat'])):
            sr = float(q)
            # offset in samples of the new rate
            t = -60 + case['off'][i] + np.arange(int((T + 120)*sr))/sr
            x = (1000*signal(t - case['tau']*i)).astype(np.int32)
            parts = [np.ones(len(t), bool)]
            if gaps[p]:
                a, b = gaps[p]
                parts = [t < a, t > b]
            for m in parts:
                if m.any():
                    B.write_sds(d, B.trace(('AA', 'BB')[i], 'S', 'HHZ',
                                           t[m][0], x[m], sr))
        o = B.options(
            d, '*', '*', 0, T, read_len=240, read_inc=240, corr_len=120,
            corr_inc=120, sr=srn, length=20, method='betweenStations')
        B.run_corr(d, o)
        got, hdr = M.read_real(d + '/corr')
    n = len([k for k in got if k[0] == 'subdivision'])
    if n != 4:
        res.fail('run-windows', f'{case}: {n} windows of 4')
        return
    a, b = case['rates']
    off = case['off']
    exact = off[0] == off[1] == 0 and all(
        q == int(q) for q in (a, b)) and case['pat'] == 'ff'
    mixed = (a == 1) != (b == 1)
    for k, x in got.items():
        h = hdr[k]
        if abs(h['start_lag'] + 20) > 1e-6 or h['sampling_rate'] != srn or \
                len(x) != 41:
            res.fail('run-head', f'{case} {k}: {h["start_lag"]}, '
                     f'{h["sampling_rate"]}, {len(x)}')
            return
        i = int(np.argmax(x))
        lag = i - 20.
        if 0 < i < 40:
            y0, y1, y2 = x[i-1:i+2]
            lag += .5*(y0 - y2)/(y0 - 2*y1 + y2)
        err = lag - case['tau']
        tol = 1.1 if not exact else .25 if a == b else .7
        if mixed and abs(err) > tol:
            # delay of the filter of the one that is resampled
            e = err*(1 if b != 1 else -1)
            if not 0 < e < 3.5 + (0 if exact else 1):
                res.fail('run-lag-mixed', f'{case} {k}: maximum at {lag:.2f}')
                return
            res.fail('mixed-native', f'{case} {k}: maximum at {lag:.2f}')
            continue
        if x[i] < .35 and case['pat'] != 'ff':
            res.count(transitions=1)
            continue    # too little common data
        if abs(err) > tol or x[i] < .35:
            res.fail('run-lag', f'{case} {k}: maximum of {x[i]:.2f} at '
                     f'{lag:.2f}')
            return
        res.count(transitions=1)
        res.state(case, k)
    res.nontrivial = (a, b) != (1, 1)
    res.count(traces=1)


def run_case(case):
    res = Result()
    warnings.filterwarnings('ignore')
    with np.errstate(all='ignore'):
        globals()['run_' + case['kind']](case, res)
    res.see(case)
    res.sample = dict(case)
    return res
