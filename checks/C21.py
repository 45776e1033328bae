"""
Preprocessing treats every trace on its own.
"""
import copy
import itertools
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'all tuples of up to 3 (thorough 4) rows from an alphabet (noise, dead, '
    'constant, spike, ramp, tiny, partly not a number, clipped) x every '
    'preprocessing function of time and frequency domain x arguments x '
    'number of samples (even, odd) x data type: each row has to equal the '
    'result of the row alone and an independent reimplementation, arguments '
    'have to stay unchanged, finite rows have to stay finite. Streams: all '
    'sequences of traces with known, other, and missing responses and '
    'orientations; each trace has to equal the result of the trace alone. '
    'Non-trivial: at least two different rows.')
ASSUMPTIONS = ['13 to 97 samples at 4 Hz']
CHUNK = 64
SR = 4.
ROWS = ['noise', 'dead', 'const', 'spike', 'ramp', 'tiny', 'noise2', 'nan',
        'gone']

TD = [
    ('clip', dict(std_factor=1.)), ('clip', dict(std_factor=2.5)),
    ('detrend', {}), ('detrend', dict(method='qr', type='constant')),
    ('detrend', dict(method='scipy')),
    ('detrend_scipy', dict(type='constant')),
    ('mute', dict(taper_len=1., std_factor=1.5, extend_gaps=True)),
    ('mute', dict(taper_len=1., threshold=300, extend_gaps=False)),
    ('mute', dict(taper_len=2., extend_gaps=True)),
    ('mute', dict(taper_len=1., std_factor=1.5, extend_gaps=True,
                  filter=dict(type='bandpass', freqmin=.3, freqmax=1.))),
    ('mute', dict(taper_len=99., std_factor=1., extend_gaps=True)),
    ('mute', dict(taper_len=6., threshold=3000., extend_gaps=False)),
    ('normalizeStandardDeviation', {}),
    ('signBitNormalization', {}),
    ('taper', dict(type='cosine_taper', p=.2)),
    ('TDnormalization', dict(windowLength=2.1, filter=None)),
    ('TDnormalization', dict(windowLength=1., filter=dict(
        type='bandpass', freqmin=.3, freqmax=1.))),
    ('TDfilter', dict(type='bandpass', freqmin=.3, freqmax=1.)),
    ('TDfilter', dict(type='lowpass', freq=.7, zerophase=True)),
    ('TDfilter', dict(type='highpass', freq=.4, corners=2)),
    ('TDfilter', dict(type='bandstop', freqmin=.3, freqmax=.6)),
    ('zeroPadding', dict(type='nextFastLen')),
    ('zeroPadding', dict(type='avoidWrapAround')),
    ('zeroPadding', dict(type='avoidWrapFastLen')),
]
FD = [
    ('FDfilter', dict(flimit=[.2, .4, 1., 1.3])),
    ('FDsignBitNormalization', {}),
    ('spectralWhitening', {}),
    ('spectralWhitening', dict(joint_norm=False)),
    ('spectralWhitening', dict(joint_norm=True)),
]


def cases(tier):
    out = []
    full = tier != 'quick'
    for i in range(len(TD)):
        for k in (1, 2, 3) if full else (1, 2):
            for c in itertools.product(range(len(ROWS)), repeat=k):
                out.append(dict(kind='td', f=i, rows=list(c)))
        if not full:
            for c in itertools.product((0, 1, 3), repeat=3):
                out.append(dict(kind='td', f=i, rows=list(c)))
    nf = len(ROWS) - 2
    for i in range(len(FD)):
        joint = FD[i][1].get('joint_norm')
        for k in (1, 2, 3, 4) if full else (1, 2, 3):
            if joint and k != 3:
                continue
            for c in itertools.product(range(nf), repeat=k):
                out.append(dict(kind='fd', f=i, rows=list(c)))
        if joint:
            for c in itertools.product((0, 1, 3), repeat=3):
                for c2 in ((0, 0, 0), (1, 1, 1), (1, 6, 5)):
                    out.append(dict(kind='fd', f=i, rows=list(c + c2)))
    for k in (1, 2, 3):
        for c in itertools.product(range(len(TRS)), repeat=k):
            out.append(dict(kind='pol', trs=list(c)))
    for k in (1, 2, 3) if full else (1, 2):
        for c in itertools.permutations(range(len(TRS)), k):
            for known in ([], [0], [1], [0, 1]):
                out.append(dict(kind='resp', trs=list(c), known=known))
    return out


def row(name, n):
    i = np.arange(n)
    if name in ('noise', 'noise2'):
        r = np.random.RandomState(3 if name == 'noise' else 8)
        return r.randint(-500, 500, n)*1.
    if name == 'dead':
        return np.zeros(n)
    if name == 'const':
        return np.full(n, 5.)
    if name == 'spike':
        x = row('noise', n)[::-1]*.1
        x[n//3] = 4000.
        return x
    if name == 'ramp':
        return 7.*i - 100
    if name == 'tiny':
        return np.sin(i*1.7)*1e-9
    if name == 'gone':
        return np.full(n, np.nan)
    x = row('noise2', n)
    x[5:9] = np.nan
    return x


def params(n=None):
    p = dict(sampling_rate=SR, lengthToSave=5)
    if n:
        p['freqs'] = np.fft.rfftfreq(n, 1/SR)
    return p


def smooth(x, w):
    """mean over w samples, zeros outside, alignment of numpy"""
    return np.convolve(x, np.ones(w)/w, mode='same')


def filt(x, f):
    from obspy.signal import filter as of
    f = dict(f)
    return getattr(of, f.pop('type'))(x, df=SR, **f)


def expected_td(name, a, x):
    """reimplementation for one row; None if not defined"""
    from scipy.fftpack import next_fast_len
    n = len(x)
    if name == 'clip':
        t = a['std_factor']*np.nanstd(x)
        return np.where(np.isnan(x), x, np.minimum(np.maximum(x, -t), t))
    if name in ('detrend', 'detrend_scipy'):
        ok = ~np.isnan(x)
        if a.get('type') == 'constant':
            return x - x[ok].mean()
        if not ok.all() and a.get('method') != 'scipy':
            return None
        c = np.polyfit(np.arange(ok.sum()), x[ok], 1)
        out = x.copy()
        out[ok] -= np.polyval(c, np.arange(ok.sum()))
        return out
    if np.isnan(x).any():
        return None
    if name == 'normalizeStandardDeviation':
        s = np.std(x)
        return x/(s or 1)
    if name == 'signBitNormalization':
        return np.sign(x)
    if name == 'TDfilter':
        return filt(x, a)
    if name == 'TDnormalization':
        b = (filt(x, a['filter']) if a['filter'] else x)**2
        w = int(np.ceil(a['windowLength']*SR))
        b = smooth(smooth(b, w)[::-1], w)[::-1]
        b = b + b.max()*1e-6
        return x/np.sqrt(b) if b.max() > 0 else x
    if name == 'zeroPadding':
        k = {'nextFastLen': next_fast_len(n),
             'avoidWrapAround': n + int(SR*5),
             'avoidWrapFastLen': next_fast_len(n + int(SR*5))}[a['type']]
        return np.concatenate((x, np.zeros(k - n)))
    if name == 'taper':
        from obspy.signal.invsim import cosine_taper
        return x*cosine_taper(n, a['p'])
    return None


def muted(res, case, a, x, y):
    n = len(x)
    nt = int(a['taper_len']*SR)
    if nt >= n:
        if y.any():
            res.fail('mute-long', f'{case}: not muted')
        return
    c = filt(x, a['filter']) if 'filter' in a else x
    t = a.get('threshold', np.std(c)*a.get('std_factor', 1))
    over = np.flatnonzero(np.abs(c) > t)
    if len(over) and np.abs(y[over]).max() > 1e-9*np.abs(x).max():
        # without extension the gap has to be as long as the taper
        if a['extend_gaps']:
            res.fail('mute-over', f'{case}: {y[over]} not muted')
    d = np.full(n, n) if not len(over) else np.min(
        np.abs(np.arange(n)[:, None] - over), axis=1)
    # with extension, what lies outside counts as muted
    end = nt if a['extend_gaps'] else nt//2 + 1
    far = (d > nt + 1) & (np.arange(n) > end) & (
        np.arange(n) < n - end - 1)
    if not np.allclose(y[far], x[far], rtol=1e-5):
        res.fail('mute-far', f'{case}: changed far from large values')
    if (np.abs(y) > np.abs(x)*(1 + 1e-5) + 1e-12).any() or (y*x < 0).any():
        res.fail('mute-gain', f'{case}: amplified')


def same(x, y, tol):
    return x.shape == y.shape and np.allclose(
        x, y, rtol=tol, atol=tol*max(1e-12, np.nanmax(np.abs(y), initial=0)),
        equal_nan=True)


def run_td(case, res):
    from seismic.correlate import preprocessing_td as pptd
    name, args = TD[case['f']]
    f = getattr(pptd, name)
    res.nontrivial = len(set(case['rows'])) > 1
    for n, dtype in itertools.product(
            (13, 40, 41, 97), (np.float64, np.float32)):
        A = np.array([row(ROWS[i], n) for i in case['rows']], dtype=dtype)
        a, p = copy.deepcopy(args), params()
        out = f(A.copy(), a, p)
        res.count(transitions=1)
        if a != args or p != params():
            res.fail('td-args', f'{name} changes its arguments: {a} {p}')
        if len(out) != len(A):
            res.fail(f'td-rows-{name}', f'{case}: {out.shape}')
            return
        for i, r in enumerate(case['rows']):
            one = f(A[i:i+1].copy(), copy.deepcopy(args), params())[0]
            tol = 1e-9 if dtype == np.float64 else 1e-4
            if not same(out[i], one, tol):
                res.fail(f'td-other-{name}', f'{name} {args} {n} {dtype}: '
                         f'row {ROWS[r]} of {[ROWS[k] for k in case["rows"]]}'
                         ' depends on the others')
                return
            if ROWS[r] not in ('nan', 'gone') and not np.isfinite(out[i]).all():
                res.fail(f'td-nan-{name}', f'{name} {args} {n}: row '
                         f'{ROWS[r]} becomes {out[i]}')
                return
            if dtype != np.float64 or len(case['rows']) > 1:
                continue
            x = row(ROWS[r], n)
            if ROWS[r] == 'gone':
                if out[i, :n].any() and not np.isnan(out[i, :n]).all():
                    res.fail(f'td-gone-{name}', f'{name}: {out[i]}')
                continue
            e = expected_td(name, args, x)
            scale = max(np.nanmax(np.abs(x)), 1e-9)
            if e is not None:
                at = 1e-7*scale if name != 'normalizeStandardDeviation' \
                    else 1e-7
                if name == 'TDnormalization':
                    at = 1e-7
                if out[i].shape != e.shape or not np.allclose(
                        out[i], e, rtol=1e-6, atol=at, equal_nan=True):
                    if not (name.startswith('norm') and ROWS[r] == 'const'):
                        res.fail(f'td-value-{name}', f'{name} {args} {n} '
                                 f'{ROWS[r]}: {out[i]} instead of {e}')
            if name == 'mute' and ROWS[r] not in ('nan', 'gone'):
                muted(res, case, args, x, out[i])
        res.see(name, tuple(case['rows']))


def run_fd(case, res):
    from seismic.correlate import preprocessing_fd as ppfd
    name, args = FD[case['f']]
    f = getattr(ppfd, name)
    res.nontrivial = len(set(case['rows'])) > 1
    joint = bool(args.get('joint_norm'))
    step = 3 if joint else 1
    for n, dtype in itertools.product(
            (14, 40, 45, 97), (complex, np.csingle)):
        x = np.array([row(ROWS[i], n) for i in case['rows']])
        A = np.fft.rfft(x, axis=1).astype(dtype)
        a, p = copy.deepcopy(args), params(n)
        out = f(A.copy(), a, p)
        res.count(transitions=1)
        q = params(n)
        if a != args or set(p) != set(q) or not np.array_equal(
                p['freqs'], q['freqs']):
            res.fail('fd-args', f'{name} changes its arguments')
        if out.shape != A.shape:
            res.fail(f'fd-shape-{name}', f'{case}: {out.shape}')
            return
        for i, r in enumerate(case['rows']):
            g = i - i % step
            one = f(A[g:g+step].copy(), copy.deepcopy(args), params(n))[i - g]
            if not same(out[i], one, 1e-9 if dtype == complex else 1e-4):
                res.fail(f'fd-other-{name}', f'{name} {args} {n} {dtype}: '
                         f'row {i} of {[ROWS[k] for k in case["rows"]]} '
                         'depends on the others')
                return
            if not np.isfinite(out[i]).all():
                res.fail(f'fd-nan-{name}', f'{name} {n} row {ROWS[r]}: '
                         f'{out[i]}')
                return
            if dtype != complex or ROWS[r] in ('const', 'ramp', 'dead'):
                continue
            if name == 'FDsignBitNormalization':
                e = np.fft.rfft(np.sign(x[i]))
                if ROWS[r] == 'tiny' or not np.allclose(
                        np.sign(np.fft.irfft(A[i], n)), np.sign(x[i])):
                    continue
                if not np.allclose(out[i], e, atol=1e-6*n):
                    res.fail('fd-value-sign', f'{case} {n}: not the spectrum '
                             'of the sign')
            elif name == 'FDfilter':
                fr = params(n)['freqs']
                lo, a1, a2, hi = args['flimit']
                if not np.allclose(out[i][(fr > a1) & (fr < a2)],
                                   A[i][(fr > a1) & (fr < a2)]) \
                        or np.abs(out[i][(fr < lo) | (fr > hi)]).max() > \
                        1e-6*np.abs(A[i]).max():
                    res.fail('fd-value-filter', f'{case} {n}')
                # the tapers in between: real, in [0, 1], and monotonous
                # (and those of another row)
                ok = np.abs(A[i]) > 1e-6*np.abs(A[i]).max()
                q = (out[i]/np.where(ok, A[i], 1))[ok]
                fq = fr[ok]
                up, down = q.real[fq < a2], q.real[fq > a1]
                if np.abs(q.imag).max() > 1e-9 or q.real.min() < -1e-9 or \
                        q.real.max() > 1 + 1e-9 or \
                        np.diff(up).min(initial=0) < -1e-9 or \
                        np.diff(down).max(initial=0) > 1e-9:
                    res.fail('fd-value-taper', f'{case} {n}: {q}')
            elif not joint:
                e = A[i]/np.abs(A[i])
                if not np.allclose(out[i][1:], e[1:], atol=1e-6):
                    res.fail('fd-value-white', f'{case} {n}: not white')
            elif n == 40:
                m = np.abs(A[g:g+3]).mean(axis=0)
                e = A[i]/m
                if not np.allclose(out[i][1:], e[1:], atol=1e-6):
                    res.fail('fd-value-joint', f'{case} {n}')
        res.see(name, tuple(case['rows']))


# station, channel, dip
TRS = [('S1', 'HHZ', 90.), ('S2', 'HHZ', -90.), ('S1', 'HHN', 0.),
       ('S3', 'HHZ', None)]


def inv(trs):
    from obspy.core.inventory import (
        Inventory, Network, Station, Channel, Site, Response)
    stas = {}
    for s, c, dip in trs:
        stas.setdefault(s, []).append(Channel(
            code=c, location_code='00', latitude=1., longitude=2.,
            elevation=3., depth=0., azimuth=0., dip=dip, sample_rate=SR,
            response=Response.from_paz(
                [0], [-1.2, -.8] if s == 'S1' else [-.5], 1.)))
    return Inventory(networks=[Network(code='A', stations=[Station(
        code=s, latitude=1., longitude=2., elevation=3., site=Site(name=s),
        channels=c) for s, c in stas.items()])], source='verif')


def run_pol(case, res):
    from obspy import Stream
    from seismic.utils.miic_utils import correct_polarity
    iv = inv([t for t in TRS if t[2] is not None])
    st = Stream()
    exp = []
    for k, i in enumerate(case['trs']):
        s, c, dip = TRS[i]
        x = row('noise', 20) + k
        st.append(B.trace('A', s, c, 10*k, x.copy(), SR))
        exp.append(-x if c == 'HHZ' and (dip or 0) > 0 else x)
    res.nontrivial = len(set(case['trs'])) > 1
    res.count(transitions=1)
    try:
        correct_polarity(st, iv)
    except Exception as e:
        if not any(TRS[i][2] is None for i in case['trs']):
            res.fail('pol-error', f'{case}: {e!r}')
            return
    res.see(tuple(case['trs']))
    for tr, x, i in zip(st, exp, case['trs']):
        if not np.array_equal(tr.data, x):
            res.fail('pol', f'{[TRS[j] for j in case["trs"]]}: polarity of '
                     f'{TRS[i]} is wrong')


class Client(object):
    """store client with a part of the inventory"""
    def __init__(self, known):
        from obspy import Inventory
        t = [TRS[i] for i in range(len(TRS)) if TRS[i][2] is not None
             and int(TRS[i][0][1]) - 1 in known]
        self.inventory = inv(t) if t else Inventory()
        self.rclient = self
        self.asked = []

    def get_stations(self, network=None, station=None, level=None, **kw):
        self.asked.append(station)
        return B.reduced(
            inv([t for t in TRS if t[0] == station or station == '*'])
            if station != 'S3' else inv([('S3', 'HHZ', -90.)]), level)

    def _write_inventory(self, ninv):
        self.inventory += ninv


def run_resp(case, res):
    from obspy import Stream
    from seismic.correlate.correlate import preprocess_stream

    def make(ids):
        st = Stream()
        for i in ids:
            s, c, dip = TRS[i]
            st.append(B.trace('A', s, c, 0, row('noise', 400) + i*row(
                'noise2', 400), SR))
        return st

    def go(ids, client):
        out = preprocess_stream(
            make(ids), client, B.utc(0), B.utc(399/SR), 2., True,
            dict(corr_len=50, corr_inc=50), [])
        return {tr.id: np.ma.filled(np.ma.array(tr.data, dtype=float),
                                    np.nan) for tr in out}
    known = [0, 1]
    exp = {}
    for i in case['trs']:
        c = Client(known)
        exp.update(go([i], c))
    c = Client(case['known'])
    res.count(transitions=1)
    res.nontrivial = len(case['trs']) > 1
    got = go(case['trs'], c)
    if set(got) != set(exp):
        res.fail('resp-set', f'{case}: {sorted(got)}')
        return
    for k in exp:
        s = np.nanmax(np.abs(exp[k]))
        if not np.allclose(got[k], exp[k], rtol=1e-6, atol=1e-6*s,
                           equal_nan=True):
            res.fail('resp', f'{[TRS[i] for i in case["trs"]]}, known '
                     f'{case["known"]}: {k} differs from the trace alone '
                     f'by {np.nanmax(np.abs(got[k] - exp[k]))/s}')
    if len(c.asked) != len(set(c.asked)):
        res.fail('resp-twice', f'{case}: asked for {c.asked}')
    res.see(tuple(case['trs']), len(c.asked))


def run_case(case):
    res = Result()
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            globals()[f'run_{case["kind"]}'](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
