"""
Correlation matrices (CorrBulk): data, lag axis and row headers stay in step
under every sequence of operations.
"""
import itertools
import os
import re
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all sequences of public CorrBulk operations up to the given length from '
    'an alphabet of operations with arguments, for a set of initial matrices '
    '(irregular times, one row, asymmetric / one-sided / float32 / off-grid '
    'lag axes, missing rows). After every operation the rows (times, codes), '
    'the lag of every sample and the values are compared with a table model; '
    'operations that only return something must leave the matrix unchanged, '
    'and operations on lags must treat every row as if it was alone. '
    'Non-trivial: the sequence changes the matrix.')
ASSUMPTIONS = ['values of filters are only compared between whole matrix and '
               'single row, and by sampling of smooth functions']
CHUNK = 2

DAY = 86400


def bulk(kind):
    from seismic.correlate.stream import CorrTrace, CorrStream
    sr, l0, l1 = 4., -6., 6.
    times = [(0, 3600), (3600, 7200), (10800, 14400), (14400, 18000),
             (90000, 93600)]
    locs = ['00-00', '00-00', '00-01', '01-01', '00-00']
    cha = ['HHZ-HHZ', 'HHZ-HHN', 'HHZ-HHZ', 'HHZ-HHZ', 'HHZ-HHN']
    if kind == 'single':
        times, locs, cha = times[1:2], locs[1:2], cha[1:2]
    elif kind == 'asym':
        l0, l1 = -3., 8.
        cha = ['HHZ-HHZ']*5
        times = [(-.25, 3599.75), (3599.75, 7199.75), (10800.5, 14399.6),
                 (14399.6, 17999.6), (90000.125, 93599.9)]
    elif kind == 'f32':
        sr, l0, l1 = 10., float(np.float32(-4.3)), 4.3
        times, locs, cha = times[:3], locs[:3], ['HHZ-HHZ']*3
    elif kind == 'off':
        sr, l0, l1 = 10., -4.37, 4.33
        times, locs, cha = times[:3], locs[:3], ['HHZ-HHZ']*3
    elif kind == 'causal':
        l0, l1 = 0., 9.
        times, locs, cha = times[:3], locs[:3], ['HHZ-HHZ']*3
    elif kind == 'nan':
        times, locs, cha = times[:4], locs[:4], cha[:4]
    elif kind == 'gap':
        sr, l0, l1 = 4., 2., 11.
        times, locs, cha = times[:2], locs[:2], ['HHZ-HHZ']*2
    n = int(round((l1 - l0)*sr)) + 1
    cst = CorrStream()
    for i, ((a, b), lo, c) in enumerate(zip(times, locs, cha)):
        t = l0 + np.arange(n)/sr
        x = (np.exp(-(t - .7 - i*.4)**2/2.) * (1 + .3*i)
             - .6*np.exp(-(t + 1.9 - .3*i)**2/1.4) + .04*i + .01*t)
        if kind == 'nan' and i == 2:
            x = x*np.nan
        cst.append(CorrTrace(x, _header=dict(
            network='A-A', station='S-T', location=lo, channel=c,
            sampling_rate=sr, start_lag=l0, corr_start=B.utc(a),
            corr_end=B.utc(b), stla=1., stlo=2., stel=3., evla=1.5, evlo=2.,
            evel=0., dist=50., az=0., baz=180.)))
    return cst.create_corr_bulk(
        channel=None if len(set(cha)) > 1 else cha[0])


def rows(v, n):
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, np.ndarray):
        return v.tolist()
    return [v]*n


def snap(cb):
    s = cb.stats
    d = np.array(cb.data, copy=True)
    n = len(d)
    return dict(
        data=d, lag=s.start_lag + np.arange(s.npts)/s.sampling_rate,
        sr=s.sampling_rate, end=s.end_lag, npts=s.npts,
        ntrcs=s.get('ntrcs', n),
        cs=[t.timestamp - B.T0 for t in rows(s.corr_start, n)],
        ce=[t.timestamp - B.T0 for t in rows(s.corr_end, n)],
        loc=rows(s.location, n), cha=rows(s.channel, n),
        id=(s.network, s.station, s.stla, s.evla, s.dist))


def invariant(S):
    d = S['data']
    if d.ndim != 2:
        return f'data of shape {d.shape}'
    n = len(d)
    if S['npts'] != d.shape[1]:
        return f'npts {S["npts"]}, data {d.shape}'
    for k in ('cs', 'ce', 'loc', 'cha'):
        if len(S[k]) != n:
            return f'{len(S[k])} x {k} for {n} rows'
    if S['npts'] and abs(S['end'] - S['lag'][-1]) > 1e-6:
        return f'end_lag {S["end"]}, last sample at {S["lag"][-1]}'
    return None


def same(a, b, tol=1e-6, data=True):
    """difference of two snapshots (text) or None"""
    for k in ('cs', 'ce', 'loc', 'cha', 'id'):
        if k in ('cs', 'ce'):
            ok = len(a[k]) == len(b[k]) and np.allclose(a[k], b[k], atol=1e-4)
        else:
            ok = list(a[k]) == list(b[k])
        if not ok:
            return f'{k}: {a[k]} instead of {b[k]}'
    if abs(a['sr'] - b['sr']) > 1e-9:
        return f'sampling rate {a["sr"]} instead of {b["sr"]}'
    if len(a['lag']) != len(b['lag']) or not np.allclose(
            a['lag'], b['lag'], atol=1e-4):
        return f'lags {a["lag"][[0, -1]]} ({len(a["lag"])}) instead of ' \
            f'{b["lag"][[0, -1]]} ({len(b["lag"])})'
    if data:
        if a['data'].shape != b['data'].shape:
            return f'shape {a["data"].shape} instead of {b["data"].shape}'
        if not np.allclose(a['data'], b['data'], atol=tol, rtol=tol,
                           equal_nan=True):
            with np.errstate(invalid='ignore'):
                d = np.abs(a['data'] - b['data'])
            i = np.unravel_index(np.nanargmax(d), d.shape) if not np.all(
                np.isnan(d)) else (0, 0)
            return f'values differ, e.g. at row {i[0]}, lag ' \
                f'{b["lag"][i[1]]:.2f}: {a["data"][i]} instead of ' \
                f'{b["data"][i]}'
    return None


def pick(S, ii):
    return dict(S, data=S['data'][ii], cs=[S['cs'][i] for i in ii],
                ce=[S['ce'][i] for i in ii], loc=[S['loc'][i] for i in ii],
                cha=[S['cha'][i] for i in ii])


# ------------------------------------------------------------- operations
# name -> (apply(cb) -> cb, model)
# model(pre, post, cb) -> None or text;  'row' = row-wise, 'same' = unchanged

def m_slice(t0, t1, part):
    def model(S, R):
        if part:
            ii = [i for i in range(len(S['cs']))
                  if S['ce'][i] > t0 and S['cs'][i] < t1]
        else:
            ii = [i for i in range(len(S['cs']))
                  if S['cs'][i] >= t0 and S['ce'][i] <= t1]
        return same(R, pick(S, ii))
    return model


def m_select(t0, t1, part):
    def model(S, R):
        if part:
            ii = [i for i in range(len(S['cs'])) if t0 < S['ce'][i] <= t1]
        else:
            ii = [i for i in range(len(S['cs']))
                  if S['cs'][i] >= t0 and S['ce'][i] <= t1]
        ii.sort(key=lambda i: S['cs'][i])
        if not ii:
            return None if R is None else 'no error although nothing selected'
        if R is None:
            return 'nothing selected'
        return same(R, pick(S, ii))
    return model


def m_resample(s, e):
    def model(S, R):
        ee = e or ([max(S['ce'])] if len(s) == 1 else
                   [x + s[1] - s[0] for x in s])
        d = np.full((len(s), S['data'].shape[1]), np.nan)
        for k in range(len(s)):
            ii = [i for i in range(len(S['cs']))
                  if s[k] <= S['cs'][i] < ee[k]]
            x = S['data'][ii]
            for j in range(x.shape[1]):
                y = x[:, j][~np.isnan(x[:, j])]
                if len(y):
                    d[k, j] = y.mean()
        exp = dict(S, data=d, cs=list(s), ce=list(ee), loc=R['loc'],
                   cha=R['cha'])
        for k in ('loc', 'cha'):
            if len(set(S[k])) == 1 and set(R[k]) != set(S[k]):
                return f'{k} {R[k]}, was {S[k]}'
        return same(R, exp)
    return model


def m_trim(a, b):
    def model(S, R):
        dt = 1/S['sr']
        lag = S['lag']
        if a < lag[0] - 1e-4 or b > lag[-1] + 1e-4:
            x = same(R, S)
            if not x or a < lag[0] - dt or b > lag[-1] + dt:
                return x     # refused
        # every sample keeps its lag
        k0 = int(round((R['lag'][0] - lag[0])*S['sr']))
        n = R['npts']
        if abs(lag[k0] - R['lag'][0]) > 1e-3*dt:
            return f'first sample at {R["lag"][0]}, grid {lag[k0]}'
        exp = dict(S, lag=lag[k0:k0+n], data=S['data'][:, k0:k0+n])
        if not a - dt - 1e-4 < R['lag'][0] < a + dt + 1e-4:
            return f'starts at {R["lag"][0]} instead of {a}'
        if not b - dt - 1e-4 < R['lag'][-1] < b + dt + 1e-4:
            return f'ends at {R["lag"][-1]} instead of {b}'
        if abs(a - lag[np.argmin(abs(lag - a))]) < 1e-4 \
                and abs(R['lag'][0] - a) > 1e-3:
            return f'starts at {R["lag"][0]} instead of {a}'
        if abs(b - lag[np.argmin(abs(lag - b))]) < 1e-4 \
                and abs(R['lag'][-1] - b) > 1e-3:
            return f'ends at {R["lag"][-1]} instead of {b}'
        return same(R, exp)
    return model


def m_mirror(S, R):
    lag = S['lag']
    z = np.argmin(abs(lag))
    if abs(lag[z]) > 1e-4 or lag[0] > -1e-4 or lag[-1] < 1e-4:
        return same(R, S)    # impossible: unchanged
    n = max(z, len(lag) - 1 - z) + 1
    d = np.zeros((len(S['data']), n))
    for k in range(n):
        v = [S['data'][:, j] for j in {z - k, z + k} if 0 <= j < len(lag)]
        d[:, k] = np.mean(v, axis=0)
    return same(R, dict(S, lag=np.arange(n)/S['sr'], data=d))


def m_decim(freq):
    def model(S, R):
        if freq > S['sr']:
            return same(R, S)
        if abs(R['sr'] - freq) > 1e-9:
            return f'sampling rate {R["sr"]} instead of {freq}'
        if abs(R['lag'][0] - S['lag'][0]) > 1e-4:
            return f'start lag {R["lag"][0]} instead of {S["lag"][0]}'
        if R['lag'][-1] < S['lag'][-1] - 2.01/freq or \
                R['lag'][-1] > S['lag'][-1] + 1.01/freq:
            return f'end lag {R["lag"][-1]} instead of {S["lag"][-1]}'
        # smooth functions keep their shape (away from the ends)
        k = (R['lag'] > S['lag'][0] + 2) & (R['lag'] < S['lag'][-1] - 2)
        for i in range(len(S['data'])):
            e = np.interp(R['lag'][k], S['lag'], S['data'][i])
            g = R['data'][i][k]
            if np.any(np.isnan(e)):
                continue
            m = np.max(np.abs(e)) if len(e) else 0
            c = np.max(np.abs(np.diff(S['data'][i], 2)))*S['sr']**2
            if m and np.std(e) > .05*m and c < 6*np.std(e):
                # filters may remove an offset
                err = np.std(e - g)/np.std(e)
                if err > .25:
                    return f'row {i}: values do not follow the lag axis '\
                        f'({err:.2f})'
        return same(R, dict(S, data=R['data'], lag=R['lag'], sr=freq))
    return model


def m_finite(S, R):
    """unchanged, apart from rows with missing values"""
    ok = ~np.isnan(S['data']).any(axis=1)
    if np.shape(R['data']) != np.shape(S['data']):
        return same(R, S)
    d = np.where(ok[:, None], R['data'], S['data'])
    return same(dict(R, data=d), S)


def m_window(name, width=None, slope=.05):
    """Tapers: where values are unchanged / zero"""
    def model(S, R):
        x = same(R, S, data=False)
        if x:
            return x
        lag, dt = S['lag'], 1/S['sr']
        nan = np.isnan(S['data'])
        if name == 'center':
            keep = np.abs(lag) > width/2 + 1.01*dt
            zero = np.abs(lag) < width/2*(1 - max(slope, .1)) - 1.01*dt
        else:
            edge = np.minimum(lag - lag[0], lag[-1] - lag)
            keep = edge > width + 1.01*dt
            zero = edge < .01*dt
        if not np.allclose(R['data'][:, keep], S['data'][:, keep],
                           equal_nan=True):
            return 'values changed outside of the taper'
        z = R['data'][:, zero][~nan[:, zero]]
        if len(z) and np.max(np.abs(z)) > 1e-3:
            return f'taper is not zero: {z[:3]}'
        with np.errstate(invalid='ignore'):
            if np.any(np.abs(R['data']) > np.abs(S['data']) + 1e-9):
                return 'taper increases values'
            # the taper is the same for all rows and symmetric
            if len(S['data']):
                w = np.nanmedian(R['data']/S['data'], axis=0)
                ok = np.abs(S['data'] * w - R['data']) < 1e-6
                if not np.all(ok | nan | np.isnan(w)):
                    return 'rows are tapered differently'
                x0 = lag if name == 'center' else lag - (lag[0] + lag[-1])/2
                k = np.searchsorted(x0, -x0 - 1e-3*dt)
                k = np.minimum(k, len(lag) - 1)
                sym = np.abs(x0[k] + x0) < 1e-3*dt
                # (a slope of one sample has no shape)
                if (name != 'center' or slope > .2) and np.any(
                        np.abs(w[k] - w)[sym] > 1e-6):
                    return f'taper is not symmetric: {w}'
        return None
    return model


def m_norm(kind):
    def model(S, R):
        x = same(R, S, data=False)
        if x:
            return x
        for i, (a, b) in enumerate(zip(S['data'], R['data'])):
            if np.all(np.isnan(a)):
                continue
            f = {'absmax': np.nanmax(np.abs(a)),
                 'energy': np.sqrt(np.nanmean(a**2)),
                 'abssum': np.nanmean(np.abs(a)),
                 'max': np.nanmax(a)}[kind]
            if f == 0:
                f = 1
            if not np.isnan(a).any() and not np.allclose(a/f, b, atol=1e-6):
                return f'row {i} not normalised by {f}'
        return None
    return model


class Wrong(Exception):
    pass


def m_val(fn, tol=1e-6, stay=True):
    """
    values are those of fn(S) -> (data, lags where they are compared);
    rows without data stay so
    """
    def model(S, R):
        x = same(R, S, data=False)
        if x:
            return x
        e, k = fn(S)
        k = np.ones(len(S['lag']), dtype=bool) if k is None else k
        for i, (d, a, b) in enumerate(zip(S['data'], e, R['data'])):
            if np.all(np.isnan(d)):
                if stay and not np.all(np.isnan(b)):
                    return f'row {i} without data becomes {b}'
                continue
            if np.isnan(d).any():
                continue
            m = max(np.max(np.abs(d)), 1e-12)
            if not np.allclose(a[k], b[k], atol=tol*m, rtol=tol):
                j = np.argmax(np.abs(a[k] - b[k]))
                return f'row {i} at lag {S["lag"][k][j]:.2f}: {b[k][j]} ' \
                    f'instead of {a[k][j]}'
        return None
    return model


def m_normwin(t0, t1):
    """normalised by the largest absolute value between two lags"""
    def model(S, R):
        x = same(R, S, data=False)
        if x:
            return x
        lag, dt = S['lag'], 1/S['sr']
        if lag[0] > t0 + 1e-4 or lag[-1] < t1 - dt:
            return None
        for a, b in zip(S['data'], R['data']):
            if np.isnan(a).any():
                continue
            ok = np.allclose(a, b)      # window not available
            if ok and lag[0] <= t0 - dt and lag[-1] >= t1 + dt:
                ok = False
            for o0, o1 in itertools.product((-1, 0, 1), (-1, 0, 1)):
                k = (lag > t0 + (o0 - .5)*dt) & (lag < t1 + (o1 + .5)*dt)
                f = np.max(np.abs(a[k]))
                ok |= np.allclose(a/(f or 1), b)
            if not ok:
                return 'not normalised by the window'
        return None
    return model


def v_clip(axis):
    def fn(S):
        std = np.nanstd(S['data'], axis=axis, keepdims=True)*1.5
        return np.clip(S['data'], -std, std), None
    return fn


def v_envelope(S):
    n = S['data'].shape[1]
    h = np.zeros(n)
    h[0] = 1
    h[1:(n + 1)//2] = 2
    if n % 2 == 0:
        h[n//2] = 1
    return np.abs(np.fft.ifft(np.fft.fft(S['data'], axis=1)*h, axis=1)), None


def v_filter(f0, f1, order):
    def fn(S):
        from scipy.signal import butter, sosfilt
        sos = butter(order, [f0, f1], 'band', fs=S['sr'], output='sos')
        d = sosfilt(sos, np.nan_to_num(S['data']), axis=1)
        return sosfilt(sos, d[:, ::-1], axis=1)[:, ::-1], None
    return fn


def v_smooth(n, win):
    def fn(S):
        w = np.ones(n) if win == 'flat' else np.hanning(n)
        d = np.array([np.convolve(x, w/w.sum(), mode='same')
                      for x in np.nan_to_num(S['data'])])
        k = np.arange(d.shape[1])
        return d, (k >= n//2) & (k < d.shape[1] - n//2)
    return fn


def m_smooth_rows(n):
    def model(S, R):
        x = same(R, S, data=False)
        if x:
            return x
        d = np.nan_to_num(S['data'])
        for i in range(n//2, len(d) - n//2):
            e = d[i - n//2:i + n//2 + 1].mean(axis=0)
            if not np.allclose(e, R['data'][i], atol=1e-6):
                return f'row {i} is not the mean of {n} rows'
        return None
    return model


def v_shift(v):
    def fn(S):
        lag = S['lag']
        return np.array([np.interp(lag - v, lag, x) for x in S['data']]), \
            (lag - v >= lag[0]) & (lag - v <= lag[-1])
    return fn


def v_stretch(v):
    def fn(S):
        from scipy.interpolate import CubicSpline
        lag = S['lag']
        t = lag*np.exp(v)
        inside = (t >= lag[0]) & (t <= lag[-1])
        return np.array([np.where(inside, CubicSpline(lag, x)(t), 0)
                         for x in np.nan_to_num(S['data'])]), \
            np.abs(t - lag[0]) + np.abs(t - lag[-1]) > 1e-6
    return fn


def m_decay(S, R):
    """divided by one exponential function of the absolute lag"""
    x = same(R, S, data=False)
    if x:
        return x
    ok = (np.abs(S['data']) > 1e-6) & (np.abs(R['data']) > 1e-9)
    q = np.full(S['data'].shape, np.nan)
    q[ok] = S['data'][ok]/R['data'][ok]
    if not np.any(ok):
        return None
    if np.nanmin(q) <= 0:
        return 'changes signs'
    x = np.broadcast_to(np.abs(S['lag']), q.shape)[ok]
    y = np.log(q[ok])
    if np.ptp(x) < .1:
        return None
    p = np.polyfit(x, y, 1)
    if np.max(np.abs(np.polyval(p, x) - y)) > 1e-3:
        return 'is not divided by an exponential function of the lag'
    # it is the decay of the mean envelope
    lag = S['lag']
    z = int(np.argmin(np.abs(lag)))
    full = S['data'][~np.isnan(S['data']).any(axis=1)]
    if np.abs(lag[z]) < 1e-4 and len(full) and 0 < z < len(lag) - 1:
        e = v_envelope(dict(data=full))[0].mean(axis=0)
        n = max(z, len(lag) - 1 - z) + 1
        e = np.array([np.mean([e[j] for j in {z-k, z+k}
                               if 0 <= j < len(e)]) for k in range(n)])
        if np.all(e > 1e-9):
            f = np.polyfit(np.arange(n)/S['sr'], np.log(e), 1)
            if np.max(np.abs(f - p)) > .02*np.max(np.abs(f)) + .01:
                return f'corrected for a decay of {p} instead of {f}'
    return None


def extracted(c, method):
    """expected representative trace"""
    d = np.array(c.data, dtype=float)
    if method in ('norm_mean', 'similarity_percentile'):
        f = np.max(np.abs(d), axis=1, keepdims=True)
        d = d/np.where(f == 0, 1, f)
    if method == 'median':
        return np.nanmedian(d, axis=0)
    m = np.nanmean(d, axis=0)
    if method != 'similarity_percentile':
        return m
    cc = np.array([np.sum(x*m)/np.sqrt(np.sum(x**2)*np.sum(m**2))
                   for x in d])
    if np.all(np.isnan(cc)):
        return None
    # ties: floating point decides
    p = np.nanpercentile(cc, 50)
    if np.any(np.abs(cc - p) < 1e-9) and np.nansum(cc > p + 1e-9) == 0:
        return None
    if np.sum(np.abs(cc - p) < 1e-9) > 1:
        return None
    return d[cc > p + 1e-9].mean(axis=0)


def extract(c, method):
    e = extracted(c, method)
    g = c.extract_trace(method)
    if e is not None and not np.allclose(
            e, np.ma.filled(g, np.nan), atol=1e-9, equal_nan=True):
        raise Wrong(f'{method}: {g} instead of {e}')
    if g is not c.ref_trc:
        raise Wrong('reference is not kept')
    return c


def meas_dv(cb, value, kind):
    from seismic.monitor.dv import DV
    n = len(cb.data)
    v = np.zeros(n) + value
    return DV(np.ones(n), v, kind, np.ones((n, 1)), np.zeros(1), 'x',
              cb.stats)


def ops(tier):
    o = {}
    T = B.utc

    def add(name, f, model):
        o[name] = (f, model)
    for k, (a, b) in enumerate([(1800, 12600), (-5, 20000), (3000, 3500),
                                (80000, 100000)]):
        for part in (True, False):
            add(f'slice{k}{part}', lambda c, a=a, b=b, p=part:
                c.slice(T(a), T(b), include_partial=p), m_slice(a, b, part))
            add(f'select{k}{part}', lambda c, a=a, b=b, p=part:
                c.select_corr_time(T(a), T(b), include_partially_selected=p),
                m_select(a, b, part))
    add('slice-exact', lambda c: c.slice(T(3600), T(14400), False),
        m_slice(3600, 14400, False))
    for k, (s, e) in enumerate([
            ([0, 7200, 14400], None), ([0], None),
            ([-3600 + 3600*i for i in range(30)], None),
            ([3600, 0], [14400, 3600]), ([0, 3600, 14400], None),
            ([0, 7200, 10800], None)]):
        add(f'resample{k}', lambda c, s=s, e=e: c.resample(
            [T(x) for x in s], [T(x) for x in e or []]), m_resample(s, e))
    for a, b in [(-2, 2), (0, 4), (-1.1, 3.3), (-2.6, 2.9), (1, 4), (-4.3, 0),
                 (-50, 50), (2.5, 4.25)]:
        add(f'trim{a},{b}', lambda c, a=a, b=b: c.trim(a, b), m_trim(a, b))
    add('mirror', lambda c: c.mirror(), m_mirror)
    for k in ('energy', 'absmax', 'abssum', 'max'):
        add(f'norm-{k}', lambda c, k=k: c.normalize(normtype=k), m_norm(k))
    add('norm-win', lambda c: c.normalize(2, 4, 'absmax'), m_normwin(2, 4))
    add('clip', lambda c: c.clip(1.5), m_val(v_clip(1)))
    add('clip-col', lambda c: c.clip(1.5, axis=0), m_val(v_clip(0)))
    add('clip-all', lambda c: c.clip(1.5, axis=None), m_val(v_clip(None)))
    add('envelope', lambda c: c.envelope(), m_val(v_envelope))
    add('filter', lambda c: c.filter((.1, .8)), m_val(v_filter(.1, .8, 3)))
    add('filter1', lambda c: c.filter((.3, .9), 1),
        m_val(v_filter(.3, .9, 1)))
    add('smooth-lag', lambda c: c.smooth(5, axis=0),
        m_val(v_smooth(5, 'flat'), stay=False))
    add('smooth-hann', lambda c: c.smooth(4, 'hanning', axis=0), 'row')
    add('smooth-hann7', lambda c: c.smooth(7, 'hanning', axis=0),
        m_val(v_smooth(7, 'hanning'), stay=False))
    add('smooth-rows', lambda c: c.smooth(3), m_smooth_rows(3))
    add('decay', lambda c: c.correct_decay(), m_decay)
    add('taper', lambda c: c.taper(1.5), m_window('ends', 1.5))
    add('taper0', lambda c: c.taper(0), 'same')
    for w in (1, 2.5):
        add(f'center{w}', lambda c, w=w: c.taper_center(w),
            m_window('center', w))
    add('center-slope', lambda c: c.taper_center(5, .6),
        m_window('center', 5, .6))
    add('rate/2', lambda c: c.resample_time_axis(2.), m_decim(2.))
    add('rate*.8', lambda c: c.resample_time_axis(3.2), m_decim(3.2))
    add('shift0', lambda c: c.correct_shift(meas_dv(c, 0, 'shift')), m_finite)
    add('shift', lambda c: c.correct_shift(meas_dv(c, .6, 'shift')),
        m_val(v_shift(.6), stay=False))
    add('stretch0', lambda c: c.correct_stretch(meas_dv(c, 0, 'stretch')),
        m_finite)
    add('stretch', lambda c: c.correct_stretch(meas_dv(c, .02, 'stretch')),
        m_val(v_stretch(.02), 1e-3, stay=False))

    def keep(f):
        def g(c):
            f(c)
            return c
        return g
    for m in ('mean', 'median', 'norm_mean', 'similarity_percentile'):
        add('extract-' + m, lambda c, m=m: extract(c, m), 'same')
    add('multi', keep(lambda c: c.extract_multi_trace(1)), 'same')
    add('m-stretch', keep(lambda c: c.stretch(
        np.nanmean(c.data, 0), stretch_steps=5)), 'same')
    add('m-stretch1', keep(lambda c: c.stretch(
        np.nanmean(c.data, 0), sides='single', stretch_steps=5)), 'same')
    add('m-shift', keep(lambda c: c.measure_shift(
        np.nanmean(c.data, 0), shift_range=1, shift_steps=5,
        tw=[[0, 2]])), 'same')
    add('m-clock', keep(lambda c: c.find_clock_shift(
        np.nanmean(c.data, 0), shift_range=2, shift_steps=5,
        tw=[np.arange(4)])), 'same')

    def statlist(c):
        from seismic.correlate.stream import CorrBulk
        st = c.create_corr_stream()
        if len({tr.stats.channel for tr in st}) > 1:
            return c    # refused: more than one channel
        return CorrBulk(c.data.copy(), statlist=[tr.stats for tr in st])
    add('statlist', statlist, 'same')
    add('copy', lambda c: c.copy(), 'same')
    add('stream', lambda c: c.create_corr_stream().create_corr_bulk(), 'same')
    add('row0', lambda c: c[0:1], lambda S, R: same(R, pick(S, [0])))
    add('rows', lambda c: c[::-2], lambda S, R: same(
        R, pick(S, list(range(len(S['cs'])))[::-2])))
    add('mask', lambda c: c[np.arange(len(c.data)) % 2 == 0],
        lambda S, R: same(R, pick(S, list(range(len(S['cs'])))[::2])))
    add('pickl', lambda c: c[[0]], lambda S, R: same(R, pick(S, [0])))

    def last(c):
        return c.create_corr_stream([len(c.data)-1]).create_corr_bulk()
    add('lastst', last, lambda S, R: same(R, pick(S, [len(S['cs']) - 1])))

    def one(c):
        from seismic.correlate.stream import CorrStream
        return CorrStream([c[len(c.data)-1]]).create_corr_bulk()
    add('int', one, lambda S, R: same(R, pick(S, [len(S['cs']) - 1])))

    def npone(c):
        from seismic.correlate.stream import CorrStream
        i = np.arange(len(c.data))[0]
        return CorrStream([c[i]]).create_corr_bulk()
    add('npint', npone, lambda S, R: same(R, pick(S, [0])))

    def neg(c):
        from seismic.correlate.stream import CorrStream
        i = -2 if len(c.data) > 1 else -1
        return CorrStream([c[i]]).create_corr_bulk()
    add('negint', neg, lambda S, R: same(R, pick(S, [
        max(len(S['cs']) - 2, 0)])))

    def npneg(c):
        from seismic.correlate.stream import CorrStream
        return CorrStream([c[-np.arange(len(c.data))[-1] - 1]]
                          ).create_corr_bulk()
    add('npneg', npneg, lambda S, R: same(R, pick(S, [0])))

    def iterate(c):
        # (as long as there is one channel, all rows come back)
        from seismic.correlate.stream import CorrStream
        st = CorrStream([t for t in c])
        if len({tr.stats.channel for tr in st}) > 1:
            return c
        return st.create_corr_bulk()
    add('iter', iterate, 'same')

    def saved(c):
        from seismic.correlate.stream import read_corr_bulk
        with B.Scratch('c13') as d:
            c.save(os.path.join(d, 'x.npz'))
            return read_corr_bulk(os.path.join(d, 'x.npz'))
    add('save', saved, 'same')
    return o


KINDS = ['std', 'single', 'asym', 'f32', 'off', 'causal', 'nan', 'gap']
REFUSE = (ValueError, AssertionError)
# operations for which an exception is an answer (nothing to do / impossible)
MAYFAIL = ('select', 'rate', 'm-', 'smooth', 'center', 'taper', 'multi')


def cases(tier):
    names = list(ops(tier))
    out = []
    for kind in KINDS:
        for a in names:
            out.append(dict(kind=kind, first=a,
                            depth=2 if tier == 'quick' else 3))
    return out


def few(c):
    """too few samples on one side to interpolate with a cubic spline"""
    lag = np.linspace(c.stats.start_lag, c.stats.end_lag, c.stats.npts)
    return min((lag > -1e-6).sum(), (lag < 1e-6).sum()) < 4


def step(res, cb, name, op, kind, path):
    """apply one operation, compare; returns new bulk or None"""
    f, model = op
    pre = snap(cb)
    orig = cb
    cb = cb.copy()
    try:
        out = f(cb)
    except REFUSE as e:
        if name.startswith(MAYFAIL):
            out = None
            if name.startswith('select'):
                x = model(pre, None)
                if x:
                    res.fail(name, f'{path}: {x}, {e}')
            return None
        res.fail(f'error-{name}', f'{kind} {path}: {e!r}')
        return None
    except Exception as e:
        if name.startswith(('m-stretch', 'm-clock')) and few(orig):
            return None
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.fail(f'error-{name}', f'{kind} {path}: {e!r} in {tb.name}')
        return None
    x = same(snap(orig), pre)
    if x:
        res.fail(f'copy-{name}', f'{kind} {path}: operation on a copy changed '
                 f'the original: {x}')
    post = snap(out)
    if post['ntrcs'] != len(post['data']) and \
            pre['ntrcs'] == len(pre['data']):
        res.fail('ntrcs-' + re.match('[a-z]*', name)[0],
                 f'{kind} {path}: ntrcs {post["ntrcs"]} for '
                 f'{len(post["data"])} rows')
    x = invariant(post)
    if x:
        res.fail(f'invariant-{name}', f'{kind} {path}: {x}')
        return None
    if model == 'same':
        x = same(post, pre)
    elif model == 'row':
        x = same(post, pre, data=False)
        if not x:
            for i in range(len(pre['data'])):
                one = f(orig.copy()[i:i+1])
                y = snap(one)
                if not np.allclose(y['data'][0], post['data'][i], atol=1e-9,
                                   rtol=1e-6, equal_nan=True):
                    x = f'row {i} depends on the other rows'
    else:
        x = model(pre, post)
    if x:
        res.fail(name, f'{kind} {path}: {x}')
        return None
    res.count(transitions=1)
    return out


def run_case(case):
    res = Result()
    kind = case['kind']
    O = ops('quick')

    def go(cb, path, name, depth):
        out = step(res, cb, name, O[name], kind, path + [name])
        if out is None or not len(out.data):
            return
        S = snap(out)
        res.state(kind, S['cs'], S['loc'], S['lag'][0], S['npts'],
                  np.round(np.nan_to_num(S['data']), 5).tobytes())
        if depth > 1:
            for n in O:
                go(out, path + [name], n, depth - 1)
        else:
            res.count(traces=1)
    import warnings
    warnings.filterwarnings('ignore')
    with np.errstate(all='ignore'):
        go(bulk(kind), [], case['first'], case['depth'])
    res.see(kind, case['first'], len(res.state_set))
    res.sample = dict(case, states=len(res.state_set))
    res.nontrivial = len(res.state_set) > 0
    return res
