"""
Stretch and shift measurements and their corrections.
"""
import copy
import itertools
import numpy as np

from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'product of lag ranges (symmetric, asymmetric, one-sided) x sides x lapse '
    'windows x ways to give the reference x sequences of true stretches '
    '(shifts) taken from the tested grid, with unavailable rows at every '
    'position. A continuous reference wavefield is sampled at stretched '
    '(shifted) lag times, so the correct value of each row is known. Each '
    'execution is repeated (a) with everything outside the lapse window and '
    'side replaced, (b) row by row and in reversed order: the measurement '
    'may not change. Corrections have to give the reference back. '
    'Non-trivial: at least one available row.')
ASSUMPTIONS = [
    'sampling 8 times finer than the shortest period of the wavefield; '
    'measured values have to hit the true grid value exactly',
    'corrected waveforms within 2 % of the amplitude away from the edges']
CHUNK = 4
SR = 4.

# centre time, amplitude of the wavelets of the reference wavefield
WAV = [(-8.6, .8), (-7.1, -1.), (-5.2, 1.), (-4.1, -.7), (-3., .9),
       (-1.6, -.6), (.4, 1.1), (1.7, .8), (2.9, -1.), (4.4, .9), (5.6, .7),
       (7.2, 1.), (8.4, -.6)]


def wave(t):
    t = np.asarray(t, dtype=float)
    out = np.zeros_like(t)
    for c, a in WAV:
        x = (t - c)*np.pi*.42
        out += a*(1 - 2*x**2)*np.exp(-x**2)
    return out


APPLY = .012
GRID = np.linspace(-.06, .06, 7)
SGRID = {'coarse': (1., 9), 'fine': (.45, 7)}
LAGS = [(-10., 10.), (-10., 12.), (-12., 10.), (0., 10.), (-10., 8.5)]
WINS = [None, (0, 30), (5, 33)]


def cases(tier):
    out = []
    rows = [[3], [0, 3, 6], [6, None, 1], [None, 2], [4, 4, None, 5]]
    if tier == 'thorough':
        rows = [list(r) for k in (1, 2, 3)
                for r in itertools.product([None, 0, 1, 3, 5, 6], repeat=k)]
    for lag, side, win, ref, r in itertools.product(
            LAGS, ['both', 'left', 'right', 'single'], range(len(WINS)),
            ['given', 'stats', 'long', 'none', 'multi1', 'multi3'], rows):
        if lag[0] == 0 and side != 'single':
            continue
        out.append(dict(kind='stretch', lag=lag, side=side, win=win, ref=ref,
                        rows=r))
    srows = [[4], [0, 4, 8], [8, None, 1], [None, 2]]
    if tier == 'thorough':
        srows = [list(r) for k in (1, 2, 3)
                 for r in itertools.product([None, 0, 2, 4, 8], repeat=k)]
    for lag, side, win, ref, g, r in itertools.product(
            LAGS, ['both', 'single'], [None, [(0, 6)], [(1, 8)], [(0, 4), (4, 8)],
                                       [(4, 7), (1, 5)]],
            ['given', 'none'], sorted(SGRID), srows):
        if lag[0] == 0 and (side == 'both' or (win and win[0][0] == 0)):
            continue
        if win and max(w[1] for w in win) + SGRID[g][0] > lag[1]:
            continue
        out.append(dict(kind='shift', lag=lag, side=side, win=win, ref=ref,
                        grid=g, rows=r))
    for meth, r in itertools.product(
            ['mean', 'median', 'norm_mean', 'similarity_percentile'],
            itertools.chain.from_iterable(
                itertools.product([None, 0, 1], repeat=k)
                for k in (1, 2, 3, 4))):
        out.append(dict(kind='ref', meth=meth, rows=list(r)))
    for lag, side, wins, nref, r in itertools.product(
            [(-10., 10.), (-7.5, 7.5), (0., 10.), (-10., 12.)],
            ['both', 'left', 'right', 'single'],
            [[0], [1], [2], [0, 2], [3, 1, 2]], [1, 2, 3],
            [[0], [2, None, 1], [None]]):
        if side != 'single' and lag[0] != -lag[1]:
            continue
        out.append(dict(kind='wfc', lag=lag, side=side, wins=wins, nref=nref,
                        rows=r))
    for nref, perm, r in itertools.product(
            (3, 5, 11, 13), (1, -1, 2, 5), rows):
        if nref == 5 and perm == 5:
            continue
        out.append(dict(kind='mref', nref=nref, perm=perm, rows=r))
    for lag, side, ref, win, r in itertools.product(
            LAGS, ['both', 'right', 'single'], ['given', 'two', 'none'],
            [None, (0, 24), (3, 28)], [[0], [4, None, -4], [-2, 2, 0]]):
        if lag[0] == 0 and side == 'both':
            continue
        out.append(dict(kind='clock', lag=lag, side=side, ref=ref, win=win,
                        rows=r))
    for lag, r in itertools.product(LAGS[:1] + LAGS[3:4], itertools.product(
            (-.2, -.05, 0., .1, .2, None), repeat=3)):
        out.append(dict(kind='apply', lag=lag, rows=list(r)))
    for n, inc in itertools.product([1, 2, 5], [0, 1, 2, [1, 2], [2, 3]]):
        out.append(dict(kind='multiref', n=n, inc=inc))
    for start, width in itertools.product(
            [0, 3, [0], [5], [0, 4], [4, 0], [2, 2, 9]],
            [1, 5, [1], [4], [3, 1], [1, 3], [2, 5, 1], 0, [2, 0]]):
        out.append(dict(kind='windows', start=start, width=width))
    return out


def run_windows(case, res):
    """the samples of windows given by their first ones and lengths"""
    from seismic.monitor.stretch_mod import time_windows_creation as create
    start, width = case['start'], case['width']
    s = start if isinstance(start, list) else [start]
    w = width if isinstance(width, list) else [width]*len(s)
    try:
        got = [list(map(int, t)) for t in create(
            copy.deepcopy(start), copy.deepcopy(width))]
    except ValueError:
        got = None
    res.count(transitions=1)
    res.nontrivial = len(s) > 1
    res.see(len(s), len(w))
    if not isinstance(start, list):
        # only the first width counts
        w = w[:1] if min(w) > 0 else w
    exp = None if len(s) != len(w) or min(w) <= 0 else [
        list(range(a, a + n)) for a, n in zip(s, w)]
    if got != exp:
        res.fail('windows', f'{case}: {got} instead of {exp}')


def header(lag, n):
    from seismic.correlate.stats import CorrStats
    s = CorrStats(dict(
        network='A-A', station='S-T', channel='HHZ-HHZ', sampling_rate=SR,
        start_lag=lag[0], npts=int(round((lag[1]-lag[0])*SR)) + 1,
        _format='hdf5'))
    s['corr_start'] = [B.utc(86400*i) for i in range(n)]
    s['corr_end'] = [B.utc(86400*(i + 1)) for i in range(n)]
    s['location'] = ['00-00']*n
    s['ntrcs'] = n
    return s


def lags(lag):
    return lag[0] + np.arange(int(round((lag[1]-lag[0])*SR)) + 1)/SR


def bulk(lag, rows, f):
    from seismic.correlate.stream import CorrBulk
    t = lags(lag)
    d = np.array([np.full(len(t), np.nan) if r is None else f(t, r)
                  for r in rows])
    return CorrBulk(d, header(lag, len(rows)))


def used(lag, side, win):
    """lag times (of the trace) that may influence the measurement"""
    t = lags(lag)
    k = np.round(t*SR).astype(int)
    dt = int(round(min(-lag[0], lag[1])*SR)) if side != 'single' \
        else int(round(lag[1]*SR))
    lo, hi = win if win is not None else (0, dt + 1)
    pos = (k >= lo) & (k < hi) & (k <= dt)
    neg = (-k >= lo) & (-k < hi) & (-k <= dt)
    return {'both': pos | neg, 'left': neg, 'right': pos,
            'single': pos}[side]


def vals(dv, n):
    return np.atleast_1d(dv.value), np.atleast_1d(dv.corr)


def run_stretch(case, res):
    lag, side, win = case['lag'], case['side'], WINS[case['win']]
    rows, ref = case['rows'], case['ref']
    if ref == 'none':
        rows = [None if r is None else 3 for r in rows]
    exp = np.array([np.nan if r is None else GRID[r] for r in rows])
    f = (lambda t, r: wave(t*np.exp(-GRID[r])))
    tw = None if win is None else [np.arange(*win)]
    long_lag = (lag[0] - 2 if lag[0] else 0., lag[1] + 2)

    def meas(cb, sim=True):
        kw = {}
        # the lag times the reference has
        rl = long_lag if ref == 'long' else lag
        r0 = wave(lags(rl))
        if ref in ('given', 'stats', 'long'):
            kw['ref_trc'] = r0
        elif ref == 'multi1':
            kw['ref_trc'] = np.array([r0])
        elif ref == 'multi3':
            kw['ref_trc'] = np.array([
                wave(lags(rl)*np.exp(-x)) for x in (-.02, 0, .02)])
        if ref in ('stats', 'long'):
            kw['ref_tr_stats'] = header(rl, 1)
        keep = {k: np.array(v) for k, v in kw.items() if k == 'ref_trc'}
        before = cb.data.copy()
        dv = cb.stretch(
            tw=None if tw is None else [tw[0].copy()],
            stretch_range=.06, stretch_steps=len(GRID), sides=side,
            return_sim_mat=sim, **kw)
        res.count(transitions=1)
        if not np.array_equal(before, cb.data, equal_nan=True) or any(
                not np.array_equal(keep[k], kw[k]) for k in keep):
            res.fail('input-changed', f'{case}: measuring changed the input')
        return dv

    cb = bulk(lag, rows, f)
    dv = meas(cb)
    v, c = vals(dv, len(rows))
    sm = np.asarray(dv.sim_mat)
    res.see(case['side'], case['ref'], tuple(np.round(np.nan_to_num(
        v, nan=9), 4)))
    if v.shape != exp.shape or c.shape != exp.shape:
        res.fail('shape', f'{case}: {v.shape} values for {len(rows)} rows')
        return
    if not np.allclose(dv.second_axis, GRID):
        res.fail('axis', f'{case}: axis {dv.second_axis}')
    if not np.allclose(v, exp, equal_nan=True, atol=1e-9):
        res.fail('value', f'{case}: measured {v} instead of {exp} ({c})')
        return
    ok = ~np.isnan(exp)
    if (ok != ~np.isnan(c)).any() or (c[ok] < .98).any():
        res.fail('corr', f'{case}: coefficients {c}')
    if np.asarray(dv.value).ndim != 1 or sm.shape != (len(rows), len(GRID)):
        res.fail('shape', f'{case}: value of shape '
                 f'{np.shape(dv.value)}, matrix {sm.shape}')
        return
    if not np.array_equal(dv.avail, ok):
        res.fail('avail', f'{case}: available {dv.avail}')
    if ok.any() and ref != 'multi3':
        if not np.allclose(np.nanmax(sm[ok], axis=1), c[ok]):
            res.fail('sim', f'{case}: matrix does not fit the maximum')
        if (np.abs(sm[ok]) > 1 + 1e-9).any():
            res.fail('sim-range', f'{case}: coefficient above 1')
    if len(dv.stats.corr_start) != len(rows):
        res.fail('stats', f'{case}: {len(dv.stats.corr_start)} times')
    if ref == 'none':
        # the reference changes with the rows
        return
    # nothing outside the window matters
    u = used(lag, side, win)
    cb2 = bulk(lag, rows, f)
    cb2.data[:, ~u] = np.where(np.isnan(cb2.data[:, ~u]), np.nan, 3.3)
    v2, c2 = vals(meas(cb2), len(rows))
    if not (np.array_equal(v, v2, equal_nan=True)
            and np.allclose(c, c2, equal_nan=True)):
        res.fail('window', f'{case}: data outside the lapse window change '
                 f'{v}, {c} to {v2}, {c2}')
    if (ref, side) == ('given', 'both') and win is not None:
        # each used sample matters
        k = np.flatnonzero(u)
        for kk in (k[0], k[len(k)//2 - 1], k[len(k)//2], k[-1]):
            cb2 = bulk(lag, rows, f)
            cb2.data[:, kk] += 5
            _, c2 = vals(meas(cb2), len(rows))
            if ok.any() and np.allclose(c[ok], c2[ok]):
                res.fail('window-edge', f'{case}: sample {kk} not used')
    if ref == 'multi3':
        return
    for sel in [slice(None, None, -1)] + [[i] for i in range(len(rows))]:
        rr = list(np.array(rows, dtype=object)[sel])
        dv3 = meas(bulk(lag, rr, f), False)
        v3, c3 = vals(dv3, len(rr))
        if not (v3.shape == v[sel].shape and np.array_equal(
                v3, v[sel], equal_nan=True)
                and np.allclose(c3, c[sel], equal_nan=True)):
            res.fail('rows', f'{case}: rows {rr} give {v3} instead of '
                     f'{v[sel]}')
    # correction
    cb4 = bulk(lag, rows, f)
    cb4.correct_stretch(dv)
    t = lags(lag)
    mid = (np.abs(t) < 6) & (t > lag[0] + 1.)
    for i, r in enumerate(rows):
        got = cb4.data[i]
        if r is None:
            if not np.isnan(got).all():
                res.fail('correct-nan', f'{case}: row {i} not empty')
        elif np.abs(got - wave(t))[mid].max() > .02:
            res.fail('correct', f'{case}: row {i} is not corrected: '
                     f'{np.abs(got - wave(t))[mid].max()}')
    if cb4.stats.npts != cb4.data.shape[1] or \
            cb4.stats.start_lag != lag[0]:
        res.fail('correct-stats', f'{case}: header {cb4.stats}')


def run_shift(case, res):
    lag, side, win, ref = (case[k] for k in ('lag', 'side', 'win', 'ref'))
    rng, steps = SGRID[case['grid']]
    ax = np.linspace(-rng, rng, steps)
    rows = [None if r is None else min(r, steps - 1) for r in case['rows']]
    if ref == 'none':
        rows = [None if r is None else steps//2 for r in rows]
    exp = np.array([np.nan if r is None else ax[r] for r in rows])
    f = (lambda t, r: wave(t + ax[r]))

    def meas(cb, sim=True):
        kw = {}
        if ref == 'given':
            kw['ref_trc'] = wave(lags(lag))
        before = cb.data.copy()
        dt = cb.measure_shift(
            tw=None if win is None else [list(w) for w in win],
            shift_range=rng, shift_steps=steps, sides=side,
            return_sim_mat=sim, **kw)
        res.count(transitions=1)
        if not np.array_equal(before, cb.data, equal_nan=True):
            res.fail('input-changed', f'{case}: measuring changed the input')
        return dt

    cb = bulk(lag, rows, f)
    dt = meas(cb)
    v, c = vals(dt, len(rows))
    res.see('shift', side, tuple(np.round(np.nan_to_num(v, nan=9), 4)))
    if v.shape != exp.shape or not np.allclose(
            v, exp, equal_nan=True, atol=1e-9):
        res.fail('shift-value', f'{case}: measured {v} instead of {exp} {c}')
        return
    ok = ~np.isnan(exp)
    if (ok != ~np.isnan(c)).any() or (c[ok] < .98).any():
        res.fail('shift-corr', f'{case}: coefficients {c}')
    if np.ndim(dt.value) != 1 or np.shape(dt.sim_mat) != (len(rows), steps):
        res.fail('shift-shape', f'{case}: value of shape '
                 f'{np.shape(dt.value)}, matrix {np.shape(dt.sim_mat)}')
        return
    if len(dt.stats.corr_start) != len(rows):
        res.fail('shift-stats', f'{case}: {len(dt.stats.corr_start)} times')
    t = lags(lag)
    if ref == 'given':
        if win is not None:
            u = np.zeros(len(t), dtype=bool)
            for a, b in win:
                u |= (t >= a) & (t <= b)
                if side == 'both':
                    u |= (-t >= a) & (-t <= b)
            cb2 = bulk(lag, rows, f)
            cb2.data[:, ~u] = np.where(
                np.isnan(cb2.data[:, ~u]), np.nan, 3.3)
            v2, c2 = vals(meas(cb2), len(rows))
            if not (np.array_equal(v, v2, equal_nan=True)
                    and np.allclose(c, c2, equal_nan=True)):
                res.fail('shift-window', f'{case}: data outside the window '
                         f'change {v} to {v2}')
            # each used sample matters
            edge = {x*y for a, b in win for x in (a, b - 1/SR)
                    for y in ((1, -1) if side == 'both' else (1,))}
            for x in sorted(edge) if ok.any() else ():
                cb2 = bulk(lag, rows, f)
                cb2.data[:, np.argmin(np.abs(t - x))] += 5
                if np.allclose(c[ok], vals(meas(cb2), len(rows))[1][ok]):
                    res.fail('shift-edge', f'{case}: sample {x} not used')
            if len(win) > 1:
                # the windows count equally
                sm = [cb.copy().measure_shift(
                    ref_trc=wave(t), tw=[list(w)], shift_range=rng,
                    shift_steps=steps, sides=side, return_sim_mat=True
                    ).sim_mat for w in win]
                if not np.allclose(dt.sim_mat, np.mean(sm, axis=0),
                                   atol=.03, equal_nan=True):
                    res.fail('shift-windows', f'{case}: {dt.sim_mat} from '
                             f'{sm}')
        for sel in [slice(None, None, -1)] + [[i] for i in range(len(rows))]:
            rr = list(np.array(rows, dtype=object)[sel])
            v3, c3 = vals(meas(bulk(lag, rr, f), False), len(rr))
            if not (v3.shape == v[sel].shape and np.array_equal(
                    v3, v[sel], equal_nan=True)):
                res.fail('shift-rows', f'{case}: rows {rr} give {v3}')
    cb4 = bulk(lag, rows, f)
    cb4.correct_shift(dt)
    mid = (t > lag[0] + 1.2) & (t < lag[1] - 1.2)
    for i, r in enumerate(rows):
        got = cb4.data[i]
        if r is None:
            if not np.isnan(got).all():
                res.fail('shift-correct-nan', f'{case}: row {i} not empty')
        elif np.abs(got - wave(t))[mid].max() > .12:
            res.fail('shift-correct', f'{case}: row {i} is not corrected: '
                     f'{np.abs(got - wave(t))[mid].max()}')
    again = vals(meas(cb4), len(rows))[0]
    if not np.allclose(again[ok], 0):
        res.fail('shift-again', f'{case}: {again} after the correction')


WWIN = [(0, 12), (3, 25), (20, 29), (0, 30)]


def run_wfc(case, res):
    """coherence with each reference in each lapse window"""
    lag, side, rows = case['lag'], case['side'], case['rows']
    t = lags(lag)
    k = np.round(t*SR).astype(int)
    cb = bulk(lag, rows, lambda t, r: wave(t - .2*r)*(1 + r) + .1*r)
    refs = np.array([wave(t + .1*i)*(i + 1) + .2*np.sin(t*i)
                     for i in range(case['nref'])])
    wins = [WWIN[w] for w in case['wins']]
    before = cb.data.copy()
    w = cb.wfc(refs if len(refs) > 1 else refs[0],
               [np.arange(*x, dtype=float) for x in wins], side, 1., 5., .1,
               .5)
    res.count(transitions=1)
    res.see('wfc', side, tuple(case['wins']))
    if not np.array_equal(before, cb.data, equal_nan=True):
        res.fail('wfc-input', f'{case}: data changed')
    if sorted(w) != [f'reftr_{i}' for i in range(len(refs))]:
        res.fail('wfc-keys', f'{case}: {sorted(w)}')
        return
    for i, ref in enumerate(refs):
        exp = np.full((len(wins), len(rows)), np.nan)
        for j, (a, b) in enumerate(wins):
            pos, neg = (k >= a) & (k < b), (-k >= a) & (-k < b)
            u = {'both': pos | neg, 'left': neg, 'right': pos,
                 'single': np.isin(np.arange(len(k)), np.arange(a, b))}[side]
            for m, x in enumerate(before):
                if not np.isnan(x).any():
                    exp[j, m] = np.sum(x[u]*ref[u])/np.sqrt(
                        np.sum(x[u]**2)*np.sum(ref[u]**2))
        g = np.asarray(w[f'reftr_{i}'])
        if g.shape != exp.shape or not np.allclose(
                g, exp, atol=1e-9, equal_nan=True):
            res.fail('wfc', f'{case}: reference {i}: {g} instead of {exp}')
            return
    w.compute_average()
    e = [np.nanmean(w[f'reftr_{i}']) for i in range(len(refs))]
    if not np.allclose([w.av[f'reftr_{i}_av'] for i in range(len(refs))], e,
                       equal_nan=True) or not np.allclose(
                           w.mean, np.nanmean(e), equal_nan=True):
        res.fail('wfc-mean', f'{case}: {w.av} {w.mean} {e}')


def run_mref(case, res):
    """
    Many references with different stretches: the combination removes the
    differences between them
    """
    n, lag = case['nref'], (-10., 10.)
    st = .004
    off = np.array([(i*case['perm']) % n for i in range(n)]) - n//2
    off = off if case['perm'] != 1 else np.arange(n) - n//2
    t = lags(lag)
    refs = np.array([wave(t*np.exp(-st*o)) for o in off])
    rows = [None if r is None else r - 3 for r in case['rows']]
    cb = bulk(lag, rows, lambda t, r: wave(t*np.exp(-st*r)))
    dv = cb.stretch(refs, stretch_range=15*st, stretch_steps=31,
                    return_sim_mat=True)
    res.count(transitions=1)
    exp = np.array([np.nan if r is None else r*st for r in rows])
    ok = ~np.isnan(exp)
    v, c = vals(dv, len(rows))
    res.see('mref', n, tuple(np.round(np.nan_to_num(v, nan=9), 4)))
    if v.shape != exp.shape or not np.allclose(
            v, exp, equal_nan=True, atol=1e-9):
        res.fail('mref-value', f'{case}: {v} instead of {exp}')
        return
    if (c[ok] < .999).any():
        res.fail('mref-corr', f'{case}: {c}: references are not aligned')
    if np.shape(dv.sim_mat) != (len(rows), 31):
        res.fail('mref-shape', f'{case}: {np.shape(dv.sim_mat)}')


def run_clock(case, res):
    lag, side, win, ref = (case[k] for k in ('lag', 'side', 'win', 'ref'))
    rows = case['rows']
    if ref == 'none':
        rows = [None if r is None else 0 for r in rows]
    cb = bulk(lag, rows, lambda t, r: wave(t - r/SR))
    r0 = wave(lags(lag))
    kw = {}
    if ref != 'none':
        kw['ref_trc'] = r0 if ref == 'given' else r0[None, :]
    before = cb.data.copy()
    cs = list(cb.stats.corr_start)
    dv = cb.find_clock_shift(
        tw=None if win is None else [np.arange(*win)], shift_range=4,
        shift_steps=9, sides=side, return_sim_mat=True, **kw)
    res.count(transitions=1)
    exp = np.array([np.nan if r is None else r for r in rows], dtype=float)
    v, c = vals(dv, len(rows))
    res.see('clock', side, tuple(np.nan_to_num(v, nan=9)))
    if not np.array_equal(before, cb.data, equal_nan=True) \
            or list(cb.stats.corr_start) != cs \
            or cb.stats.npts != before.shape[1]:
        res.fail('clock-input', f'{case}: measuring changed the input')
    if v.shape != exp.shape or not np.allclose(v, exp, equal_nan=True):
        res.fail('clock-value', f'{case}: {v} instead of {exp}')
        return
    if len(dv.stats.corr_start) != len(rows):
        res.fail('clock-stats', f'{case}: {len(dv.stats.corr_start)} times')
    if (c[~np.isnan(exp)] < .85).any():
        res.fail('clock-corr', f'{case}: {c}')


def run_apply(case, res):
    """corrections by given values"""
    from seismic.monitor.dv import DV
    lag, rows = case['lag'], case['rows']
    t = lags(lag)
    v = np.array([np.nan if r is None else r for r in rows])
    cb = bulk(lag, rows, lambda t, r: wave(t*np.exp(-r)))
    dv = DV(np.ones(len(v)), v, 'stretch', None, GRID, 'single_ref', cb.stats)
    cb.correct_stretch(dv)
    res.count(transitions=1)
    res.see('apply', tuple(np.nan_to_num(v, nan=9)))
    mid = (np.abs(t) < 6) & (t > lag[0] + .5)
    for i, r in enumerate(rows):
        if r is None:
            if np.isfinite(cb.data[i]).any():
                res.fail('apply-nan', f'{case}: row {i} not empty')
        elif not (np.abs(cb.data[i] - wave(t))[mid].max() < APPLY):
            res.fail('apply', f'{case}: row {i}: '
                     f'{np.abs(cb.data[i] - wave(t))[mid].max()}')


def run_ref(case, res):
    lag = (-10., 10.)
    rows, meth = case['rows'], case['meth']
    cb = bulk(lag, rows, lambda t, r: wave(t - .3*r)*(1 + r))
    before = cb.data.copy()
    out = np.squeeze(cb.extract_trace(method=meth))
    res.count(transitions=1)
    if not np.array_equal(before, cb.data, equal_nan=True):
        res.fail('ref-input', f'{case}: data changed')
    av = before[[i for i, r in enumerate(rows) if r is not None]]
    if not len(av):
        res.nontrivial = False
        if not np.isnan(out).all():
            res.fail('ref-empty', f'{case}: reference without data')
        return
    nav = av/np.abs(av).max(axis=1)[:, None]
    if meth == 'mean':
        exp = av.mean(axis=0)
    elif meth == 'median':
        exp = np.median(av, axis=0)
    elif meth == 'norm_mean':
        exp = nav.mean(axis=0)
    else:
        m = nav.mean(axis=0)
        cc = (nav @ m)/np.sqrt((nav**2).sum(axis=1)*(m**2).sum())
        # equal coefficients may be taken or not
        th = np.percentile(cc, 50)
        exp = nav[cc > th + 1e-9].mean(axis=0) if (cc > th + 1e-9).any() \
            else nav[cc >= th - 1e-9].mean(axis=0)
        alt = nav[cc >= th - 1e-9].mean(axis=0)
        if np.allclose(out, alt):
            exp = alt
    if out.shape != exp.shape or not np.allclose(out, exp):
        res.fail(f'ref-{meth}', f'{case}: wrong reference '
                 f'{out[:3]} {exp[:3]}')
    # unavailable rows do not matter
    cb2 = bulk(lag, [r for r in rows if r is not None],
               lambda t, r: wave(t - .3*r)*(1 + r))
    o2 = np.squeeze(cb2.extract_trace(method=meth))
    if not np.allclose(out, o2, equal_nan=True):
        res.fail('ref-nan', f'{case}: depends on unavailable rows')


def run_multiref(case, res):
    n = case['n']
    for order in {tuple(range(n)), tuple(range(n))[::-1],
                  tuple(range(n))[n//2:] + tuple(range(n))[:n//2]}:
        multiref(case, res, list(order))


def multiref(case, res, order):
    """references of rows in any order"""
    n, inc = case['n'], case['inc']
    cb = bulk((-10., 10.), order, lambda t, r: wave(t)*(r + 1) + r)
    for k in ('corr_start', 'corr_end'):
        v = list(cb.stats[k])
        cb.stats[k] = [v[i] for i in order]
    out = cb.extract_multi_trace(win_inc=inc, method='mean')
    res.count(transitions=1)
    exp = []
    if inc == 0:
        exp = [cb.data.mean(axis=0)]
        out = np.atleast_2d(np.squeeze(out))
    else:
        if isinstance(inc, list):
            edges = np.cumsum([0] + inc)
        else:
            edges = np.arange(0, n + inc, inc)
        for a, b in zip(edges[:-1], edges[1:]):
            h = (b - a)/2
            sel = [i for i in range(n)
                   if order[i] + 1 >= a - h and order[i] <= b + h]
            exp.append(cb.data[sel].mean(axis=0))
        if not isinstance(inc, list):
            exp = exp[:-(-n//inc)]
    if len(out) != len(exp):
        res.fail('multiref-number', f'{case} {order}: {len(out)} references '
                 f'instead of {len(exp)}')
        return
    for i, (a, b) in enumerate(zip(out, exp)):
        if not np.allclose(a, b, equal_nan=True):
            res.fail('multiref', f'{case} {order}: reference {i} is wrong')


def run_case(case):
    res = Result()
    case = dict(case)
    if 'lag' in case:
        case['lag'] = tuple(case['lag'])
    if 'rows' in case:
        res.nontrivial = any(r is not None for r in case['rows'])
    {'stretch': run_stretch, 'apply': run_apply, 'shift': run_shift,
     'ref': run_ref, 'multiref': run_multiref, 'wfc': run_wfc, 'mref': run_mref,
     'clock': run_clock, 'windows': run_windows}[case['kind']](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
