"""
Velocity changes: each calendar window uses its own correlations only.
"""
import itertools
import os
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc import proj as P       # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all subsets of a universe of correlation windows x products of date '
    'increment, window length, period, lapse window, sides, travel time, '
    'reference; the whole path (database, Monitor, result file) runs for '
    'each. Every correlation is a stretched copy of one wavefield, stretches '
    'differ between lapse windows, sides and calendar windows, so that the '
    'value of every window is known. Each execution is repeated with one '
    'correlation altered: only windows that contain it may change. '
    'Non-trivial: at least one correlation in a window.')
ASSUMPTIONS = [
    'correlations of one calendar window carry the same stretch where the '
    'value is compared with the true one']
CHUNK = 2
H = 3600.
# start, length (in hours) of the correlations
UNI = [(-.5, 1.), (0., 1.), (.5, 1.), (1., 1.), (2., 1.), (2.75, 1.),
       (3., 1.)]


def cases(tier):
    out = []
    n = 4 if tier == 'quick' else len(UNI)
    for k in range(1, n + 1):
        for sub in itertools.combinations(range(len(UNI)), k):
            grids = [(1, 1, 4), (1, 2, 3), (2, 1, 4), (.5, 1, 3), (4, 4, 4)]
            if tier != 'quick':
                grids += [(1, 4, 4), (.25, .5, 3.5), (3, 2, 4), (1, 1, 3.5)]
            for inc, wl, end in grids:
                out.append(dict(kind='grid', sub=sub, inc=inc, wl=wl,
                                end=end))
    for side, tw, tt, ref in itertools.product(
            ['both', 'left', 'right', 'single'],
            [(0, 5), (5, 4), (1, None), (5, None)], [None, 0, 5, 5.4],
            ['own', 'given']):
        if tt and (tw[0] == 5 or tw[1] is None):
            continue
        out.append(dict(kind='lapse', side=side, tw=tw, tt=tt, ref=ref))
    for d, f in itertools.product([None, 3.], [(5, 9), (20, 5)]):
        out.append(dict(kind='toolong', dist=d, tw=f))
    for f in itertools.product(['none', 'pop', 'select', 'exclude'],
                               ['none', 'smooth', 'mirror'],
                               ['none', 'smooth_sim_mat']):
        out.append(dict(kind='proc', f=f))
    for inc, steps, refs in itertools.product([0, 1, [1, 1]], [7, 13],
                                              [False, True]):
        out.append(dict(kind='ref', inc=inc, steps=steps, missing=refs))
    for k in (2, 3):
        for tts in itertools.product([None, 0, 3, 5.4],
                                     repeat=k if tier != 'quick' else 2):
            for nch, what in itertools.product([1, 2], ['dv', 'wfc']):
                if k == 3 and tier == 'quick':
                    tts = tts[:2] + (tts[0],)
                if what == 'wfc' and len(set(tts)) > 1:
                    continue
                out.append(dict(kind='multi', tts=tts, nch=nch, what=what))
    for k in range(1, 4 if tier == 'quick' else 5):
        for f in itertools.permutations(WFUN, k):
            out.append(dict(kind='wfcproc', f=f))
    return out


WFUN = {
    'pop': dict(function='pop_at_utcs', args={
        'utcs': np.array([B.utc(H*1.5)])}),
    'select': dict(function='select_time', args={
        'start': (1, 0, 0), 'end': (4, 0, 0), 'exclude': False}),
    'smooth': dict(function='smooth', args={
        'wsize': 7, 'wtype': 'hanning', 'axis': 0}),
    'envelope': dict(function='envelope', args={}),
    'taper': dict(function='taper_center', args={
        'width': 3., 'slope_frac': .05})}


def run(d, traces, opts, ref=None, ch='HHZ-HHZ'):
    """One complete execution; the result as it was saved"""
    from seismic.monitor.dv import read_dv
    p = os.path.join(d, 'corr', 'A-A.S-S.h5')
    if os.path.exists(p):
        os.remove(p)
    P.write_db(p, traces)
    with P.MonitorProject(opts) as m:
        m.compute_velocity_change(
            p, 'subdivision', 'A-A', 'S-S', ch,
            **({} if ref is None else dict(ref_trcs=ref)))
    fn = [f for f in os.listdir(os.path.join(d, 'dv'))]
    if fn != [f'DV-A-A.S-S.{ch}.npz']:
        raise RuntimeError(f'files {fn}')
    dv = read_dv(os.path.join(d, 'dv', fn[0]))
    os.remove(os.path.join(d, 'dv', fn[0]))
    return dv


def windows(start, end, inc, wl):
    out = []
    k = 0
    while start + k*inc < end - 1e-9:
        out.append((start + k*inc, start + k*inc + wl))
        k += 1
    return out


def run_grid(case, res):
    sub = case['sub']
    wins = windows(0, case['end'], case['inc'], case['wl'])
    t = P.lagtimes()
    ref = P.wave(t)
    members = [[i for i in sub if a <= UNI[i][0] < b] for a, b in wins]
    res.nontrivial = any(members)

    def make(assign, alter=None):
        trs = []
        for i in sub:
            dat = P.wave(t*np.exp(-P.GRID[assign[i]]))*(1 + .1*i)
            if i == alter:
                dat = P.wave(t*np.exp(.035) + .21)
            s, ln = UNI[i]
            trs.append(P.corr_trace('A-A', 'S-S', 'HHZ-HHZ', s*H,
                                    (s + ln)*H, dat))
        return trs

    with B.Scratch('c15') as d:
        opts = P.dv_options(d, 0, case['end']*H, case['inc']*H,
                            case['wl']*H)
        # windows that share no correlation get different stretches
        group = {i: i for i in sub}
        for m in members:
            for i in m[1:]:
                a, b = group[m[0]], group[i]
                group = {k: (a if g == b else g) for k, g in group.items()}
        names = sorted(set(group.values()))
        assign = {i: [1, 5, 2, 6, 3, 0, 4][names.index(group[i])]
                  for i in sub}
        dv = run(d, make(assign), opts, ref)
        res.count(transitions=1)
        exp = np.array([P.GRID[assign[m[0]]] if m else np.nan
                        for m in members])
        res.see(tuple(np.round(np.nan_to_num(exp, nan=9), 3)))
        if np.shape(dv.value) != exp.shape:
            res.fail('rows', f'{case}: {np.shape(dv.value)} values for '
                     f'{len(wins)} windows')
            return
        if not np.allclose(dv.value, exp, equal_nan=True, atol=1e-9):
            res.fail('value', f'{case}: {dv.value} instead of {exp}')
        ok = ~np.isnan(exp)
        if not np.array_equal(dv.avail, ok) or \
                not np.array_equal(np.isnan(dv.corr), ~ok) or \
                (dv.corr[ok] < .9).any():
            res.fail('avail', f'{case}: coefficients {dv.corr}')
        if dv.sim_mat.shape != (len(wins), len(P.GRID)):
            res.fail('sim', f'{case}: matrix {dv.sim_mat.shape}')
        for name, j in (('corr_start', 0), ('corr_end', 1)):
            got = list(dv.stats[name])
            if len(got) != len(wins) or any(
                    abs(g - B.utc(w[j]*H)) > 1e-3
                    for g, w in zip(got, wins)):
                res.fail('times', f'{case}: {name} {got}')
        if dv.stats.channel != 'HHZ-HHZ' or dv.stats.station != 'S-S' or \
                dv.stats.network != 'A-A':
            res.fail('codes', f'{case}: {dv.stats.id}')
        # alter each correlation
        for i in sub:
            dv2 = run(d, make(assign, i), opts, ref)
            res.count(transitions=1)
            for w, m in enumerate(members):
                same = np.array_equal(dv.sim_mat[w], dv2.sim_mat[w],
                                      equal_nan=True)
                if i in m and same:
                    res.fail('ignored', f'{case}: correlation {i} does not '
                             f'influence window {w}')
                if i not in m and not same:
                    res.fail('foreign', f'{case}: correlation {i} '
                             f'influences window {w}')


# stretch (grid index) of the lapse time regions
REGION = {('left', 0): 1, ('left', 1): 5, ('right', 0): 4, ('right', 1): 2}


def run_lapse(case, res):
    side, tt = case['side'], case['tt']
    tw0, tlen = case['tw']
    t = P.lagtimes()

    def field(sh):
        x = np.zeros_like(t)
        for (sd, part), k in REGION.items():
            sg = t < 0 if sd == 'left' else t >= 0
            sg &= (np.abs(t) < 5) if part == 0 else (np.abs(t) >= 5)
            x[sg] = P.wave(t*np.exp(-P.GRID[k]*sh))[sg]
        return x

    with B.Scratch('c15') as d:
        opts = P.dv_options(
            d, 0, 3*H, H, H, sides=side, tw_start=tw0, tw_len=tlen,
            compute_tt=tt is not None, rayleigh_wave_velocity=2.,
            freq_max=1.9, freq_min=.01)
        trs = []
        # windows: reference field, empty, stretched field
        # (difference in elevation 3 km)
        coords = None if tt is None else dict(stel=11000., evel=8000.)
        dist = None if tt is None else np.sqrt(max((2*tt)**2 - 9, 0)) \
            if tt else 0.
        if tt == 0:
            coords = None
        for i, sh in ((0, 0.), (2, 1.)):
            trs.append(P.corr_trace(
                'A-A', 'S-S', 'HHZ-HHZ', i*H, i*H + H, field(sh), dist=dist,
                coords=coords))
        ref = P.wave(t) if case['ref'] == 'given' else None
        dv = run(d, trs, opts, ref)
        res.count(transitions=1)
        # region that is measured (travel times are rounded to seconds)
        part = 1 if tw0 + round(tt or 0) >= 5 else 0
        res.see(side, part, tuple(np.round(np.nan_to_num(dv.value), 3)))
        if np.isnan(dv.value).tolist() != [False, True, False]:
            res.fail('lapse-avail', f'{case}: {dv.value}')
            return
        if case['ref'] == 'own':
            # reference is made from both; they differ by the stretch
            if side == 'both' or tlen is None:
                return
        elif dv.value[0] != 0:
            res.fail('lapse-value', f'{case}: {dv.value[0]} instead of 0')
        if side == 'both':
            return
        sd = 'right' if side == 'single' else side
        exp = P.GRID[REGION[sd, part]]
        if tlen is None and part == 0:
            # both regions contribute
            return
        got = dv.value[2] - (dv.value[0] if case['ref'] == 'own' else 0)
        if case['ref'] == 'own':
            if np.sign(got) != np.sign(exp):
                res.fail('lapse-sign', f'{case}: {dv.value}')
        elif abs(got - exp) > 1e-9:
            res.fail('lapse-value', f'{case}: {got} instead of {exp}')


def run_toolong(case, res):
    t = P.lagtimes()
    with B.Scratch('c15') as d:
        opts = P.dv_options(
            d, 0, H, H, H, tw_start=case['tw'][0], tw_len=case['tw'][1],
            compute_tt=case['dist'] is not None)
        trs = [P.corr_trace('A-A', 'S-S', 'HHZ-HHZ', 0, H, P.wave(t),
                            dist=case['dist'])]
        res.count(transitions=1)
        try:
            run(d, trs, opts)
        except ValueError as e:
            res.see(str(e)[:20])
            if 'lengthToSave' not in str(e):
                res.fail('toolong-msg', f'{case}: {e}')
            return
        res.fail('toolong', f'{case}: window after the end is accepted')


def run_proc(case, res):
    pre, mid, post = case['f']
    t = P.lagtimes()
    K = [0, 2, 4, 6]
    with B.Scratch('c15') as d:
        opts = P.dv_options(d, 0, 4*H, H, H)
        pr = []
        avail = [True]*4
        if pre == 'pop':
            pr.append({'function': 'pop_at_utcs', 'args': {
                'utcs': np.array([B.utc(H*1.5)])}})
            avail[1] = False
        elif pre != 'none':
            pr.append({'function': 'select_time', 'args': {
                'start': (1, 0, 0), 'end': (3, 0, 0),
                'exclude': pre == 'exclude'}})
            avail = [False, True, True, False]
            if pre == 'exclude':
                avail = [not a for a in avail]
        if mid == 'smooth':
            # over lapse time, one sample: no effect
            pr.append({'function': 'smooth', 'args': {
                'wsize': 1, 'wtype': 'flat', 'axis': 1}})
        elif mid == 'mirror':
            pr.append({'function': 'mirror', 'args': {}})
            opts['dv']['sides'] = 'single'
        opts['dv']['preprocessing'] = pr
        if post != 'none':
            opts['dv']['postprocessing'] = [
                {'function': 'smooth_sim_mat', 'args': {'win_len': 1}}]
        trs = []
        for i, k in enumerate(K):
            x = P.wave(t*np.exp(-P.GRID[k]))
            if mid == 'mirror':
                x = P.wave(np.abs(t)*np.exp(-P.GRID[k]))
            trs.append(P.corr_trace('A-A', 'S-S', 'HHZ-HHZ', i*H + 60,
                                    i*H + H - 60, x))
        ref = P.wave(t)
        if mid == 'mirror':
            ref = P.wave(t[t >= 0])
        dv = run(d, trs, opts, ref)
        res.count(transitions=1)
        exp = np.array([P.GRID[k] if a else np.nan
                        for k, a in zip(K, avail)])
        res.see(tuple(np.isnan(exp)))
        if not np.allclose(dv.value, exp, equal_nan=True, atol=1e-9):
            res.fail(f'proc-{pre}-{mid}-{post}',
                     f'{case}: {dv.value} instead of {exp}')


def run_ref(case, res):
    """The reference is made from the data"""
    t = P.lagtimes()
    n = 5
    grid = np.linspace(-.06, .06, case['steps'])
    true = [-.02, .02, 0., .02, -.02]
    have = [0, 2, 3] if case['missing'] else list(range(n))
    D = 86400
    with B.Scratch('c15') as d:
        opts = P.dv_options(d, 0, n*D, D, D, stretch_steps=case['steps'])
        opts['dv']['dt_ref']['win_inc'] = case['inc']
        if isinstance(case['inc'], list):
            opts['dv']['dt_ref']['win_inc'] = [1, 2]
        trs = [P.corr_trace('A-A', 'S-S', 'HHZ-HHZ', i*D, i*D + D,
                            P.wave(t*np.exp(-true[i]))) for i in have]
        dv = run(d, trs, opts)
        res.count(transitions=1)
        v = dv.value
        if v.shape != (n,) or [i for i in range(n) if not np.isnan(v[i])] \
                != have:
            res.fail('ref-avail', f'{case}: {v}')
            return
        # relative changes do not depend on the reference
        rel = np.array([v[i] - v[have[0]] for i in have])
        exp = np.array([true[i] - true[have[0]] for i in have])
        res.see(case['inc'] == 0, tuple(np.round(rel, 3)))
        if np.abs(rel - exp).max() > (grid[1] - grid[0])*1.01:
            res.fail('ref-value', f'{case}: {v}; expected {true} up to a '
                     'constant')


def run_multi(case, res):
    """
    Several pairs and channels in one run: each result is the one of a run of
    its own, and does not depend on the amplitude of single correlations
    """
    t = P.lagtimes()
    what = case['what']
    chs = ['HHZ-HHZ', 'HHE-HHN'][:case['nch']]
    rng = [np.sin(t*f + f*f)*.3 for f in (1.3, 2.1, 3.7, 4.4)]

    def load(d):
        out = {}
        p = os.path.join(d, what)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            with np.load(os.path.join(p, f), allow_pickle=True) as z:
                out[f] = {k: z[k] for k in z.files}
        return out

    fmins, fmaxs = [.05, .3, .6], [1.6, 1.8, 1.2]

    def go(pairs, chans, scale, bulk, bands=(0, 1, 2), tws=(0, 1)):
        with B.Scratch('c15') as d:
            opts = P.dv_options(
                d, 0, 4*H, H, H, tw_start=1, tw_len=4,
                compute_tt=True, rayleigh_wave_velocity=2.)
            opts['wfc'] = dict(
                subdir='wfc', start_date=str(B.utc(0)),
                end_date=str(B.utc(4*H)), win_len=2*H, date_inc=H,
                freq_min=[fmins[k] for k in bands],
                freq_max=[fmaxs[k] for k in bands],
                tw_start=[(0, 3)[k] for k in tws], tw_len=4, save_comps=False, preprocessing=[], dt_ref=dict(
                    win_inc=0, method='mean', percentile=50))
            paths = []
            for i in pairs:
                tt = case['tts'][i]
                trs = []
                for ch in chans:
                    c = chs.index(ch)
                    for j in range(4):
                        x = P.wave(t*np.exp(-P.GRID[(i + 2*c + 2*j) % 7]))
                        # one part of the lapse time is different
                        g = np.abs(t) > 5
                        x[g] = P.wave(
                            t*np.exp(-P.GRID[(3*i + c + j) % 7]))[g]
                        x += rng[(i + j) % 4]
                        x *= scale.get((i, j), 1.)
                        trs.append(P.corr_trace(
                            'A-A', f'S{i}-S{i}', ch, j*H, j*H + H, x,
                            dist=None if tt is None else 2.*tt))
                paths.append(os.path.join(d, 'corr', f'A-A.S{i}-S{i}.h5'))
                P.write_db(paths[-1], trs)
            with P.MonitorProject(opts) as m:
                if what == 'dv' and bulk:
                    m.compute_velocity_change_bulk()
                elif bulk:
                    m.compute_waveform_coherence_bulk()
                elif what == 'dv':
                    for p, i in zip(paths, pairs):
                        for ch in chans:
                            m.compute_velocity_change(
                                p, 'subdivision', 'A-A', f'S{i}-S{i}', ch)
                else:
                    return {(i, ch, k): w for p, i in zip(paths, pairs)
                            for ch in chans for k, w in enumerate(
                                m.compute_waveform_coherence(
                                    p, 'subdivision', 'A-A', f'S{i}-S{i}',
                                    ch))}
            return load(d)

    def same(tag, a, b, only=False):
        if not only and set(a) != set(b) or only and set(b) - set(a):
            res.fail(f'multi-{tag}', f'{case}: {sorted(set(a) ^ set(b))}')
            return
        for f in b:
            for k in b[f]:
                x, y = a[f][k], b[f][k]
                ok = x.shape == y.shape
                if ok and y.dtype.kind in 'fc':
                    ok = np.allclose(x, y, rtol=1e-6, atol=1e-9,
                                     equal_nan=True)
                elif ok:
                    ok = str(x.tolist()) == str(y.tolist())
                if not ok:
                    res.fail(f'multi-{tag}', f'{case} {f} {k}: {x} instead '
                             f'of {y}')
                    return

    pairs = list(range(len(case['tts'])))
    full = go(pairs, chs, {}, True)
    res.count(transitions=1)
    res.nontrivial = len(full) > 1
    res.see(what, len(full), len({v['value'].tobytes() if 'value' in v else 0
                                  for v in full.values()}))
    if what == 'dv' and len(full) != len(pairs)*len(chs):
        res.fail('multi-files', f'{case}: {sorted(full)}')
        return
    for i in pairs:
        own = go([i], chs, {}, True)
        same('pair', full, own, True)
        res.count(transitions=1)
        if what == 'dv':
            for ch in chs:
                same('channel', full, go([i], [ch], {}, False), True)
                res.count(transitions=1)
    if what == 'wfc':
        if len(full) != 6*len(pairs):
            res.fail('multi-files', f'{case}: {sorted(full)}')
            return
        for bands, tws in itertools.product(
                [(0,), (1,), (2,), (2, 0)], [(0,), (1,)]):
            own = go(pairs, chs, {}, True, bands, tws)
            if len(own)*6 != len(full)*len(bands):
                res.fail('multi-files', f'{case}: {sorted(own)}')
            same('band', full, own, True)
            res.count(transitions=1)
    same('amplitude', full, go(pairs, chs, {
        (0, 1): 40., (1, 2): .01, (1, 3): 7.}, True))
    res.count(transitions=1)


def run_wfcproc(case, res):
    """
    Every requested function is applied, in the order given; correlations
    that are taken out do not count, wherever in the list that is asked for
    """
    t = P.lagtimes()
    gone = set()
    if 'pop' in case['f']:
        gone.add(1)
    if 'select' in case['f']:
        gone |= {0, 4}
    rest = [f for f in case['f'] if f not in ('pop', 'select')]

    def go(funs, without=()):
        with B.Scratch('c15') as d:
            opts = P.dv_options(d, 0, 5*H, H, H)
            opts['wfc'] = dict(
                subdir='wfc', start_date=str(B.utc(0)),
                end_date=str(B.utc(5*H)), win_len=H, date_inc=H,
                freq_min=[.3, .1], freq_max=[1.6, 1.1], tw_start=[0, 2],
                tw_len=5, save_comps=False,
                preprocessing=[WFUN[f] for f in funs],
                dt_ref=dict(win_inc=0, method='mean', percentile=50))
            trs = []
            for j in range(5):
                if j in without:
                    continue
                x = P.wave(t*np.exp(-P.GRID[(2*j + 1) % 7])) + .4*np.sin(
                    t*(1.3 + .7*j) + j)*(1 + .2*j)
                trs.append(P.corr_trace('A-A', 'S-S', 'HHZ-HHZ', j*H + 60,
                                        j*H + H - 60, x))
            p = os.path.join(d, 'corr', 'A-A.S-S.h5')
            P.write_db(p, trs)
            with P.MonitorProject(opts) as m:
                out = [{k: np.array(v) for k, v in w.items()} for w in
                       m.compute_waveform_coherence(
                           p, 'subdivision', 'A-A', 'S-S', 'HHZ-HHZ')]
        res.count(transitions=1)
        return out

    def diff(a, b):
        if len(a) != len(b) or any(set(x) != set(y) for x, y in zip(a, b)):
            return 'files'
        for i, (x, y) in enumerate(zip(a, b)):
            for k in x:
                if x[k].shape != y[k].shape or not np.allclose(
                        x[k], y[k], rtol=1e-6, atol=1e-9, equal_nan=True):
                    return f'{i} {k}'
        return None

    got = go(case['f'])
    if len(got) != 4:
        res.fail('wfcproc-files', f'{case}: {len(got)} results')
        return
    for i, w in enumerate(got):
        nan = [bool(np.all(np.isnan(r))) for r in w['reftr_0'].T] if w[
            'reftr_0'].ndim == 2 and w['reftr_0'].shape[1] == 5 else [
            bool(np.isnan(r)) for r in w['reftr_0'].ravel()]
        if nan != [j in gone for j in range(5)]:
            res.fail('wfcproc-missing', f'{case} {i}: {w["reftr_0"]}; '
                     f'{sorted(gone)} are missing')
            break
    exp = go(rest, gone)
    x = diff(got, exp)
    if x:
        res.fail('wfcproc-select', f'{case}: {x} differs from the result '
                 f'without {sorted(gone)}')
    for i in range(len(rest)):
        fewer = rest[:i] + rest[i+1:]
        if diff(go(fewer, gone), exp) is None:
            res.fail('wfcproc-effect', f'{case}: {rest[i]} has no effect')
    if gone and diff(go(rest), exp) is None:
        res.fail('wfcproc-effect', f'{case}: nothing is taken out')
    res.nontrivial = True
    res.see(bool(gone), len(rest))


def run_case(case):
    res = Result()
    case = {k: tuple(v) if isinstance(v, list) and k != 'inc' else v
            for k, v in case.items()}
    {'grid': run_grid, 'lapse': run_lapse, 'toolong': run_toolong,
     'proc': run_proc, 'ref': run_ref, 'multi': run_multi, 'wfcproc': run_wfcproc}[
         case['kind']](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
