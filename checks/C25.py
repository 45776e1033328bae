"""
Figures: curves, images, and meshes show exactly the selected data.
"""
import copy
import itertools
import os
import warnings
from datetime import timedelta

os.environ['MPLBACKEND'] = 'Agg'
import numpy as np             # noqa: E402

from mc import fakempi         # noqa: E402
fakempi.install()
from mc import build as B      # noqa: E402
from mc import proj as P       # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
import matplotlib              # noqa: E402
matplotlib.use('Agg')
from matplotlib import pyplot as plt            # noqa: E402
from matplotlib.collections import PolyCollection, QuadMesh  # noqa: E402
from matplotlib.dates import date2num           # noqa: E402

LEVEL = 'model_checking'
RULE = (
    'complete products of up to 3 correlations (times x distances x '
    'azimuths x orders) x kind of figure x sorting x limits x axes; matrices '
    'with 1-6 times; velocity changes of every method x patterns of missing '
    'values x similarity matrix x limits; all histories of saving figures '
    'under default and given names up to a length; all subsets of result '
    'files (channels, averages, corrupt) x selections; spectra x limits x '
    'normalisation x missing values; coherences on incomplete grids. The '
    'artists of the figure are read back: each curve, and each cell of an '
    'image or mesh that covers the position of a value, has to show this '
    'value, and nothing else may be drawn. Non-trivial: more than one '
    'distinct value is shown.')
ASSUMPTIONS = ['matplotlib draws what its artists hold']
CHUNK = 8
H = 3600

# start (hours), distance, azimuth
CORRS = [(0, 2.5, 40.), (1, .7, 200.), (3, 12., 180.), (2, 30., 359.),
         (5, 0., 0.)]
LAGS = [(-2., 17), (-1., 17), (.5, 9), (-1.6, 24)]


def cases(tier):
    full = tier != 'quick'
    out = []
    for lag, lim, ax in itertools.product(
            range(len(LAGS)), (None, (-.5, 1.)), ('none', 'cur', 'other')):
        for clean, save in itertools.product((False, True), repeat=2):
            out.append(dict(kind='ctr', lag=lag, lim=lim, ax=ax, clean=clean,
                            save=save))
    for k in (2, 3) if not full else (2, 3, 4):
        for c in itertools.permutations(range(len(CORRS)), k):
            for what, sort in itertools.product(
                    ('section', 'heatmap'),
                    ('corr_start', 'distance', 'dist')):
                if k > 2 and sort == 'dist':
                    continue
                lags = range(len(LAGS)) if k == 2 or full else (0,)
                for lag in lags:
                    out.append(dict(
                        kind='cst', corrs=list(c), what=what, sort=sort,
                        lag=lag))
    for lim, yl, ax, what, sort, scale in itertools.product(
            (None, (-1., 0.)), (None, True), ('none', 'cur', 'other'),
            ('section', 'heatmap'), ('corr_start', 'distance'), (None, 3.)):
        out.append(dict(kind='cst', corrs=[2, 0, 1], what=what, sort=sort,
                        lag=0, lim=lim, yl=yl, ax=ax, scale=scale))
    for n, lag, lim, yl, ax, cl in itertools.product(
            range(1, 7), range(len(LAGS)), (None, (-.5, 1.)), (None, True),
            ('none', 'cur', 'other'), (None, (-.5, .5))):
        if n > 3 and (lim or yl or cl) and not full:
            continue
        out.append(dict(kind='bulk', n=n, lag=lag, lim=lim, yl=yl, ax=ax,
                        cl=cl))
    for n in range(1, 6 if full else 5):
        for nan in itertools.product((False, True), repeat=n):
            if all(nan):
                continue
            for meth in METH:
                for sim, norm in ((False, False), (True, False),
                                  (True, True)):
                    out.append(dict(kind='dv', nan=list(nan), meth=meth,
                                    sim=sim, norm=norm))
            for ax in ('none', 'cur', 'other'):
                out.append(dict(kind='pub', nan=list(nan), ax=ax))
    for xl, yl, mark, scat in itertools.product(
            (None, (1, 3), (0, 2), (2, 2)), (None, (-.02, .03)),
            (None, 1), (False, True)):
        out.append(dict(kind='dv', nan=[False]*4, meth='single_ref',
                        sim=True, norm=False, xl=xl, yl=yl, mark=mark,
                        scat=scat))
        if not scat:
            out.append(dict(kind='pub', nan=[False]*4, ax='none', xl=xl,
                            yl=yl))
    for n, m, k, xl in itertools.product(
            (1, 2, 9, 10, 23, 40), (5, 10, 21, 60), (0, 1, 2, 5),
            (None, (0, 0), (1, 5))):
        if xl is None or n > xl[1] + 3:
            out.append(dict(
                kind='dv', nan=[k > 0 and i % k == k//2 and n > 1
                                for i in range(n)] if k != 1 else [False]*n,
                meth='single_ref', sim=True, norm=False, m=m, scat=True,
                xl=xl))
    for k in (1, 2, 3) + ((4,) if full else ()):
        for c in itertools.product(NAMES, repeat=k):
            if k > 2 and len(set(c)) > 2 and not full:
                continue
            out.append(dict(kind='save', names=list(c)))
    for k in range(1, len(FILES) + 1):
        for c in itertools.combinations(range(len(FILES)), k):
            for mean, filt in itertools.product(
                    (False, True), (None, ['S1'], ['S1', 'HHZ'],
                                    ['A-A.S?-S?.HHE*'], ['no'])):
                if k > 3 and filt and not full:
                    continue
                out.append(dict(kind='multi', files=list(c), mean=mean,
                                filt=filt, abs=k % 2 == 0))
    for nan, fl, tl, norm in itertools.product(
            ((), ((1, 2),), ((0, 0), (3, 4))),
            (None, (.5, 1.), (.6, 1.4), (0., 2.)),
            (None, (0, 4), (1, 3), (2, 4), (0, 1)),
            (None, ('f', 'mean'), ('t', 'mean'), ('f', 'linalg'),
             ('t', 'linalg'), ('f', 'median'), ('t', 'median'))):
        for log in (False, True) if full or not nan else (False,):
            out.append(dict(kind='spct', nan=nan, fl=fl, tl=tl, norm=norm,
                            log=log))
    for k in range(1, 5):
        for c in itertools.permutations(range(6), k):
            if k > 2 and list(c) != sorted(c) and not full:
                continue
            out.append(dict(kind='wfc', cells=list(c), log=k % 2 == 0))
    for st, ax, sign in itertools.product(
            (0, 1, 3), ('none', 'cur', 'other'), (-1, 0, 1)):
        out.append(dict(kind='grid', stations=st, ax=ax, sign=sign))
    for k in (1, 2):
        for c in itertools.permutations(
                ('HHZ-HHZ', 'HHE-HHE', 'HHE-HHN'), k):
            out.append(dict(kind='monitor', chs=list(c)))
    return out


METH = {'single_ref': 'stretch', 'multi_ref': 'stretch',
        'time_shift': 'shift', 'absolute_shift': 'shift'}
NAMES = ['plot_default', 'one', 'one.png', 'two.jpg']
FILES = ['DV-A-A.S0-S0.HHZ-HHZ', 'DV-A-A.S0-S0.HHE-HHE',
         'DV-A-A.S1-S1.HHZ-HHZ', 'DV-A-A.S0-S0.av-auto',
         'DV-A-A.S1-S1.av', 'DV-A-A.S1-S1.av-xc', 'bad', 'DV-bad-S1.av-auto']


# -- reading figures ---------------------------------------------------
def curves(ax, marks=0):
    out = []
    for ln in ax.get_lines():
        x, y = ln.get_xdata(orig=False), ln.get_ydata(orig=False)
        out.append((np.asarray(x, float), np.ma.filled(np.ma.asarray(
            y, float), np.nan)))
    return out


def fields(ax):
    """edges in both directions and values of every image and mesh"""
    out = []
    for im in ax.get_images():
        a = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
        x0, x1, y0, y1 = im.get_extent()
        if im.origin == 'upper':
            a = a[::-1]
        out.append((np.linspace(x0, x1, a.shape[1] + 1),
                    np.linspace(y0, y1, a.shape[0] + 1), a, None))
    for c in ax.collections:
        if not isinstance(c, QuadMesh):
            continue
        xy = np.asarray(c._coordinates, float)
        x, y = xy[0, :, 0], xy[:, 0, 1]
        a = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan).ravel()
        gouraud = len(a) == len(x)*len(y)
        shape = (len(y), len(x)) if gouraud else (len(y)-1, len(x)-1)
        out.append((x, y, a.reshape(shape), gouraud))
    return out


def at(field, x, y):
    """the cells that cover a position"""
    ex, ey, a, nodes = field
    out = set()

    def find(e, v):
        tol = 1e-9 + 1e-6*(np.max(e) - np.min(e))
        if nodes:
            return [int(np.argmin(np.abs(e - v)))] \
                if np.min(np.abs(e - v)) <= tol else []
        return [i for i in range(len(e) - 1)
                if min(e[i:i+2]) - tol <= v <= max(e[i:i+2]) + tol]

    for i in find(ey, y):
        for j in find(ex, x):
            out.add((i, j))
    return out


def shows(field, pts):
    """
    whether each point (x, y, value) is covered by a cell with its value, and
    each cell with a value has one of those points
    """
    a = field[2]
    used = set()
    for x, y, v in pts:
        cells = at(field, x, y)
        ok = {c for c in cells if (np.isnan(v) and np.isnan(a[c])) or abs(
            a[c] - v) <= 1e-6*max(1, abs(v))}
        if not ok:
            return f'{v} at {x}, {y} is shown as {[a[c] for c in cells]}'
        used |= ok
    for c in np.ndindex(*a.shape):
        if c not in used and not np.isnan(a[c]):
            return f'cell {c} shows {a[c]}'


def axes(kind):
    plt.close('all')
    if kind == 'none':
        return None, None
    fig, ax = plt.subplots(1, 2)
    plt.sca(ax[0 if kind == 'cur' else 1])
    return ax[0], ax[1]


def untouched(other):
    return other is None or not (
        other.get_lines() or other.get_images() or other.collections
        or other.get_xlabel() or other.get_ylabel() or other.get_title())


def inside(lim, x):
    return min(lim) - 1e-9 <= np.min(x) and np.max(x) <= max(lim) + 1e-9


# -- correlations ------------------------------------------------------
def corr(i, lag):
    from seismic.correlate.stats import CorrStats
    from seismic.correlate.stream import CorrTrace
    t, dist, az = CORRS[i]
    start, n = LAGS[lag]
    h = CorrStats(dict(
        network='A-A', station=f'A-S{i}', location='-', channel='HHZ-HHZ',
        corr_start=B.utc(t*H), corr_end=B.utc((t + 1)*H), start_lag=start,
        sampling_rate=4. if lag != 3 else 10., dist=dist, az=az))
    return CorrTrace(np.sin(np.arange(n)*(i + 1.3)), _header=h)


def num(t):
    return date2num(t.datetime)


def run_ctr(case, res):
    tr = corr(1, case['lag'])
    before = tr.data.copy()
    ax, other = axes(case['ax'])
    with B.Scratch('c25') as d:
        got = tr.plot(case['lim'], ax, d if case['save'] else None,
                      case['clean'])
        files = os.listdir(d)
    msg = str(case)
    if ax is not None and got is not ax:
        res.fail('ctr-ax', f'{msg}: drawn elsewhere')
    c = curves(got)
    if len(c) != 1 or not (np.allclose(c[0][0], tr.times())
                           and np.allclose(c[0][1], before)):
        res.fail('ctr-curve', f'{msg}: {c}')
    if not np.allclose(got.get_xlim(), case['lim'] or (
            tr.times()[0], tr.times()[-1])):
        res.fail('ctr-lim', f'{msg}: {got.get_xlim()}')
    if not untouched(other):
        res.fail('ctr-other', f'{msg}: other axes changed')
    if len(files) != case['save'] or not np.array_equal(before, tr.data):
        res.fail('ctr-files', f'{msg}: {files}')
    res.nontrivial = True


def run_cst(case, res):
    from seismic.correlate.stream import CorrStream
    cst = CorrStream([corr(i, case['lag']) for i in case['corrs']])
    before = {tr.stats.station: tr.data.copy() for tr in cst}
    ax, other = axes(case.get('ax', 'none'))
    date = case['sort'] == 'corr_start'
    lim, yl = case.get('lim'), None
    if case.get('yl'):
        yl = (num(B.utc(0)), num(B.utc(9*H))) if date else (0., 7.)
    got = cst.plot(
        sort_by=case['sort'], type=case['what'], timelimits=lim, ylimits=yl,
        scalingfactor=case.get('scale'), ax=ax)
    msg = str(case)
    res.nontrivial = True
    for tr in cst:
        if not np.array_equal(tr.data, before[tr.stats.station]):
            res.fail('cst-data', f'{msg}: data changed')
    if ax is not None and got is not ax or not untouched(other):
        res.fail('cst-ax', f'{msg}: drawn elsewhere')
    if yl and not np.allclose(got.get_ylim(), yl):
        res.fail('cst-ylim', f'{msg}: {got.get_ylim()}')
    exp, lags = [], []
    for i in case['corrs']:
        tr = corr(i, case['lag'])
        x = tr.times()
        if not date and CORRS[i][2] >= 180:
            x = -x
        y = num(tr.stats.corr_start) if date else CORRS[i][1]
        exp.append((x, y, tr.data))
        lags.extend(x)
    if case['what'] == 'section':
        cs = curves(got)
        if len(cs) != len(exp) or len(fields(got)):
            res.fail('cst-number', f'{msg}: {len(cs)} curves')
            return
        scale = None
        for x, y, z in exp:
            found = False
            for cx, cy in cs:
                if len(cx) != len(x):
                    continue
                s = np.dot(cy - y, z)/np.dot(z, z)
                found |= s > 0 and np.allclose(cx, x) and np.allclose(
                    cy, y + s*z, rtol=0, atol=1e-6*max(1, s)) and (
                        scale is None or abs(s/scale - 1) < 1e-5)
                if found:
                    scale = s
                    break
            if not found:
                res.fail('cst-curve', f'{msg}: correlation at {y} missing')
                return
    else:
        fs = fields(got)
        if len(fs) != 1 or curves(got):
            res.fail('cst-number', f'{msg}: {len(fs)} meshes')
            return
        pts = [(t, y, v) for x, y, z in exp for t, v in zip(x, z)]
        out = shows(fs[0], pts)
        if out:
            res.fail('cst-mesh', f'{msg}: {out}')
    x0, x1 = got.get_xlim()
    if lim is not None and (x0, x1) != tuple(lim) or x1 < x0 or (
            lim is None and not inside((x0 - .1, x1 + .1), lags)):
        res.fail('cst-lim', f'{msg}: {x0}, {x1}')
    res.see(case['what'], case['sort'], len(exp))


def bulk(n, lag, step=H):
    from seismic.correlate.stats import CorrStats
    from seismic.correlate.stream import CorrBulk
    start, npts = LAGS[lag]
    t = [B.utc(i*step) for i in range(n)]
    s = CorrStats(dict(
        network='A-A', station='A-B', location='-', channel='HHZ-HHZ',
        corr_start=t, corr_end=[x + H for x in t], start_lag=start,
        sampling_rate=4., npts=npts, ntrcs=n))
    return CorrBulk(np.sin(np.arange(n*npts)*1.3).reshape(n, npts), s)


def run_bulk(case, res):
    n = case['n']
    cb = bulk(n, case['lag'])
    before = cb.data.copy()
    ax, other = axes(case['ax'])
    yl = (B.utc(0).datetime, B.utc(9*H).datetime) if case['yl'] else None
    got = cb.plot(timelimits=case['lim'], ylimits=yl, ax=ax, clim=case['cl'])
    msg = str(case)
    fs = fields(got)
    if len(fs) != 1 or curves(got):
        res.fail('bulk-number', f'{msg}: {len(fs)} images')
        return
    t = np.linspace(cb.stats.start_lag, cb.stats.end_lag, before.shape[1])
    out = shows(fs[0], [
        (x, num(s), before[i, j]) for i, s in enumerate(cb.stats.corr_start)
        for j, x in enumerate(t)])
    if out:
        res.fail('bulk-image', f'{msg}: {out}')
    if not np.array_equal(cb.data, before):
        res.fail('bulk-data', f'{msg}: data changed')
    if ax is not None and got is not ax or not untouched(other):
        res.fail('bulk-ax', f'{msg}: drawn elsewhere')
    if not np.allclose(got.get_xlim(), case['lim'] or (t[0], t[-1])):
        res.fail('bulk-lim', f'{msg}: {got.get_xlim()}')
    if yl and not np.allclose(got.get_ylim(), date2num(yl)) or not yl and \
            not inside(got.get_ylim(), [
                num(s) for s in cb.stats.corr_start]):
        res.fail('bulk-ylim', f'{msg}: {got.get_ylim()}')
    if case['cl'] and tuple(got.get_images()[0].get_clim()) != case['cl']:
        res.fail('bulk-clim', msg)
    if n > 2:
        # times that are not sampled regularly can not be shown
        cb.stats.corr_start[1] += H/2
        try:
            cb.plot()
            res.fail('bulk-irregular', f'{msg}: irregular times are drawn')
        except NotImplementedError:
            pass
    res.nontrivial = True


# -- velocity changes --------------------------------------------------
def vel(nan, meth='single_ref', sim=True, n_stat=False, shift=0., m=11):
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.dv import DV
    n = len(nan)
    nan = np.array(nan)
    t = [B.utc(i*H) for i in range(n)]
    s = CorrStats(dict(
        network='A-A', station='A-B', location='-', channel='HHZ-HHZ',
        corr_start=t, corr_end=[x + H for x in t], start_lag=-2,
        sampling_rate=4., npts=17))
    ax = np.linspace(-.05, .05, m)
    mat = .5 + .4*np.sin(np.arange(n*m)*1.7 + shift).reshape(n, m)
    mat[nan] = np.nan
    val = ax[np.argmax(np.nan_to_num(mat), axis=1)] + shift/100
    cor = np.max(mat, axis=1)
    val[nan] = np.nan
    kw = {}
    if n_stat:
        i = np.arange(3*n).reshape(3, n)
        st = .05*np.sin(i*1.1)
        co = .5 + .3*np.cos(i*.7)
        off = (i % 4 == 1) | nan
        st[off] = co[off] = np.nan
        kw = dict(n_stat=np.sum(~off, axis=0), stretches=st, corrs=co)
    return DV(cor, val, METH[meth], mat if sim else np.array([]), ax, meth,
              s, **kw)


def same(x, y):
    return len(x) == len(y) and np.allclose(x, y, equal_nan=True)


def heaps(ax, t, y, msg, res):
    """two dimensional histogram: how many values each cell has"""
    pc = [c for c in ax.collections if isinstance(c, PolyCollection)]
    ok = np.isfinite(y)
    t, y = t[ok], y[ok]
    if len(pc) != 1 or np.sum(pc[0].get_array()) != len(y):
        res.fail('dv-scatter', f'{msg}: {len(pc)} histograms, {len(y)} values'
                 f' {[c.get_array() for c in pc]}')
        return
    for path, v in zip(pc[0].get_paths(), np.asarray(pc[0].get_array())):
        (x0, y0), (x1, y1) = path.vertices.min(0), path.vertices.max(0)
        e, f = 1e-9*abs(x1), 1e-9
        hi = np.sum((t >= x0 - e) & (t <= x1 + e) & (y >= y0 - f)
                    & (y <= y1 + f))
        lo = np.sum((t > x0 + e) & (t < x1 - e) & (y > y0 + f)
                    & (y < y1 - f))
        if not lo <= v <= hi:
            res.fail('dv-scatter', f'{msg}: {v} values in the cell '
                     f'{x0}, {x1}, {y0}, {y1} of {lo}')
            return


def run_dv(case, res):
    n = len(case['nan'])
    scat = case.get('scat', False)
    dv = vel(case['nan'], case['meth'], case['sim'], scat,
             m=case.get('m', 11))
    before = copy.deepcopy(dv)
    axes('none')
    t = [x.datetime for x in dv.stats.corr_start]
    xl, mark = case.get('xl'), case.get('mark')
    fig, axs = dv.plot(
        return_ax=True, normalize_simmat=case['norm'],
        xlim=None if xl is None else (t[xl[0]], t[xl[1]] + timedelta(
            seconds=1)),
        ylim=case.get('yl'), mark_time=None if mark is None else t[mark],
        plot_scatter=scat, figsize=(4, 5))
    msg = str(case)
    for k in ('value', 'corr', 'sim_mat', 'second_axis'):
        if not np.array_equal(getattr(dv, k), getattr(before, k),
                              equal_nan=True):
            res.fail('dv-data', f'{msg}: {k} changed')
    tn = date2num(t)
    # values and coherence by time
    for ax, y, name in ((axs[1], -before.value, 'value'),
                        (axs[2], before.corr, 'coherence')):
        cs = [c for c in curves(ax) if len(c[0]) == n and not same(
            c[1], [0, 1])]
        if mark is not None:
            cs = [c for c in cs if not len(set(c[0])) == 1 or n == 1]
        if len(cs) != 1 or not (same(cs[0][0], tn) and same(cs[0][1], y)):
            res.fail('dv-curve', f'{msg}: {name} {cs}')
        lim = ax.get_xlim()
        if xl is None and not inside(lim, tn) or xl is not None and not \
                np.allclose(lim, (tn[xl[0]], tn[xl[1]] + 1/86400)):
            res.fail('dv-xlim', f'{msg}: {name} {lim}')
    cs = curves(axs[0])
    if len(cs) != 1 or not same(cs[0][1], -before.value) or not same(
            cs[0][0], np.arange(n)):
        res.fail('dv-curve', f'{msg}: values on matrix {cs}')
    fs = fields(axs[0])
    if len(fs) != case['sim']:
        res.fail('dv-number', f'{msg}: {len(fs)} images')
    elif case['sim']:
        m = before.sim_mat
        if case['norm']:
            m = m/np.max(m, axis=1)[:, None]
        out = shows(fs[0], [
            (i + .5, -s, m[i, j]) for i in range(n)
            for j, s in enumerate(before.second_axis)])
        if out:
            res.fail('dv-image', f'{msg}: {out}')
    yl = case.get('yl')
    if yl and not (np.allclose(sorted(axs[0].get_ylim()), yl)
                   and np.allclose(axs[1].get_ylim(), yl)):
        res.fail('dv-ylim', f'{msg}: {axs[0].get_ylim()}')
    if not yl and not inside(axs[1].get_ylim(), before.second_axis):
        res.fail('dv-ylim', f'{msg}: {axs[1].get_ylim()}')
    if scat:
        tt = np.tile(tn, (3, 1))
        heaps(axs[1], tt, -before.stretches, msg, res)
        heaps(axs[2], tt, before.corrs, msg, res)
        pc = [c for c in axs[3].collections if isinstance(c, PolyCollection)]
        xy = pc[0].get_paths()[0].vertices if len(pc) == 1 else []
        for x, k in zip(tn, before.n_stat):
            if not any(np.allclose(p, (x, k), rtol=0, atol=1e-6)
                       for p in xy):
                res.fail('dv-number-of', f'{msg}: {k} results at {x} '
                         f'missing {xy}')
                break
        if xl is not None and not np.allclose(
                axs[3].get_xlim(), (tn[xl[0]], tn[xl[1]] + 1/86400)) or \
                xl is None and not inside(axs[3].get_xlim(), tn) or \
                not inside(axs[3].get_ylim(), before.n_stat):
            res.fail('dv-xlim', f'{msg}: number {axs[3].get_xlim()} '
                     f'{axs[3].get_ylim()}')
    elif axs[3] is not None:
        res.fail('dv-number', f'{msg}: panel of numbers')
    a, b = (0, n) if xl is None else (xl[0], xl[1] + 1)
    if not np.allclose(axs[0].get_xlim(), (a, b)):
        res.fail('dv-xlim', f'{msg}: matrix {axs[0].get_xlim()}')
    res.nontrivial = n > 1
    res.see(case['meth'], n, sum(case['nan']))


def run_pub(case, res):
    dv = vel(case['nan'])
    ax, other = axes(case['ax'])
    t = [x.datetime for x in dv.stats.corr_start]
    xl, yl = case.get('xl'), case.get('yl')
    fig, got = dv.plot(
        style='publication', return_ax=True, ax=ax, title='title', ylim=yl,
        xlim=None if xl is None else (t[xl[0]], t[xl[1]] + timedelta(
            seconds=1)))
    msg = str(case)
    if ax is not None and got is not ax or not untouched(other):
        res.fail('pub-ax', f'{msg}: drawn elsewhere')
    keep = ~np.array(case['nan'])
    sc = [c for c in got.collections if len(np.shape(c.get_offsets()))]
    if len(sc) != 1 or curves(got):
        res.fail('pub-number', f'{msg}: {sc}')
        return
    xy = np.asarray(sc[0].get_offsets(), float)
    tn = date2num(t)
    if not (same(xy[:, 0], tn[keep]) and same(
            xy[:, 1], -100*dv.value[keep]) and same(
                np.asarray(sc[0].get_array()), dv.corr[keep])):
        res.fail('pub-points', f'{msg}: {xy}')
    if xl is None and not inside(got.get_xlim(), tn[keep]) or xl and not \
            np.allclose(got.get_xlim(), (tn[xl[0]], tn[xl[1]] + 1/86400)):
        res.fail('pub-xlim', f'{msg}: {got.get_xlim()}')
    if yl and not np.allclose(got.get_ylim(), yl):
        res.fail('pub-ylim', f'{msg}: {got.get_ylim()}')
    res.nontrivial = sum(keep) > 1


def run_save(case, res):
    """histories of saved figures: earlier ones stay"""
    from seismic.monitor.dv import DV       # noqa: F401
    files = {}
    with B.Scratch('c25') as d:
        p = os.path.join(d, 'figures')
        for k, name in enumerate(case['names']):
            axes('none')
            vel([False]*3, sim=False, shift=float(k)).plot(
                save_dir=p, figure_file_name=name, figsize=(2, 2), dpi=20)
            now = {}
            for f in os.listdir(p):
                with open(os.path.join(p, f), 'rb') as fh:
                    now[f] = fh.read()
            new = {f for f in now if files.get(f) != now[f]}
            msg = f'{case["names"][:k + 1]}'
            res.count(transitions=1)
            if len(new) != 1 or set(files) - set(now):
                res.fail('save-files', f'{msg}: new {sorted(new)}, lost '
                         f'{sorted(set(files) - set(now))}')
                return
            new = new.pop()
            if name == 'plot_default':
                if new in files:
                    res.fail('save-default', f'{msg}: replaces {new}')
                    return
            elif new not in (name, name + '.png'):
                res.fail('save-name', f'{msg}: {new}')
            files = now
    res.nontrivial = len(case['names']) > 1
    res.see(tuple(sorted(files)))


def run_multi(case, res):
    from seismic.plot.plot_multidv import plot_multiple_dv
    names = [FILES[i] for i in case['files']]
    exp = []
    with B.Scratch('c25') as d:
        for name in names:
            p = os.path.join(d, name)
            if 'bad' in name:
                with open(p + '.npz', 'wb') as f:
                    f.write(b'damaged')
                continue
            k = FILES.index(name)
            dv = vel([False, k == 1, False], shift=float(k))
            dv.stats.station = name.split('.')[1]
            dv.save(p)
            chan = name.split('.')[2]
            if case['mean'] and not chan.startswith('av'):
                continue
            f = case['filt']
            if f is None or f == ['S1'] and 'S1' in name or (
                    f == ['S1', 'HHZ'] and ('S1' in name or 'HHZ' in name)
                    ) or f == ['A-A.S?-S?.HHE*'] and chan == 'HHE-HHE':
                exp.append(-dv.value if not case['abs'] else abs(dv.value))
        axes('none')
        try:
            plot_multiple_dv(
                d, only_mean=case['mean'], statfilter=case['filt'],
                plt_abs=case['abs'], plot_median=bool(exp), legend=True)
        except Exception:
            if exp:
                raise
            return
    msg = f'{case}'
    t = date2num([B.utc(i*H).datetime for i in range(3)])
    if exp:
        exp.append(np.nanmedian(exp, axis=0))
    left = curves(plt.gca())
    for e in exp:
        i = [i for i, c in enumerate(left) if same(c[1], e) and same(
            c[0], t)]
        if not i:
            res.fail('multi-curve', f'{msg}: {e} missing')
            return
        left.pop(i[0])
    if left:
        res.fail('multi-extra', f'{msg}: {len(left)} curves more')
    res.nontrivial = len(exp) > 2
    res.see(len(exp), case['mean'], str(case['filt']))


# -- others ------------------------------------------------------------
def run_spct(case, res):
    from seismic.plot.plot_spectrum import plot_spct_series
    f = np.linspace(0, 2, 9)
    t = [B.utc(i*H) for i in range(5)]
    S = 2. + np.sin(np.arange(45.)*1.7).reshape(9, 5)
    for i, j in case['nan']:
        S[2*i, j] = np.nan
    axes('none')
    norm, how = case['norm'] or (None, None)
    fl, tl = case['fl'], case['tl']
    S0 = S.copy()
    ax = plot_spct_series(
        S, f, t, norm=norm, norm_method=how, flim=fl, log_scale=case['log'],
        tlim=None if tl is None else (t[tl[0]].datetime, t[tl[1]].datetime))
    msg = str(case)
    fi = np.arange(9)
    if fl:
        fi = np.arange(np.argmin(abs(f-fl[0])), np.argmin(abs(f-fl[1])) + 1)
    ti = np.arange(5) if tl is None else np.arange(tl[0], tl[1] + 1)
    A = np.ma.masked_invalid(S0[fi][:, ti])
    if norm:
        ax_ = 1 if norm == 'f' else 0
        n = {'mean': lambda a: np.ma.mean(a, axis=ax_, keepdims=True),
             'median': lambda a: np.ma.median(a, axis=ax_, keepdims=True),
             'linalg': lambda a: np.ma.sqrt(np.ma.sum(
                 a**2, axis=ax_, keepdims=True))}[how](A)
        A = A/n
    A = np.ma.filled(A/A.max(), np.nan)
    fs = fields(ax)
    if len(fs) != 1:
        res.fail('spct-number', f'{msg}: {len(fs)}')
        return
    out = shows(fs[0], [(num(t[b]), f[a], A[i, j]) for i, a in enumerate(fi)
                        for j, b in enumerate(ti)])
    if out:
        res.fail('spct-mesh', f'{msg}: {out}')
    if fl and not np.allclose(ax.get_ylim()[1], fl[1]) or tl and not \
            np.allclose(ax.get_xlim(), (num(t[tl[0]]), num(t[tl[1]]))):
        res.fail('spct-lim', f'{msg}: {ax.get_ylim()}, {ax.get_xlim()}')
    if not np.array_equal(S, S0, equal_nan=True):
        res.fail('spct-data', f'{msg}: data changed')
    res.nontrivial = True


CELLS = [(0., 4., .5, 1.5), (4., 4., .5, 1.5), (0., 4., 1., 3.),
         (4., 4., 1., 3.), (0., 8., .5, 1.5), (9., 4., .1, .3)]


def run_wfc(case, res):
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.wfc import WFC, WFCBulk
    ws = []
    exp = {}
    for i in case['cells']:
        a, n, f0, f1 = CELLS[i]
        ws.append(WFC({'reftr_0': np.full((2, 3), .1*i + .05)}, CorrStats(
            ), dict(tw_start=a, tw_len=n, freq_min=f0, freq_max=f1)))
        exp[a + n/2, (f0 + f1)/2] = .1*i + .05
    if len(exp) < len(case['cells']):
        # two results of the same place
        return
    axes('none')
    ax = WFCBulk(ws).plot(title='title', log=case['log'])
    fs = fields(ax)
    if len(fs) != 1:
        res.fail('wfc-number', f'{case}: {len(fs)}')
        return
    out = shows(fs[0], [(x, y, v) for (x, y), v in exp.items()])
    if out:
        res.fail('wfc-mesh', f'{case}: {out}')
    res.nontrivial = len(exp) > 1


def run_grid(case, res):
    from seismic.monitor.spatial import DVGrid
    g = DVGrid(50., 10., 1., 3., 2., .2, 1., 3.)
    shape = g.xgrid.shape
    v = .01*np.sin(np.arange(g.xgrid.size)*1.3).reshape(shape)
    g.vel_change = v if not case['sign'] else case['sign']*abs(v)
    n = case['stations']
    if n:
        g.statx, g.staty = np.arange(n)*.7 + .2, np.arange(n)*.5 + .1
    ax, other = axes(case['ax'])
    got = g.plot(bool(n), ax=ax)
    fs = fields(got)
    msg = str(case)
    if len(fs) != 1:
        res.fail('grid-number', f'{msg}: {len(fs)}')
        return
    out = shows(fs[0], [
        (g.xgrid[i], g.ygrid[i], -100*g.vel_change[i])
        for i in np.ndindex(*shape)])
    if out:
        res.fail('grid-image', f'{msg}: {out}')
    if n:
        sc = [c for c in got.collections if not isinstance(c, QuadMesh)]
        xy = np.vstack([np.asarray(c.get_offsets(), float) for c in sc])
        if not np.allclose(xy, np.array([g.statx, g.staty]).T):
            res.fail('grid-stations', f'{msg}: {xy}')
    if ax is not None and got is not ax or not untouched(other):
        res.fail('grid-ax', f'{msg}: drawn elsewhere')
    res.nontrivial = True


def run_monitor(case, res):
    """each result of monitoring gets its own figure"""
    t = P.lagtimes()
    with B.Scratch('c25') as d:
        opts = P.dv_options(d, 0, 4*H, H, H, plot_vel_change=True)
        trs = [P.corr_trace('A-A', 'S0-S0', ch, j*H, j*H + H,
                            P.wave(t*np.exp(-P.GRID[(j + 2*c) % 5])))
               for c, ch in enumerate(case['chs']) for j in range(4)]
        P.write_db(os.path.join(d, 'corr', 'A-A.S0-S0.h5'), trs)
        axes('none')
        with P.MonitorProject(opts) as m:
            m.compute_velocity_change_bulk()
        axes('none')
        p = os.path.join(d, opts['fig_subdir'])
        files = sorted(os.listdir(p)) if os.path.isdir(p) else []
        dvs = sorted(os.listdir(os.path.join(d, 'dv')))
    if len(dvs) != len(case['chs']) or len(files) != len(dvs) or not all(
            any(ch in f for f in files) for ch in case['chs']):
        res.fail('monitor-figures', f'{case}: {files} for {dvs}')
    res.nontrivial = len(case['chs']) > 1


def run_case(case):
    res = Result()
    res.nontrivial = False
    case = {k: tuple(v) if isinstance(v, list) and k in (
        'lim', 'cl', 'xl', 'yl', 'fl', 'tl', 'norm') else v
        for k, v in case.items()}
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            globals()[f'run_{case["kind"]}'](case, res)
        finally:
            plt.close('all')
    res.count(traces=1, transitions=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
