"""
Spatial imaging of velocity changes.
"""
import copy
import itertools
import os
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'all sequences of up to 3 (thorough 4) velocity change objects from an '
    'alphabet (several pairs, single station, not covering the time, no '
    'value, perfect or no coherence, different processing) x time x method '
    '(inversion, singular values, resolution, covariance, forward model, '
    'alignment), all sequences of up to 3 operations on one grid against a '
    'fresh grid each; the model is an independent computation of the kernel '
    'by scalar formulas and of the inversion in its dual form. Kernels: '
    'product of lapse time, sampling, grid spacing, and positions. '
    'Non-trivial: at least two usable objects.')
ASSUMPTIONS = [
    'all objects of one inversion have the same lapse window and frequencies',
    'the estimate of a time is the one that starts closest to it (documented '
    'by the tests)']
CHUNK = 16
LAT, LON = 10., 20.
RES, X, Y = 1., 4., 3.
DT, VEL, MF = .1, 3., 20.
H = 3600.
KM = 1/111.19492664455873     # degrees per km
POS = [(.73, .41), (3.37, 1.21), (1.59, 2.63)]

# pair, what is special
DVS = ['ab', 'bc', 'ac', 'aa', 'ab-nan', 'ab-one', 'bc-zero', 'ac-late',
       'bc-neg', 'ab-short', 'ac-few', 'bc-six']
METHODS = ['grid', 'tsvd', 'res', 'cov', 'forward']


def cases(tier):
    full = tier != 'quick'
    out = []
    for k in (1, 2, 3) + ((4,) if full else ()):
        al = DVS if k < 3 or full and k < 4 else DVS[:3] + DVS[4:6]
        for c in itertools.product(al, repeat=k):
            if k > 2 and len(set(c)) < k - (1 if full else 0):
                continue
            out.append(dict(kind='inv', dvs=list(c)))
            if len(set(c)) == k:
                out.append(dict(kind='align', dvs=list(c)))
    ops = [(m, s, t) for m in METHODS for s in (0, 1) for t in (0, 1)]
    n = len(ops)
    for k in (2, 3) if full else (2,):
        for c in itertools.product(range(n), repeat=k):
            out.append(dict(kind='hist', ops=list(c)))
    for t, dt, res in itertools.product(
            (1., 1.5, 2., 6., 7.3, .35, 10/3), (.1, .07, .25, .3, 1/3, .013),
            (1., .5, .1, .3, 1/3, .7)):
        for p in ('generic', 'same', 'ongrid', 'near'):
            out.append(dict(kind='kern', t=t, dt=dt, res=res, pos=p))
            if dt in (.1, .07):
                out += [dict(kind='kern', t=t, dt=dt, res=res, pos=p, mf=m)
                        for m in (.02, .1, 1000.)]
    for a in itertools.product(
            ('in', 'edge', 'outx', 'outy', 'outxy'), repeat=2):
        for form in ('scalar', 'array', 'latarray', 'lonarray', 'one'):
            out.append(dict(kind='coord', pts=list(a), form=form))
    return out


# -- model -------------------------------------------------------------
def prob(r, t, vel, mf, atol):
    """scalar version of the solution in two dimensions"""
    p = 0.
    x = vel*t
    if abs(r - x) <= atol + 1e-5*abs(x):
        p += np.exp(-x/mf)/(2*np.pi*r) if r > 0 else 1.
    if x - r - atol > 0:
        w = np.sqrt(x*x - r*r)
        p += np.exp((w - x)/mf)/(2*np.pi*mf*w)
    return p


def kernel(s1, s2, xs, ys, t, dt, vel, mf):
    atol = vel*dt/2
    den = prob(float(np.hypot(*(np.array(s1) - s2))), t, vel, mf, atol)
    K = np.zeros((len(ys), len(xs)))
    if den == 0:
        return K
    n = int(np.floor(t/dt + 1e-9))
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            r1, r2 = np.hypot(x-s1[0], y-s1[1]), np.hypot(x-s2[0], y-s2[1])
            v = [prob(r1, k*dt, vel, mf, atol)*prob(
                r2, t - k*dt, vel, mf, atol) for k in range(n + 1)]
            K[i, j] = dt*(sum(v) - (v[0] + v[-1])/2)/den
    return K


def variance(c, f0, f1, tw):
    bw, fc = f1 - f0, (f0 + f1)/2
    return ((np.sqrt(1 - c**2)/(2*c))*np.sqrt(
        6*np.sqrt(np.pi/2)/bw/((2*np.pi*fc)**2*(tw[1]**3 - tw[0]**3))))**2


_K = {}


def axes():
    return np.arange(0, X + RES, RES), np.arange(0, Y + RES, RES)


def kern_row(pair, tm):
    k = (pair, tm)
    if k not in _K:
        xs, ys = axes()
        _K[k] = RES**2/tm*kernel(
            POS['abc'.index(pair[0])], POS['abc'.index(pair[1])], xs, ys, tm,
            DT, VEL, MF).ravel()
    return _K[k]


# value and coherence of the objects, one per hour
def series(name):
    i = DVS.index(name)
    n = 8
    val = .01*np.sin(np.arange(n)*(i + 1.) + i)
    cor = .9 - .05*((np.arange(n) + i) % 5)
    t0 = 0
    if name == 'ab-nan':
        val[3] = cor[3] = np.nan
    elif name == 'ab-one':
        cor[3] = 1.
    elif name == 'bc-zero':
        cor[3] = 0.
    elif name == 'bc-neg':
        cor[3] = -.4
    elif name == 'ac-late':
        t0 = 6
    elif name == 'ab-short':
        val, cor = val[:5], cor[:5]
    elif name == 'ac-few':
        val[[1, 4, 6]] = cor[[1, 4, 6]] = np.nan
    elif name == 'bc-six':
        val[[4, 5]] = cor[[4, 5]] = np.nan
    return val, cor, t0


def dv(name, tw=(3., 6.)):
    from seismic.correlate.stats import CorrStats
    from seismic.monitor.dv import DV
    val, cor, t0 = series(name)
    a, b = (POS['abc'.index(c)] for c in name[:2])
    t = [B.utc((t0 + i)*H) for i in range(len(val))]
    s = CorrStats(dict(
        network='A-A', station=name, channel='HHZ-HHZ', location='00-00',
        corr_start=np.array(t), corr_end=np.array([x + H for x in t]),
        stla=LAT + a[1]*KM, stlo=lon(a[0]), evla=LAT + b[1]*KM,
        evlo=lon(b[0]), sampling_rate=4., npts=3, start_lag=-1))
    return DV(cor.copy(), val.copy(), 'stretch', np.ones((len(val), 1)),
              np.zeros(1), 'single_ref', s, dv_processing=dict(
                  freq_min=.5, freq_max=1., tw_start=tw[0], tw_len=tw[1]))


def lon(x):
    """longitude of a point x km east of the corner"""
    d = np.deg2rad(x*KM)
    c = np.cos(np.deg2rad(LAT))
    return LON + np.rad2deg(2*np.arcsin(np.sin(d/2)/c))


def usable(name, hour):
    val, cor, t0 = series(name)
    if not t0 <= hour <= t0 + len(val):
        return None
    i = min(int(hour) - t0, len(val) - 1)
    v, c = val[i], cor[i]
    if np.isnan(v) or not 1e-3 < c < 1:
        return None
    return v, c


P = dict(scaling_factor=1.2, corr_len=2., std_model=.03)
TW = (3., 9.)


def expected(dvs, hour, what, tw=TW, freq=(.5, 1.)):
    use = [(d, usable(d, hour)) for d in dvs]
    use = [(d, u) for d, u in use if u]
    if not use:
        return None
    G = np.array([kern_row(d[:2], sum(tw)/2) for d, u in use])
    v = np.array([u[0] for d, u in use])
    xs, ys = axes()
    shape = (len(ys), len(xs))
    if what == 'tsvd':
        U, s, V = np.linalg.svd(G, full_matrices=False)
        m = sum((V[i]*(U[:, i] @ v)/s[i] for i in range(len(s))
                 if s[i] > .2*s[0]), np.zeros(G.shape[1]))
        return m.reshape(shape)
    if what == 'forward':
        return G @ dvgrid().ravel()
    cd = np.diag([variance(u[1], *freq, tw) for d, u in use])
    xg, yg = np.meshgrid(xs, ys)
    xf, yf = xg.ravel(), yg.ravel()
    dist = np.hypot(xf[:, None] - xf, yf[:, None] - yf)
    cm = (P['std_model']*P['scaling_factor']/P['corr_len'])**2*np.exp(
        -dist/P['corr_len'])
    # dual form
    post = np.linalg.inv(G.T @ np.linalg.inv(cd) @ G + np.linalg.inv(cm))
    if what == 'cov':
        return post
    w = post @ G.T @ np.linalg.inv(cd)
    if what == 'res':
        return (w @ G).sum(axis=1).reshape(shape)
    return (w @ v).reshape(shape)


def dvgrid():
    xs, ys = axes()
    return .01*np.cos(np.arange(len(xs)*len(ys))*1.3).reshape(
        len(ys), len(xs))


def grid():
    from seismic.monitor.spatial import DVGrid
    return DVGrid(LAT, LON, RES, X, Y, DT, VEL, MF)


def execute(g, what, dvs, hour, **args):
    t = B.utc(hour*H)
    if what == 'grid':
        return g.compute_dv_grid(iter(dvs), t, **P, **args)
    if what == 'tsvd':
        return g.compute_dv_tsvd(iter(dvs), t, **args)
    if what == 'res':
        return g.compute_resolution(iter(dvs), t, **P, **args)
    if what == 'cov':
        return g.compute_posterior_covariance(iter(dvs), t, **P, **args)
    return g.forward_model(dvgrid(), iter(dvs), t, **args)


def near(x, y, tol=1e-5):
    if x is None or y is None:
        return x is y
    return np.shape(x) == np.shape(y) and np.allclose(
        x, y, rtol=tol, atol=tol*np.abs(y).max())


def run_inv(case, res):
    res.nontrivial = False
    for hour in (3.25, 6., 20., 0.) + (7.25,)*(len(case['dvs']) < 3):
        for what in METHODS:
            exp = expected(case['dvs'], hour, what)
            g = grid()
            res.count(transitions=1, traces=1)
            dvs = [dv(d) for d in case['dvs']]
            for i, d in enumerate(case['dvs']):
                # what does not take part has no say
                if usable(d, hour) is None:
                    dvs[i].dv_processing = None if (i + hour) % 1 else dict(
                        freq_min=.1, freq_max=.2, tw_start=9., tw_len=30.)
            try:
                got = execute(g, what, dvs, hour)
            except IndexError:
                got = None
            msg = f'{what} {case["dvs"]} at {hour} h'
            n = sum(usable(d, hour) is not None for d in case['dvs'])
            if what == 'tsvd' and len(set(
                    frozenset(d[:2]) for d in case['dvs'])) < n:
                # repeated rows are equal apart from rounding
                continue
            if not near(got, exp, 1e-4):
                res.fail(f'inv-{what}', f'{msg}: {got} instead of {exp}')
                continue
            for d, name in zip(dvs, case['dvs']):
                v, c, _ = series(name)
                if not (np.array_equal(d.value, v, equal_nan=True)
                        and np.array_equal(d.corr, c, equal_nan=True)):
                    res.fail('inv-input', f'{msg}: changed its input')
            if what in ('grid', 'res') and exp is not None:
                # both at once
                g = grid()
                m = g.compute_dv_grid(iter([dv(d) for d in case['dvs']]),
                                      B.utc(hour*H), compute_resolution=True,
                                      **P)
                if not near(m, expected(case['dvs'], hour, 'grid'), 1e-4) or \
                        not near(g.resolution, expected(
                            case['dvs'], hour, 'res'), 1e-4):
                    res.fail('inv-both', f'{msg}: resolution and grid')
            if exp is not None and n > 1:
                res.nontrivial = True
        # explicit arguments instead of those of the objects
        ds = [d for d in case['dvs'] if usable(d, hour)]
        if ds:
            for own, given, what in itertools.product(
                    (True, False), ('tw', 'freq', 'all'), METHODS):
                if given != 'all' and (not own or hour != 3.25) or (
                        what == 'tsvd' and len(set(
                            frozenset(d[:2]) for d in ds)) < len(ds)):
                    continue
                args = {}
                if given != 'freq':
                    args['tw'] = (4., 12.)
                if given != 'tw' and what != 'forward':
                    args.update(freq0=.25, freq1=.75)
                xs = [dv(d) for d in case['dvs']]
                if not own:
                    for x in xs:
                        x.dv_processing = None
                got = execute(grid(), what, xs, hour, **args)
                res.count(transitions=1)
                if not near(got, expected(
                        case['dvs'], hour, what, args.get('tw', TW),
                        (args.get('freq0', .5), args.get('freq1', 1.))),
                        1e-4):
                    res.fail('inv-args', f'{case["dvs"]} {what}: explicit '
                             f'arguments {args}, own ones: {own}')
                    break
            s0 = [(dv(d).stats.stla, dv(d).stats.stlo) for d in ds]
            s1 = [(dv(d).stats.evla, dv(d).stats.evlo) for d in ds]
            got = grid().forward_model(dvgrid(), tw=TW, stat0=s0, stat1=s1)
            if not near(got, expected(ds, hour, 'forward'), 1e-4):
                res.fail('forward-args', f'{ds}: explicit arguments')
        res.see(hour, len(ds))


HS = [['ab', 'bc'], ['ac', 'ab-nan', 'aa']]
HT = [3., 6.]


def run_hist(case, res):
    ops = [(m, s, t) for m in METHODS for s in (0, 1) for t in (0, 1)]
    # a grid of as many points with another spacing was used before
    from seismic.monitor.spatial import DVGrid
    o = DVGrid(LAT, LON, RES*2, X*2, Y*2, DT, VEL, MF)
    execute(o, ops[case['ops'][0]][0], [dv(d) for d in HS[0]], HT[0])
    g = grid()
    for i in case['ops']:
        what, s, t = ops[i]
        got = execute(g, what, [dv(d) for d in HS[s]], HT[t])
        exp = expected(HS[s], HT[t], what)
        res.count(transitions=1)
        if not near(got, exp, 1e-4):
            res.fail('hist', f'{[ops[k] for k in case["ops"]]}: {what} '
                     'differs from that of a new grid')
            return
        attr = {'grid': 'vel_change', 'tsvd': 'vel_change',
                'res': 'resolution'}.get(what)
        if attr and not near(getattr(g, attr), exp, 1e-4):
            res.fail('hist-attr', f'{case}: {attr}')
    res.count(traces=1)
    res.nontrivial = len(set(case['ops'])) > 1
    res.see(tuple(case['ops']))


def run_align(case, res):
    """aligned curves have the value of the grid"""
    res.nontrivial = False
    for hour, thres, steps, first in itertools.product(
            (0., 3., 7.), (.5, 0.), (0, 1, 3), (True, False)):
        g = grid()
        if not first:
            g.vel_change = dvgrid()
        dvs = [dv(d) for d in case['dvs']]
        msg = f'{case["dvs"]} at {hour} h, {thres}, {steps} steps, ' \
              f'{"no" if first else ""} grid'
        res.count(transitions=1, traces=1)
        with B.Scratch('c23') as d:
            try:
                out = g.align_dvs_to_grid(
                    dvs, B.utc(hour*H), steps, thres, save=d)
            except ValueError as e:
                res.fail('align-error', f'{msg}: {e}')
                continue
            files = sorted(os.listdir(d))
        ids = {id(x) for x in out}
        for x, name in zip(dvs, case['dvs']):
            val, cor, t0 = series(name)
            i = int(hour) - t0
            near_cor = cor[max(min(i, len(val)-1), 0)]
            can = np.sum(~np.isnan(cor)) > 5 and 0 <= i <= len(val) \
                and near_cor >= thres
            i = min(i, len(val) - 1)
            fit = can and (first or usable(name, hour) is not None)
            if id(x) not in ids:
                if fit:
                    res.fail('align-missing', f'{msg}: {name} not aligned')
                if not np.array_equal(x.value, val, equal_nan=True):
                    res.fail('align-changed', f'{msg}: {name} changed')
                continue
            if not can:
                res.fail('align-extra', f'{msg}: {name} aligned')
                continue
            a, b = max(0, i - steps), i + steps + 1
            w = np.where(np.isnan(val[a:b]), 0, cor[a:b])
            exp = 0. if first else float(
                kern_row(name[:2], sum(TW)/2) @ dvgrid().ravel())
            now = np.nansum(w*x.value[a:b])/np.nansum(w)
            if abs(now - exp) > 1e-9 + 1e-4*abs(exp):
                res.fail('align-value', f'{msg}: {name} is {now} instead of '
                         f'{exp}')
            sh = x.value - val
            if np.nanmax(sh) - np.nanmin(sh) > 1e-12:
                res.fail('align-shape', f'{msg}: {name} not shifted')
            if x.dv_processing['aligned'] is False:
                res.fail('align-flag', f'{msg}: {name} not marked')
        if len(files) != len(out):
            res.fail('align-files', f'{msg}: {files} for {len(out)} objects')
        if len(out):
            # a second alignment leaves them alone
            before = [x.value.copy() for x in out]
            g.align_dvs_to_grid(list(out), B.utc(hour*H), steps, thres)
            if not all(np.array_equal(x.value, y, equal_nan=True)
                       for x, y in zip(out, before)):
                res.fail('align-twice', f'{msg}: aligned twice')
        res.nontrivial |= len(out) > 1
        res.see(hour, len(out))


def run_kern(case, res):
    from seismic.monitor.spatial import DVGrid, sensitivity_kernel
    t, dt, r = case['t'], case['dt'], case['res']
    vel, mf = 2., case.get('mf', 15.)
    n = 4
    g = DVGrid(LAT, LON, r, n*r, (n - 1)*r, dt, vel, mf)
    res.count(transitions=2, traces=1)
    xs, ys = g.xaxis, g.yaxis
    s1 = np.array([.371*n*r, .613*n*r])
    s2 = {'generic': np.array([.83*n*r, .29*n*r]), 'same': s1.copy(),
          'ongrid': np.array([xs[1], ys[2]]),
          'near': s1 + .11*r}[case['pos']]
    if abs(xs[1] - xs[0] - r) > 1e-9 or len(xs) not in (n + 1, n + 2):
        res.fail('kern-axis', f'{case}: {xs}')
    K = sensitivity_kernel(s1, s2, xs, ys, t, dt, vel, mf)
    res.see(bool(K.any()))
    res.nontrivial = bool(K.any())
    if K.shape != (len(ys), len(xs)) or not np.isfinite(K).all() or (
            K < 0).any():
        res.fail('kern-range', f'{case}: {K}')
        return
    if case['pos'] != 'ongrid':
        E = kernel(s1, s2, xs, ys, t, dt, vel, mf)
        if not near(K, E, 1e-6):
            res.fail('kern-value', f'{case}: {K} instead of {E}')
            return
    if abs(t/dt - round(t/dt)) < 1e-9:
        K2 = sensitivity_kernel(s2, s1, xs, ys, t, dt, vel, mf)
        if case['pos'] != 'ongrid' and not near(K2, K, 1e-6):
            res.fail('kern-swap', f'{case}: kernel not symmetric')
    # positions of the stations only matter relative to the grid
    K3 = sensitivity_kernel(s1[::-1].copy(), s2[::-1].copy(), ys, xs, t, dt,
                            vel, mf)
    if case['pos'] != 'ongrid' and not near(K3.T, K, 1e-6):
        res.fail('kern-axes', f'{case}: depends on the order of the axes')


def run_coord(case, res):
    g = grid()
    if not hasattr(g, '_find_coord'):
        return
    p = {'in': (1.3, 2.2), 'edge': (X + RES*.9, 1.8), 'outx': (X + 3, 1.),
         'outy': (1., Y + 4), 'outxy': (X + 5, Y + 5)}
    pts = [p[k] for k in case['pts']]
    lats = np.array([LAT + y*KM for x, y in pts])
    lons = np.array([lon(x) for x, y in pts])
    if case['form'] == 'scalar':
        lats, lons, pts = float(lats[0]), float(lons[0]), pts[:1]
    elif case['form'] == 'one':
        lats, lons, pts = lats[:1], lons[:1], pts[:1]
    elif case['form'] == 'latarray':
        lons = float(lons[0])
        pts = [(pts[0][0], y) for x, y in pts]
    elif case['form'] == 'lonarray':
        lats = float(lats[0])
        pts = [(x, pts[0][1]) for x, y in pts]
    outside = any(x > X + RES + .5 or y > Y + RES + .5 for x, y in pts)
    exp = [int(np.argmin((g.xf-x)**2 + (g.yf-y)**2)) for x, y in pts]
    try:
        got = np.atleast_1d(g._find_coord(lats, lons)).tolist()
    except ValueError:
        got = None
    res.count(transitions=1, traces=1)
    res.nontrivial = not outside
    res.see(case['form'], str(got))
    if got != (None if outside else exp):
        res.fail('coord', f'{case}: {got} instead of '
                 f'{None if outside else exp}')


def run_case(case):
    res = Result()
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()[f'run_{case["kind"]}'](copy.deepcopy(case), res)
    res.count(states=1)
    return res
