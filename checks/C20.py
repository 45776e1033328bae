"""
Gaps and masks in raw data: samples keep their times, gaps stay gaps.
"""
import itertools
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'all patterns of present and missing blocks of samples up to a number of '
    'blocks (including missing starts and ends, and nothing present) x form '
    'of the gap (mask, not a number, separate traces) x data type x '
    'arguments of every function that handles gaps (interpolation, gap '
    'handling, detrending, tapering, filtering, masking, discarding). Second '
    'traces in the stream must not matter. Results are compared, sample by '
    'time, with an implementation on the list of present segments. '
    'Non-trivial: some, but not all samples present.')
ASSUMPTIONS = ['up to 8 blocks of up to 7 samples']
CHUNK = 64


def patterns(n):
    return [[m >> i & 1 for i in range(n)] for m in range(2**n)]


def cases(tier):
    out = []
    full = tier != 'quick'
    n = 8 if full else 7
    for p in patterns(n + 1):
        for form in ('mask', 'nan', 'int'):
            out.append(dict(kind='interp', pat=p, form=form))
    for p in patterns(n):
        for form in ('mask', 'split', 'int', 'isplit'):
            out.append(dict(kind='gap', pat=p, form=form, full=full))
        for form in ('mask', 'int'):
            for k in ('detrend', 'taper', 'filter'):
                out.append(dict(kind=k, pat=p, form=form))
    for p in ([1, 1, 1, 1], [0, 1, 0, 1], [1, 0, 0, 1], [0, 0, 0, 0]):
        for nw in (1, 2):
            for w in itertools.combinations_with_replacement(
                    range(len(WIN)), nw):
                out.append(dict(kind='mask', pat=p, win=list(w)))
    for k in (0, 1, 2, 3, 4) if full else (0, 1, 2, 3):
        for c in itertools.product(range(5), repeat=k):
            out.append(dict(kind='valid', trs=list(c)))
    return out


SR = 2.
T = [-6.25, -3., 0., .3, 1., 4.5, 6.75, 9.5, 9.6, 12.]   # seconds
WIN = [(a, b) for a, b in itertools.combinations(T, 2)]


def signal(n, seed=1):
    r = np.random.RandomState(seed)
    return np.round(r.randint(-500, 500, n) + 30.*np.arange(n))


def present(pat, k):
    return np.repeat(np.array(pat, dtype=bool), k)


def runs(m):
    """[start, end) of the runs of True"""
    x = np.diff(np.concatenate(([0], np.asarray(m, dtype=int), [0])))
    return list(zip(np.flatnonzero(x == 1), np.flatnonzero(x == -1)))


def make(m, form, seed=1, cha='HHZ', start=0., sr=SR):
    """Stream with the samples m present"""
    from obspy import Stream
    x = signal(len(m), seed)
    if form in ('int', 'isplit'):
        x = x.astype(np.int32)
    if form in ('split', 'isplit'):
        return Stream([B.trace('A', 'S', cha, start + a/sr, x[a:b].copy(), sr)
                       for a, b in runs(m)])
    if not m.all():
        # what is underneath a mask must not matter
        x[~m] = 99999
        x = np.ma.array(x, mask=~m)
    return Stream([B.trace('A', 'S', cha, start, x, sr)])


def table(st, cha='HHZ', sr=SR, start=0.):
    """{sample number: value}"""
    out = {}
    for tr in st:
        if tr.stats.channel != cha:
            continue
        m = np.ma.getmaskarray(tr.data)
        d = np.ma.getdata(tr.data)
        t0 = (tr.stats.starttime.timestamp - B.T0 - start)*sr
        for i in np.flatnonzero(~m):
            if round((t0 + i) % 1, 3) not in (0., 1.):
                raise RuntimeError('samples off the grid')
            out[int(round(t0 + i))] = float(d[i])
    return out


def diff(got, exp, tol=1e-6):
    a, b = sorted(set(got) - set(exp)), sorted(set(exp) - set(got))
    if a or b:
        return f'samples {a} should be missing, samples {b} are missing'
    w = [(k, got[k], exp[k]) for k in sorted(exp)
         if not abs(got[k] - exp[k]) <= tol*max(1, abs(exp[k]))]
    if w:
        return f'wrong values (sample, value, expected) {w[:3]}'
    return None


def interpolated(x, m, lim):
    """values and presence after interpolation of interior gaps"""
    x = np.array(x, dtype=float)
    m = m.copy()
    idx = np.flatnonzero(m)
    for a, b in runs(~m):
        if a == 0 or b == len(m) or (lim != -1 and b - a > lim):
            continue
        x[a:b] = np.interp(np.arange(a, b), idx, x[idx])
        m[a:b] = True
    return x, m


def run_interp(case, res):
    from seismic.utils.miic_utils import interpolate_gaps, interpolate_gaps_st
    m = np.array(case['pat'], dtype=bool)
    x = signal(len(m))
    res.nontrivial = bool(m.any() and not m.all())
    for lim in (-1, 0, 1, 2, 3, len(m)):
        if case['form'] == 'nan':
            a = np.where(m, x, np.nan)
        else:
            a = np.ma.array(np.where(m, x, 9e4).astype(
                np.int32 if case['form'] == 'int' else float), mask=~m)
        if m.all():
            a = np.ma.getdata(a)
        out = interpolate_gaps(a.copy(), lim)
        from obspy import Stream
        st = Stream([B.trace('A', 'S', 'HHZ', 0, a.copy(), SR),
                     B.trace('A', 'S', 'HHN', 0, np.arange(3.), SR)])
        interpolate_gaps_st(st, lim)
        e, em = interpolated(x, m, lim)
        exp = {i: e[i] for i in np.flatnonzero(em)}
        res.count(transitions=2)
        for name, got in (('array', out), ('stream', st[0].data)):
            if len(got) != len(m):
                res.fail('interp-length', f'{case} {lim}: {len(got)}')
                return
            g = np.ma.getmaskarray(np.ma.masked_invalid(got))
            got = {i: float(np.ma.getdata(got)[i])
                   for i in np.flatnonzero(~g)}
            q = diff(got, exp)
            if q:
                res.fail(f'interp-{case["form"]}', f'{case} max {lim} '
                         f'{name}: {q}')
                return
        if not np.array_equal(st[1].data, np.arange(3.)):
            res.fail('interp-other', f'{case}')
        res.see(tuple(em), lim)


def tapered(x, n):
    x = np.array(x, dtype=float)
    if 2*n > len(x) or n == 0:
        return x
    w = np.sin(np.linspace(0, np.pi, 2*n))
    x[:n] *= w[:n]
    x[-n:] *= w[-n:]
    return x


def run_gap(case, res):
    from seismic.utils.miic_utils import gap_handler
    for k, lim, ret, tap in itertools.product(
            (1, 3, 5) if case['full'] else (1, 4), (0, 1, 4),
            (0, 1., 3.), (.5, 2.) if case['full'] else (1.,)):
        m = present(case['pat'], k)
        res.nontrivial |= bool(m.any() and not m.all())
        x = signal(len(m))
        e, em = interpolated(x, m, lim)
        if case['form'] == 'isplit' or case['form'] == 'int':
            pass
        exp = {}
        for a, b in runs(em):
            if (b - a)/SR <= ret:
                continue
            seg = tapered(e[a:b], round(tap*SR))
            exp.update(zip(range(a, b), seg))
        for other in (False, True):
            st = make(m, case['form'])
            if other:
                st += make(present([1, 0, 1, 1], 6), case['form'], 5, 'HHN')
            res.count(transitions=1)
            try:
                out = gap_handler(st, lim, ret, tap)
            except Exception as ex:
                res.fail(f'gap-{case["form"]}-error', f'{case} block {k}, '
                         f'args {lim, ret, tap} other {other}: {ex!r}')
                return
            q = diff(table(out), exp)
            if q:
                res.fail(f'gap-{case["form"]}', f'{case} block {k}, args '
                         f'{lim, ret, tap} other {other}: {q}')
                return
            n = len([tr for tr in out if tr.stats.channel == 'HHZ'])
            if n > 1:
                res.fail('gap-merge', f'{case}: {out}')
            if other:
                o = table(out, 'HHN')
                if sorted(o) != [i for i in range(24) if not 6 <= i < 12] \
                        and (lim < 6 and ret < 3):
                    res.fail('gap-other', f'{case}: {sorted(o)}')
        res.see(len(exp))


def segments(case, k, f):
    m = present(case['pat'], k)
    x = signal(len(m))
    exp = {}
    for a, b in runs(m):
        exp.update(zip(range(a, b), f(x[a:b].astype(float))))
    return m, exp


def judge(res, case, st, exp, what):
    q = diff(table(st), exp)
    if q:
        res.fail(f'{case["kind"]}-{case["form"]}', f'{case} {what}: {q}')
        return False
    return True


def line(x):
    if len(x) < 2:
        return x*0
    c = np.polyfit(np.arange(len(x)), x, 1)
    return x - np.polyval(c, np.arange(len(x)))


def run_detrend(case, res):
    from seismic.correlate.preprocessing_stream import detrend_st
    for k, (t, f) in itertools.product((1, 2, 5), (
            ('linear', line), ('demean', lambda x: x - x.mean()),
            ('constant', lambda x: x - x.mean()))):
        m, exp = segments(case, k, f)
        res.nontrivial |= bool(m.any() and not m.all())
        st = make(m, case['form']) + make(present([1, 1, 0, 1], 6),
                                          case['form'], 5, 'HHN')
        res.count(transitions=1)
        try:
            out = detrend_st(st, t)
        except Exception as ex:
            res.fail('detrend-error', f'{case} {k} {t}: {ex!r}')
            return
        if not judge(res, case, out, exp, (k, t)):
            return
        if len(table(out, 'HHN')) != 18:
            res.fail('detrend-other', f'{case}')
        res.see(len(exp), t)


def run_taper(case, res):
    from seismic.correlate.preprocessing_stream import cos_taper_st
    for k, tl, at in itertools.product((1, 2, 5), (.5, 1., 4.),
                                       (False, True)):
        n = round(tl*SR)
        if at:
            m, exp = segments(case, k, lambda x: tapered(x, n))
        else:
            m = present(case['pat'], k)
            e = tapered(signal(len(m)), n)
            exp = {i: e[i] for i in np.flatnonzero(m)}
        res.nontrivial |= bool(m.any() and not m.all())
        st = make(m, case['form']) + make(present([1, 1, 0, 1], 6),
                                          case['form'], 5, 'HHN')
        res.count(transitions=1)
        try:
            out = cos_taper_st(st, tl, False, at)
        except Exception as ex:
            res.fail('taper-error', f'{case} {k} {tl} {at}: {ex!r}')
            return
        if not judge(res, case, out, exp, (k, tl, at)):
            return
        if len(table(out, 'HHN')) != 18:
            res.fail('taper-other', f'{case}')
        res.see(len(exp), tl, at)
    # single trace, impossible arguments
    for bad in (0, -1):
        st = make(present([1, 1], 9), case['form'])
        x = st[0].data.copy()
        out = cos_taper_st(st, bad)
        if not np.array_equal(out[0].data, x):
            res.fail('taper-bad', f'taper of {bad} s')


def run_filter(case, res):
    from obspy.signal.filter import bandpass, lowpass
    from seismic.correlate.preprocessing_stream import stream_filter
    for k, (t, o, f) in itertools.product((1, 3), (
            ('bandpass', dict(freqmin=.1, freqmax=.5, corners=2),
             lambda x: bandpass(x, .1, .5, SR, corners=2)),
            ('lowpass', dict(freq=.3, zerophase=True),
             lambda x: lowpass(x, .3, SR, zerophase=True)))):
        m, exp = segments(case, k, f)
        if not m.any():
            continue
        res.nontrivial |= bool(m.any() and not m.all())
        st = make(m, case['form']) + make(present([1, 1, 0, 1], 6),
                                          case['form'], 5, 'HHN')
        opt = dict(o)
        res.count(transitions=1)
        out = stream_filter(st, t, opt)
        if not judge(res, case, out, exp, (k, t)):
            return
        if opt != o:
            res.fail('filter-args', f'{case}: {opt}')
        if len(table(out, 'HHN')) != 18:
            res.fail('filter-other', f'{case}')
        res.see(len(exp), t)


def run_mask(case, res):
    from seismic.correlate.preprocessing_stream import stream_mask_at_utc
    k = 5
    m = present(case['pat'], k)
    n = len(m)
    wins = [WIN[i] for i in case['win']]
    t = np.arange(n)/SR
    inside = np.zeros(n, dtype=bool)
    near = np.zeros(n, dtype=bool)
    for a, b in wins:
        inside |= (t >= a) & (t <= b)
        near |= (t > a - 1/SR) & (t < b + 1/SR)
    res.nontrivial = bool(inside.any())
    lens = {round(b - a, 6) for a, b in wins}
    for rev, ml in itertools.product((False, True), (False, True)):
        if ml and len(lens) > 1:
            continue
        st = make(m, 'mask') + make(np.ones(4, bool), 'mask', 4, 'HHN', 20.)
        kw = dict(masklen=lens.copy().pop()) if ml else dict(
            ends=[B.utc(b) for a, b in wins])
        res.count(transitions=1)
        out = stream_mask_at_utc(st, [B.utc(a) for a, b in wins],
                                 reverse=rev, **kw)
        got = set(table(out))
        x = signal(n)
        if any(v != x[i] for i, v in table(out).items()):
            res.fail('mask-values', f'{case}: values changed')
        if rev:
            must, may = inside & m, near & m
        else:
            must, may = ~near & m, ~inside & m
        must, may = set(np.flatnonzero(must)), set(np.flatnonzero(may))
        if not must <= got <= may:
            res.fail('mask-reverse' if rev else 'mask', f'{wins} on '
                     f'{case["pat"]} masklen {ml}: visible {sorted(got)}, '
                     f'too many {sorted(got - may)}, too few '
                     f'{sorted(must - got)}')
            return
        oth = table(out, 'HHN', start=20.)
        if len(oth) != (0 if rev else 4):
            res.fail('mask-other', f'{case} reverse {rev}: {oth}')
        res.see(rev, len(got))


def run_valid(case, res):
    from obspy import Stream
    from seismic.utils.miic_utils import (
        get_valid_traces, discard_short_traces)
    mk = [lambda: np.ma.array(np.arange(6.), mask=True),
          lambda: np.ma.array(np.arange(6.), mask=[1, 0, 0, 0, 0, 1]),
          lambda: np.arange(6.),
          lambda: np.arange(20.),
          lambda: np.ma.array(np.arange(30.), mask=False)]
    trs = [B.trace('A', 'S', 'HHZ', 100*i, mk[c](), SR)
           for i, c in enumerate(case['trs'])]
    st = Stream(trs)
    get_valid_traces(st)
    exp = [tr for tr, c in zip(trs, case['trs']) if c]
    res.count(transitions=1)
    if [id(x) for x in st] != [id(x) for x in exp]:
        res.fail('valid', f'{case}: {st}')
    for ln in (0, 2.9, 3, 3.1, 10, 14.9, 15, 99):
        st = Stream(trs)
        discard_short_traces(st, ln)
        exp = [tr for tr in trs if tr.stats.npts/SR > ln]
        res.count(transitions=1)
        if [id(x) for x in st] != [id(x) for x in exp]:
            res.fail('short', f'{case} {ln}: {st}')
    res.nontrivial = len(trs) > 0
    res.see(tuple(sorted(set(case['trs']))))


def run_case(case):
    res = Result()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()[f'run_{case["kind"]}'](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    return res
