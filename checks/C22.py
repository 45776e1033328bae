"""
Spectrograms of continuous data: only actual data, at their times.
"""
import itertools
import warnings
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'complete product of availability patterns of up to 3 (thorough 4) read '
    'increments (full, absent, gap, late, early end, fragments of one and '
    'few samples) x sampling rates (kept, decimated, resampled) x 1-5 '
    'processes, plus all schedules with a bounded number of preemptions; '
    'every window of the result has to be completely available, at its time, '
    'and equal the spectrum of the separately processed data; every '
    'available window has to appear; only process 0 has the result. Read '
    'increments and end times: all multiples and fractions of the window '
    'length. Non-trivial: at least two windows.')
ASSUMPTIONS = ['MPI collectives behave as the standard prescribes',
               'windows start at the first sample of a read increment']
CHUNK = 4
WIN = 64
INC = 128
PAT = ['full', 'absent', 'gap', 'late', 'early', 'one', 'few', 'hole']
# native rate, freqmax
RATES = [(4., 2.), (4., 1.), (5., 2.)]


def pieces(pat, k):
    """available times [a, b] of increment k, both ends exclusive of the next
    increment"""
    a, b = k*INC, (k + 1)*INC
    return {'full': [(a, b)], 'absent': [], 'gap': [(a, a+30), (a+50, b)],
            'late': [(a + 40, b)], 'early': [(a, a + 70)],
            'one': [(a, a + .2), (a + 50, b)],
            'few': [(a, a + 100), (a + 110, a + 112)],
            'hole': [(a, a + 10), (a + 12, a + 20), (a + 60, b)]}[pat]


def cases(tier):
    out = []
    full = tier != 'quick'
    for k in (1, 2, 3) + ((4,) if full else ()):
        pats = PAT if k < 3 or full and k < 4 else [
            'full', 'absent', 'gap', 'early']
        for p in itertools.product(pats, repeat=k):
            for r in range(len(RATES)):
                if k > 2 and r and not full:
                    continue
                out.append(dict(kind='ranks', pats=list(p), rate=r,
                                ranks=[1, 2, 3] + ([5] if full else [])))
    for p in (['full', 'gap'], ['absent', 'full'], ['full', 'absent', 'late'],
              ['absent', 'absent']):
        for n in (2, 3):
            out.append(dict(kind='sched', pats=p, rate=0, ranks=[n],
                            bound=2 if full else 1))
    for r in (0, 1):
        for inc in (64, 65, 96, 100, 128, 160, 192, 256, 300, 512, 1000):
            for end in (64, 128, 200, 256, 384, 512):
                out.append(dict(kind='inc', rate=r, inc=inc, end=end))
    for p in itertools.product(PAT, repeat=2):
        out.append(dict(kind='direct', pats=list(p)))
    return out


def data(k0, n):
    """deterministic noise by sample number"""
    x = B.noise(5, 20000)
    return x[k0:k0 + n]


def archive(d, pats, sr, span=None):
    segs = []
    for k, p in enumerate(pats):
        segs += [list(s) for s in pieces(p, k)]
    if span:
        segs = [span]
    # join what is continuous
    j = []
    for s in segs:
        if j and j[-1][1] == s[0]:
            j[-1][1] = s[1]
        else:
            j.append(list(s))
    for a, b in j:
        i0, i1 = int(round(a*sr)), int(np.ceil(b*sr - 1e-9))
        B.write_sds(d, B.trace('A', 'S', 'HHZ', i0/sr, data(
            i0 + 500, i1 - i0), sr))
    return j


def prep(x, t0, sr, freqmax):
    """independent preprocessing of one continuous piece"""
    from obspy import Trace
    from seismic.utils.miic_utils import resample_or_decimate
    tr = Trace(data=x.copy(), header=dict(
        sampling_rate=sr, starttime=B.utc(t0)))
    resample_or_decimate(tr, 2*freqmax)
    tr.detrend('linear')
    tr.filter('highpass', freq=.01)
    return tr.data


def model(segs, sr, freqmax, starts, inc, end):
    """list of (time, spectrum)"""
    from scipy.signal import welch
    from scipy.interpolate import pchip_interpolate
    sn = 2*freqmax
    out = []
    for a in starts:
        b = min(a + inc, end)
        got = {}
        for s0, s1 in segs:
            i0 = int(np.ceil(max(s0, a)*sr - 1e-9))
            i1 = min(int(np.ceil(s1*sr - 1e-9)) - 1,
                     int(np.floor(b*sr + 1e-9)))
            if i1 < i0:
                continue
            try:
                y = prep(data(i0 + 500, i1 - i0 + 1), i0/sr, sr, freqmax)
            except Exception:
                continue
            for j, v in enumerate(y):
                got[int(round(i0/sr*sn)) + j] = v
        if not got:
            continue
        n = int(round(WIN*sn))
        k = min(got)
        while k + n <= max(got):
            idx = range(k, k + n + 1)
            if all(i in got for i in idx):
                f, S = welch(np.array([got[i] for i in idx]), fs=sn)
                f2 = np.logspace(-3, np.log10(f.max()), 512)
                out.append((k/sn, pchip_interpolate(f, S, f2), f2))
            k += n
    return out


def client(d):
    from seismic.trace_data.waveform import Store_Client
    return Store_Client(B.NoRemote(), d, read_only=True)


def program(d, freqmax, inc, end):
    def go(rank):
        try:
            return client(d).compute_spectrogram(
                'A', 'S', 'HHZ', B.utc(0), B.utc(end), WIN, freqmax, inc,
                remove_response=False)
        except ValueError as e:
            if 'could not be computed' in str(e):
                return 'nothing'
            raise
    return go


def compare(res, key, msg, got, exp):
    if isinstance(got, str):
        if exp:
            res.fail(key + '-nothing', f'{msg}: nothing instead of windows '
                     f'{[t for t, *_ in exp]}')
        return
    f, t, S = got
    if not exp and not len(t):
        return
    tt = [x - B.utc(0) for x in t]
    if not exp:
        res.fail(key + '-time', f'{msg}: {tt} without data')
        return
    if not np.allclose(f, exp[0][2]):
        res.fail(key + '-freq', f'{msg}: {f}')
        return
    if len(tt) != len(exp) or not np.allclose(
            tt, [x[0] for x in exp], atol=1e-3):
        res.fail(key + '-time', f'{msg}: windows at {tt} instead of '
                 f'{[x[0] for x in exp]}')
        return
    if S.shape != (len(f), len(t)):
        res.fail(key + '-shape', f'{msg}: {S.shape}')
        return
    for i, (x, s, _) in enumerate(exp):
        if not np.allclose(S[:, i], s, rtol=1e-4, atol=1e-6*s.max()):
            res.fail(key + '-value', f'{msg}: spectrum at {x} differs')
            return


def judge(res, e, n, exp, msg):
    res.count(transitions=max(len(e.points), 1), traces=1)
    msg = f'{msg}, {n} ranks, schedule {e.choices}'
    if e.problem:
        res.fail(e.problem[0], f'{msg}: {e.problem[1]}')
        return
    for r in range(1, n):
        x = e.results[r]
        if isinstance(x, str) or any(v is not None for v in x):
            res.fail('others', f'{msg}: process {r} has {x}')
    compare(res, 'ranks', msg, e.results[0], exp)
    res.see(n, len(exp))


def run_ranks(case, res):
    sr, fm = RATES[case['rate']]
    with B.Scratch('c22') as d:
        segs = archive(d, case['pats'], sr)
        import os
        os.makedirs(os.path.join(d, 'mseed'), exist_ok=True)
        k = len(case['pats'])
        exp = model(segs, sr, fm, [INC*i for i in range(k)], INC, k*INC)
        res.nontrivial = len(exp) > 1
        states = set()
        for n in case['ranks']:
            def go(ch=(), watch=None):
                return fakempi.run_world(
                    n, program(d, fm, INC, k*INC), ch, watch=watch)
            msg = f'{case["pats"]}, rate {RATES[case["rate"]]}'
            if case['kind'] == 'sched':
                for e in fakempi.explore(
                        go,
                        case['bound']):
                    judge(res, e, n, exp, msg)
                    res.add('schedules', 1)
                    states |= {(n, q) for q in e.states}
            else:
                e = go()
                judge(res, e, n, exp, msg)
                states |= {(n, q) for q in e.states}
        res.count(states=max(len(states), 1))


run_sched = run_ranks


def run_inc(case, res):
    """the read increment has no influence on the times"""
    sr, fm = RATES[case['rate']]
    with B.Scratch('c22') as d:
        archive(d, [], sr, [-100, 900])
        res.count(traces=1, transitions=1, states=1)
        exp = [t for t in np.arange(0, case['end'], WIN)
               if t + WIN <= case['end']]
        got = program(d, fm, case['inc'], case['end'])(0)
        tt = [] if isinstance(got, str) else [
            float(x - B.utc(0)) for x in got[1]]
        res.nontrivial = len(exp) > 1
        res.see(len(tt))
        if len(tt) != len(exp) or not np.allclose(tt, exp, atol=1e-3):
            res.fail('inc', f'{case}: windows at {tt} instead of {exp}')


def run_direct(case, res):
    """streams given by the caller, equal times, any order"""
    from obspy import Stream
    from seismic.utils.raw_analysis import spct_series_welch
    sr, fm = 4., 2.
    segs, sts = [], []
    for k, p in enumerate(case['pats']):
        st = Stream()
        for a, b in pieces(p, k):
            i0, i1 = int(round(a*sr)), int(np.ceil(b*sr - 1e-9))
            st.append(B.trace('A', 'S', 'HHZ', i0/sr, data(
                i0 + 500, i1 - i0).astype(float), sr))
        sts.append(st)
    for order in ([0, 1], [1, 0], [0, 0, 1], [1, 0, 1]):
        res.count(traces=1, transitions=1)
        exp = []
        for i in order:
            segs = pieces(case['pats'][i], i)
            exp += model(segs, sr, fm, [INC*i], INC, (i + 1)*INC)
        exp.sort(key=lambda x: x[0])
        try:
            got = spct_series_welch(
                iter([sts[i].copy() for i in order]), WIN, fm, False)
        except ValueError as e:
            if 'could not be computed' not in str(e):
                raise
            got = 'nothing'
        compare(res, 'direct', f'{case["pats"]} {order}', got, exp)
        res.see(order, len(exp))
        res.nontrivial |= len(exp) > 1
    res.count(states=1)


def run_case(case):
    res = Result()
    res.nontrivial = False
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()[f'run_{case["kind"]}'](case, res)
    return res
