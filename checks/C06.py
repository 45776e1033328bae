"""
Stored values are the cross-correlation of the prepared windows: all window
lengths, lag lengths, sampling rates, combination methods.
"""
import itertools
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B, corrmodel as M      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'product of window length x lag length (hence every padded transform '
    'length in the range) x sampling rate x combination method x availability '
    'of each channel; every stored entry (set of entries, lag axis, all '
    'samples) is compared with the time domain definition. Non-trivial: at '
    'least one entry stored.')
ASSUMPTIONS = ['integer raw data on a common sample grid, native sampling '
               'rate; tolerance 2e-4 relative to the peak']
CHUNK = 4


def chan(i, n, s, c, sr, pat, T):
    x = B.noise(11*i + 5, int((T+60)*sr)).astype(float)
    x = np.convolve(x, [1, 2, 1], 'same').astype(np.int32)
    o = int(-30*sr)
    N = len(x)
    if pat == 'full':
        p = [(o, x)]
    elif pat == 'gap':
        g0, g1 = int((30+T*.4)*sr), int((30+T*.55)*sr)
        p = [(o, x[:g0]), (o+g1, x[g1:])]
    elif pat.startswith('hole'):
        g0 = int((30+T*.45)*sr)
        p = [(o, x[:g0]), (o+g0+int(pat[4:]), x[g0+int(pat[4:]):])]
    elif pat == 'late':
        g = int((30+T*.35)*sr)
        p = [(o+g, x[g:])]
    elif pat == 'early':
        p = [(o, x[:int((30+T*.6)*sr)])]
    elif pat == 'dead':
        p = [(o, x*0)]
    elif pat == 'none':
        p = []
    elif pat == 'spike':
        y = x*0 + np.random.RandomState(i).randint(-1, 2, N).astype(np.int32)
        p = [(o, y)]
    return (n, s, c, p)


def cases(tier):
    out = []
    step = 1 if tier == 'thorough' else 2
    for cl in range(20, 61, step):
        for length in (3, 7) if tier == 'quick' else (1, 3, 7, 12, 19):
            out.append(dict(cl=cl, inc=cl, length=length, sr=1.,
                            method='betweenStations', pats=['full']*2))
    for sr in (2., 4.) if tier == 'quick' else (2., 4., 5., 8.):
        for cl in (30, 31.5, 41, 46.25):
            if abs(cl*sr - round(cl*sr)) > 1e-9:
                continue
            for length in (2.5, 5.25, 10):
                out.append(dict(cl=cl, inc=cl, length=length, sr=sr,
                                method='allSimpleCombinations',
                                pats=['full']*2))
    pats = ['full', 'gap', 'late', 'early', 'none', 'spike']
    for p in itertools.product(pats, repeat=2):
        for m in ('betweenStations', 'allCombinations'):
            out.append(dict(cl=40, inc=40, length=6, sr=2., method=m,
                            pats=p))
    for p, q in itertools.product(
            ['hole1', 'hole2', 'hole3'], ['full', 'hole1', 'gap']):
        out.append(dict(cl=40, inc=40, length=6, sr=2.,
                        method='betweenStations', pats=(p, q)))
    for p in itertools.product(['full', 'gap', 'late'], repeat=3):
        for m in ('betweenStations', 'betweenComponents', 'autoComponents',
                  'allSimpleCombinations', 'allCombinations'):
            if tier == 'quick' and len(set(p)) == 1 and p[0] != 'full':
                continue
            out.append(dict(cl=40, inc=40, length=6, sr=1., method=m,
                            pats=p, comps=True))
    out += [dict(c, norm=False) for c in out[::5]]
    return out


def run_case(case):
    res = Result()
    sr, cl, length = case['sr'], case['cl'], case['length']
    T = 240
    codes = [('AA', 'S1', 'HHZ'), ('AA', 'S2', 'HHZ'), ('BB', 'S1', 'HHN')]
    if case.get('comps'):
        codes = [('AA', 'S1', 'HHE'), ('AA', 'S1', 'HHZ'),
                 ('AA', 'S2', 'HHN')]
    chans = [chan(i, *codes[i], sr, p, T) for i, p in enumerate(case['pats'])]
    norm = case.get('norm', True)
    with B.Scratch('c06') as d:
        for n, s, c, ps in chans:
            for o, x in ps:
                B.write_sds(d, B.trace(n, s, c, o/sr, x, sr))
        o = B.options(
            d, '*', '*', 0, T, read_len=T, read_inc=T, corr_len=cl,
            corr_inc=case['inc'], sr=sr, length=length,
            method=case['method'], normalize_correlation=norm)
        if not any(c[3] for c in chans):
            res.nontrivial = False
            return res
        B.run_corr(d, o)
        got, hdr = M.read_real(d + '/corr')
    exp = M.run(chans, sr, 0, T, T, T, cl, case['inc'], case['method'],
                length, norm)
    for k, msg in M.compare(exp, got, hdr, sr, length):
        res.fail(k, msg)
    res.count(traces=len(got), transitions=len(exp))
    for k in got:
        res.state(case['cl'], case['length'], sr, case['pats'], k)
    res.nontrivial = len(got) > 0
    res.see(case['cl'], case['length'], len(got))
    res.sample = dict(case, entries=len(got))
    return res
