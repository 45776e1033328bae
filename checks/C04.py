"""
Exactly the pairs of traces that the configuration asks for are correlated.
"""
import itertools

from mc import fakempi
fakempi.install()
from mc import build as B, corrmodel as M      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    '(a) all sets of up to 4 traces from an alphabet of 7 codes (prefixes of '
    'each other, two locations) in all orders x combination method x subset '
    'of pairs already stored x requested pairs; (b) all documented forms of '
    'selecting networks, stations, and components through complete runs on a '
    'small archive; (c) distance filter. Model: set comprehension over the '
    'channels. Non-trivial: at least one pair selected and one not.')
ASSUMPTIONS = ['up to 4 traces per stream; archive of 2 networks, 3 stations, '
               '2 components']
CHUNK = 4
ALPHA = [('A', '1', '', 'HHE'), ('A', '1', '', 'HHZ'), ('A', '10', '', 'HHZ'),
         ('A', '1', '00', 'HHZ'), ('AB', '1', '', 'HHZ'),
         ('AB', '10', '', 'HHN'), ('A', '1', '', 'BHZ')]
METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']
RC = [None, ['A-A.1-10'], ['A-A.10-1'], ['A-AB.1-1.HHZ-HHZ'],
      ['AB-A.10-1'], ['A-A.1-1'], ['A-AB.1-10', 'A-AB.10-1.HHZ-HHZ']]


def cases(tier):
    out = []
    for k in range(1, 5):
        for c in itertools.combinations(range(len(ALPHA)), k):
            out.append(dict(kind='combis', codes=c))
    nets = [('A', '*'), ('AB', '*'), ('*', '*'), (['A', 'AB'], '*'),
            ('A', '1'), ('A', ['1', '10']), (['A', 'AB'], ['10', '1']),
            ('A', '1*'), ('A*', '*'), (['A'], ['10']), ('A', ['1', '1']),
            ('AB', '1'), (['AB', 'A', 'A'], ['1', '1', '10']), ('A', '?'),
            (['A', 'AB'], ['*', '1']), ('A', ['1?', '1']),
            (['A*', 'AB'], '*'), (['A?', '*'], '*')]
    for (n, s), comp, m in itertools.product(
            nets, ['Z', 'N', '?', '*', '[ZN]'], METHODS):
        if tier == 'quick' and comp in ('*', '[ZN]') and m not in METHODS[:2]:
            continue
        out.append(dict(kind='run', nets=n, stas=s, comp=comp, method=m))
    for rc in (['A-A.1-10'], ['A-A.10-1'], ['AB-A.1-1'],
               ['A-A.1-10.HHZ-HHZ'], ['A-AB.10-1.HHN-HHZ', 'A-A.1-10'],
               'None', None):
        out.append(dict(kind='run', nets='*', stas='*', comp='?',
                        method='betweenStations', rc=rc))
        for sub in (True, False):
            out.append(dict(kind='run', nets='*', stas='*', comp='?',
                            method='betweenStations', rc=rc, again=True,
                            subdiv=sub))
    for m in METHODS:
        out.append(dict(kind='run', nets='*', stas='*', comp='?', method=m,
                        again=True, subdiv=True))
    for (n, s), m in itertools.product(nets[2:6], METHODS):
        out.append(dict(kind='run', nets=n, stas=s, comp='?', method=m,
                        sep=True))
    for dist in (1, 9000, 12000, 30000, 200000):
        out.append(dict(kind='dist', dist=dist))
    return out


def in_rc(c0, c1, rc):
    if rc is None or rc == 'None':
        return True
    for r in rc:
        p = r.split('.')
        for x, y in ((c0, c1), (c1, c0)):
            if p[0] == f'{x[0]}-{y[0]}' and p[1] == f'{x[1]}-{y[1]}' and (
                    len(p) == 2 or p[2] == f'{x[2]}-{y[2]}'):
                return True
    return False


def model(ids, method):
    """Multiset of ordered pairs of positions"""
    out = []
    for i, j in itertools.product(range(len(ids)), repeat=2):
        a, b = ids[i], ids[j]
        same = a[:2] == b[:2]
        if method == 'betweenStations':
            ok = i < j and not same
        elif method == 'betweenComponents':
            ok = i < j and same and a[3][-1] != b[3][-1]
        elif method == 'autoComponents':
            ok = i == j
        elif method == 'allSimpleCombinations':
            ok = i <= j
        else:
            ok = True
        if ok:
            out.append((i, j))
    return out


def combis(case, res):
    import numpy as np
    from obspy import Stream
    from seismic.correlate.correlate import calc_cross_combis
    base = [ALPHA[i] for i in case['codes']]
    for order in itertools.permutations(base):
        for method in METHODS:
            rcs = RC if method == 'betweenStations' else [None]
            for rc in rcs:
                def fresh():
                    return Stream([B.trace(
                        n, s, c, 0, np.zeros(4), 1., loc)
                        for n, s, loc, c in order])
                st = fresh()
                got = calc_cross_combis(st, {}, method, rc)
                # indices refer to the stream, which is sorted in place
                ids = [tuple(tr.id.split('.')) for tr in st]
                ids = [(n, s, lo, c) for n, s, lo, c in ids]
                if not res.expect(sorted(ids) == sorted(base), 'stream',
                                  f'{order}: stream changed to {ids}'):
                    continue
                want = [
                    (i, j) for i, j in model(ids, method) if in_rc(
                        (ids[i][0], ids[i][1], ids[i][3]),
                        (ids[j][0], ids[j][1], ids[j][3]), rc)]

                def norm(li):
                    if method == 'allCombinations':
                        return sorted(tuple(x) for x in li)
                    return sorted(tuple(sorted(x)) for x in li)
                res.expect(
                    norm(got) == norm(want), 'pairs-' + method,
                    f'{ids}, {method}, requested {rc}: {norm(got)} instead '
                    f'of {norm(want)}')
                res.count(transitions=1)
                res.state(ids, method, rc)
                if rc is not None or order != tuple(base):
                    continue
                # pairs stored already: every subset up to size 2
                for sub in itertools.chain(
                        itertools.combinations(want, 1),
                        itertools.combinations(want, 2) if len(want) < 7
                        else []):
                    keys = set()
                    ex = {}
                    for i, j in sub:
                        a, b = sorted((ids[i], ids[j]), key=lambda q: (
                            q[0], q[1], q[3]))
                        keys.add((a[0], a[1], a[3], b[0], b[1], b[3]))
                        ex.setdefault(f'{a[0]}.{a[1]}', {}).setdefault(
                            f'{b[0]}.{b[1]}', {}).setdefault(
                            f'{a[3]}-{b[3]}', []).append(
                            B.utc(0).format_fissures())
                    left = []
                    for i, j in want:
                        a, b = sorted((ids[i], ids[j]), key=lambda q: (
                            q[0], q[1], q[3]))
                        if (a[0], a[1], a[3], b[0], b[1], b[3]) not in keys:
                            left.append((i, j))
                    got = calc_cross_combis(fresh(), ex, method)
                    res.expect(
                        norm(got) == norm(left), 'existing-' + method,
                        f'{ids}, {method}, stored {ex}: {norm(got)} instead '
                        f'of {norm(left)}')
                    # same pairs stored at another time: still computed
                    for x in ex.values():
                        for y in x.values():
                            for z in y:
                                y[z] = [B.utc(10).format_fissures()]
                    got = calc_cross_combis(fresh(), ex, method)
                    res.expect(
                        norm(got) == norm(want), 'othertime-' + method,
                        f'{ids}, {method}, stored {ex}: {norm(got)} instead '
                        f'of {norm(want)}')
                    res.count(transitions=2)
    res.count(traces=1)


CH = [('A', '1', 'HHZ'), ('A', '1', 'HHN'), ('A', '10', 'HHZ'),
      ('A', '10', 'HHN'), ('AB', '1', 'HHZ')]
POS = [('A', '1', 10., 10.), ('A', '10', 10., 10.1), ('AB', '1', 10.2, 10.1)]


def match(code, pat):
    import fnmatch
    return fnmatch.fnmatchcase(code, pat)


def run(case, res):
    with B.Scratch('c04') as d:
        B.write_inventory(d, POS)
        for i, (n, s, c) in enumerate(CH):
            B.write_sds(d, B.trace(n, s, c, -5, B.noise(i, 230), 1.))
        o = B.options(
            d, case['nets'], case['stas'], 0, 100, read_len=100,
            read_inc=100, corr_len=100, corr_inc=100, sr=1, length=2,
            comp=case['comp'], method=case['method'],
            recombine_subdivision=False,
            save_comps_separately=case.get('sep', False),
            preprocess_subdiv=case.get('subdiv', False))
        if 'rc' in case:
            o['co']['xcombinations'] = case['rc']
        error = None
        try:
            B.run_corr(d, o)
            if case.get('again'):
                o['co']['read_end'] = str(B.utc(200))
                B.run_corr(d, o)
        except Exception as e:
            error = e
        got, hdr = M.read_real(d + '/corr')
    nets, stas = case['nets'], case['stas']
    if isinstance(nets, list) and len(nets) == 1:
        nets = nets[0]
    if isinstance(nets, str) and isinstance(stas, str):
        sel = [(nets, stas)]
    elif isinstance(nets, list) and stas == '*':
        sel = [(n, '*') for n in nets]
    elif isinstance(nets, list):
        sel = list(zip(nets, stas))
    else:
        sel = [(nets, s) for s in stas]
    ids = [c for c in CH if any(
        match(c[0], n) and match(c[1], s) for n, s in sel)
        and match(c[2][-1], case['comp'])]
    ids = sorted((n, s, '', c) for n, s, c in ids)
    if error is not None and ids:
        raise error
    want = set()
    for i, j in model(ids, case['method']):
        a, b = sorted((ids[i], ids[j]))
        if in_rc((a[0], a[1], a[3]), (b[0], b[1], b[3]), case.get('rc')):
            want.add((f'{a[0]}-{b[0]}', f'{a[1]}-{b[1]}', f'{a[3]}-{b[3]}'))
    bad = sorted(k[:4] for k in got if k[0].startswith('misplaced')
                 or (hdr[k]['_file'].count('.') == 3) != case.get(
                     'sep', False))
    res.expect(not bad, 'file', f'{case}: {bad}')
    have = {k[1:4] for k in got}
    n = len(want)*(2 if case.get('again') else 1)
    res.expect(len(got) == n, 'number', f'{case}: {len(got)} entries, not {n}')
    res.expect(have == want, 'selection',
               f'{case}: missing {sorted(want-have)}, unexpected '
               f'{sorted(have-want)}')
    res.nontrivial = bool(want)
    res.count(transitions=len(want), traces=1)
    res.state(case)


def dist(case, res):
    from obspy.geodetics import gps2dist_azimuth
    from seismic.correlate.correlate import Correlator
    from seismic.trace_data.waveform import Store_Client
    with B.Scratch('c04') as d:
        B.write_inventory(d, POS)
        for i, (n, s, c) in enumerate(CH):
            B.write_sds(d, B.trace(n, s, c, -5, B.noise(i, 130), 1.))
        o = B.options(
            d, '*', '*', 0, 100, read_len=100, read_inc=100, corr_len=100,
            corr_inc=100, sr=1, length=2, comp='Z',
            recombine_subdivision=False)
        c = Correlator(Store_Client(B.NoRemote(), d), o)
        c.find_interstat_dist(case['dist'])
        c.pxcorr()
        got, hdr = M.read_real(d + '/corr')
    want = set()
    for a, b in itertools.combinations(POS, 2):
        if gps2dist_azimuth(a[2], a[3], b[2], b[3])[0] <= case['dist']:
            want.add((f'{a[0]}-{b[0]}', f'{a[1]}-{b[1]}', 'HHZ-HHZ'))
    have = {k[1:4] for k in got}
    res.expect(have == want, 'distance',
               f'{case}: missing {sorted(want-have)}, unexpected '
               f'{sorted(have-want)}')
    res.count(transitions=1, traces=1)
    res.state(case)


def run_case(case):
    res = Result()
    dict(combis=combis, run=run, dist=dist)[case['kind']](case, res)
    res.see(case)
    res.sample = case
    return res
