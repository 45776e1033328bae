"""
Any history of correlation runs over parts of the time range, in any order and
with data arriving in between, leaves the database of one single run.
"""
import itertools
import os

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all histories (sequences of runs, each over an interval of read windows, '
    'and of stations whose data arrive between runs) up to the given length '
    'per configuration; the model is the union of what single fresh runs over '
    'the individual read windows store. Non-trivial: at least two runs that '
    'store something.')
ASSUMPTIONS = [
    'raw data arrive in whole read windows; processing options are not '
    'changed between the runs',
    '3 stations, 1-2 channels, 1 Hz, 3 read windows of 120 s',
]
STAS = [('AA', 'S1', 10., 10.), ('AA', 'S10', 10.1, 10.),
        ('BB', 'S1', 10., 10.2)]
NW = 3


def rl(conf):
    # preprocessing of single windows discards windows shorter than 80 s
    return 240 if conf == 'subdiv' else 120

CHUNK = 4
CONFS = {
    'std': {},
    'sep': dict(save_comps_separately=True),
    'all': dict(method='allCombinations'),
    'simple': dict(method='allSimpleCombinations'),
    'auto': dict(method='autoComponents'),
    'comp': dict(method='betweenComponents'),
    'nostack': dict(recombine_subdivision=False),
    'delsub': dict(delete_subdivision=True),
    'xc': dict(xcombinations=['BB-AA.S1-S1', 'AA-AA.S1-S10.HHZ-HHZ']),
    'subdiv': dict(preprocess_subdiv=True),
    'mask': dict(mask=True),
    'gap': dict(gap=True),
    'overlap': dict(corr_inc=20),
    'ztwo': dict(comp='Z', sep=True),
}


# channels that arrive one by one
PROF = {'comp3': [(0, 'HHE'), (0, 'HHN'), (0, 'HHZ')],
        'two2': [(0, 'HHN'), (0, 'HHZ'), (1, 'HHN'), (1, 'HHZ')],
        'bands': [(0, 'BHZ'), (0, 'HHZ'), (0, 'HHN')]}


def write_channel(d, i, c):
    n, s, _, _ = STAS[i]
    x = B.noise(100 + i*7 + ord(c[0])*3 + ord(c[-1]), rl('')*NW + 40)
    B.write_sds(d, B.trace(n, s, c, -20, x, 1.))


def opts(d, proj, conf, w0, w1, stas='*'):
    kw = dict(CONFS[conf])
    kw.pop('gap', None)
    if kw.pop('mask', None):
        kw['preProcessing'] = [
            {'function': 'seismic.correlate.preprocessing_stream.'
             'stream_mask_at_utc',
             'args': {'starts': [B.utc(50 + 100*w0)], 'masklen': 0.}},
            {'function': 'seismic.correlate.preprocessing_stream.'
             'stream_mask_at_utc',
             'args': {'starts': [B.utc(80 + 100*w1)], 'masklen': 5.}}]
    RL = rl(conf)
    cl = RL // 3 if conf != 'subdiv' else 120
    kw.setdefault('corr_inc', cl)
    return B.options(
        proj, '*', stas, w0*RL, w1*RL, read_len=RL, read_inc=RL,
        corr_len=cl, sr=1, length=5, **kw)


def write(d, conf, i, w=None):
    """Data of station i, in read window w (all if None)"""
    n, s, _, _ = STAS[i]
    RL = rl(conf)
    chans = ['HHZ']
    if conf in ('comp', 'auto', 'simple', 'sep', 'delsub', 'ztwo', 'xc'):
        chans.append('HHN')
    for j, c in enumerate(chans):
        x = B.noise(i*7 + j, RL*NW + 40)
        a, b = (-20, RL*NW + 20)
        if CONFS[conf].get('gap') and i == 1:
            for a, b in ((-20, 70), (155, RL*NW+20)):
                B.write_sds(d, B.trace(n, s, c, a, x[a+20:b+20], 1.))
        else:
            B.write_sds(d, B.trace(n, s, c, a, x[a+20:b+20], 1.))


INTERVALS = [(a, b) for a in range(NW) for b in range(a+1, NW+1)]


def cases(tier):
    out = []
    for prof, chans in PROF.items():
        for conf in ('comp', 'auto', 'simple', 'all', 'std', 'sep'):
            for arr in itertools.product(range(2), repeat=len(chans)):
                out.append(dict(conf=conf, prof=prof, arrive=arr,
                                runs=[(0, 2)]*2))
            for arr in itertools.permutations(range(len(chans))):
                if tier == 'quick' and len(chans) > 3:
                    continue
                out.append(dict(conf=conf, prof=prof, arrive=arr,
                                runs=[(0, 2)]*len(chans)))
    depth = 3 if tier == 'thorough' else 2
    for L in range(1, depth+1):
        for h in itertools.product(INTERVALS, repeat=L):
            out.append(dict(conf='std', runs=h, arrive=[0, 0, 0]))
    for conf in CONFS:
        for h in [((0, 3),), ((0, 3), (0, 3)), ((0, 1), (0, 3)),
                  ((1, 2), (0, 3)), ((0, 1), (1, 2), (2, 3)),
                  ((2, 3), (1, 2), (0, 1)), ((0, 2), (1, 3))]:
            out.append(dict(conf=conf, runs=h, arrive=[0, 0, 0]))
        # stations whose data arrive later (before run 0, 1 or 2)
        for arr in itertools.product(range(3), repeat=3):
            if max(arr) == 0 or (tier == 'quick' and conf not in (
                    'std', 'sep', 'all', 'xc') and sorted(arr) != list(arr)):
                continue
            out.append(dict(conf=conf, runs=[(0, 2)]*(max(arr)+1),
                            arrive=arr))
    return out


_REF = {}


def reference(conf, prof=None):
    """window -> dump of a fresh run over this window only, all data"""
    if (conf, prof) not in _REF:
        out = {}
        with B.Scratch('c02r') as d:
            B.write_inventory(d, STAS)
            for i, c in PROF.get(prof, ()):
                write_channel(d, i, c)
            for i in range(0 if prof else 3):
                write(d, conf, i)
            for w in range(NW):
                B.run_corr(d, opts(d, f'{d}/w{w}', conf, w, w+1))
                out[w] = B.dump_db(f'{d}/w{w}/corr')
        _REF[conf, prof] = out
    return _REF[conf, prof]


def run_case(case):
    res = Result()
    conf = case['conf']
    prof = case.get('prof')
    ref = reference(conf, prof)
    with B.Scratch('c02') as d:
        B.write_inventory(d, STAS)
        prev = {}
        want = set()
        stored = 0
        for k, (a, b) in enumerate(case['runs']):
            for i, arr in enumerate(case['arrive']):
                if arr == k:
                    if prof:
                        write_channel(d, *PROF[prof][i])
                    else:
                        write(d, conf, i)
            o = opts(d, d + '/p', conf, a, b)
            if not any(x <= k for x in case['arrive']):
                continue
            B.run_corr(d, o)
            now = B.dump_db(d + '/p/corr')
            gone = [q for q in prev if q not in now]
            res.expect(not gone, 'entries-lost',
                       f'run {k} removed {gone[:3]}')
            changed = B.close_db(
                prev, {q: now[q] for q in prev if q in now}, tol=0,
                ignore=())
            res.expect(not changed, 'entries-changed',
                       f'run {k} changed stored entries {changed[:3]}')
            stored += len(now) > len(prev)
            prev = now
            want |= set(range(a, b))
            res.count(transitions=1)
            res.state(conf, prof, sorted(map(str, now)))
        exp = B.union_db(*[ref[w] for w in sorted(want)])
        if conf == 'mask':
            # the mask differs between the runs, which must be accepted and
            # must not touch what is stored (checked above)
            exp, prev = {}, {}
        # preprocessing of single windows is not the same as of whole read
        # windows (detrending), so only compare what is stored
        diff = B.close_db(exp, prev) if conf != 'subdiv' else sorted(
            map(str, set(exp) ^ set(prev)))
        res.expect(not diff, 'differs', lambda: f'history {case["runs"]} '
                   f'differs from single runs: {len(diff)}, {diff[:4]}')
        res.see(conf, prof, sorted(map(str, prev)))
        res.count(traces=1)
        res.nontrivial = stored > 1 or len(prev) > 0
        res.sample = dict(case, entries=len(prev))
    return res
