"""
Correlation result does not depend on the number of MPI ranks nor on the
schedule, and the run terminates on every rank.

Real Correlator, Store_Client, SDS archive and HDF5 databases; only mpi4py is
replaced by the controlled communicator (mc.fakempi).
"""
import itertools
import os
import shutil

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
fakempi.hook_h5py()

LEVEL = 'model_checking'
RULE = (
    'complete product of per-channel availability patterns (full, absent, '
    'missing in one read window, late start, gap, sub-sample time offset, '
    'wrong sampling rate, short piece) x configuration x number of ranks, plus all '
    'schedules with a bounded number of preemptions at communication and '
    'file-open points; a case is non-trivial if at least two ranks took part '
    'and at least one correlation was stored.')
ASSUMPTIONS = [
    'MPI collectives behave as the standard prescribes (eager/buffered '
    'semantics); ranks share only the file system',
    'synthetic archive: 2-3 stations, 2 Hz, 2 read windows of 400 s',
    'float32 results compared with tolerance 2e-5',
]
STAS = [('AA', 'S1', 10., 10.), ('AA', 'S2', 10.1, 10.),
        ('BB', 'S1', 10., 10.2), ('BB', 'S10', 10.3, 10.2)]
CHUNK = 2

PAT = ['full', 'absent', 'second', 'first', 'late', 'gap', 'offset',
       'lowsr', 'short', 'earlyend']


def write_pattern(d, i, n, s, c, pat):
    def w(a, b, sr=2., off=0.):
        N = int((b - a)*sr)
        full = B.noise(17*i + 3, 4000)
        k = int((a + 200)*2)
        B.write_sds(d, B.trace(n, s, c, a + off, full[k:k+N], sr))
    if pat == 'full':
        w(-100, 900)
    elif pat == 'second':
        w(440, 900)
    elif pat == 'first':
        w(-100, 390)
    elif pat == 'late':
        w(230, 900)
    elif pat == 'gap':
        w(-100, 120)
        w(290, 900)
    elif pat == 'offset':
        w(-100, 900, off=.2)
    elif pat == 'offset-':
        w(-100, 900, off=-.2)
    elif pat == 'offset3':
        w(-100, 900, off=.3)
    elif pat == 'dead':
        B.write_sds(d, B.trace(n, s, c, -100, B.noise(3, 2000)*0, 2.))
    elif pat == 'deadstart':
        x = B.noise(17*i + 3, 2000)
        x[:1000] = 7
        B.write_sds(d, B.trace(n, s, c, -100, x, 2.))
    elif pat == 'lowsr':
        w(-100, 900, sr=1.)
    elif pat == 'short':
        w(100, 103)
        w(200, 202)
    elif pat == 'earlyend':
        w(-100, 650)
    elif pat == 'absent':
        # directory exists, no data in the requested time
        w(-200, -150)


CONFS = {
    'std': {},
    'allSimple': dict(method='allSimpleCombinations'),
    'auto': dict(method='autoComponents'),
    'all': dict(method='allCombinations'),
    'between_comp': dict(method='betweenComponents'),
    'td': dict(
        TDpreProcessing=[
            {'function': 'seismic.correlate.preprocessing_td.detrend',
             'args': {'type': 'linear'}},
            {'function': 'seismic.correlate.preprocessing_td.clip',
             'args': {'std_factor': 2}},
            {'function':
             'seismic.correlate.preprocessing_td.signBitNormalization',
             'args': {}}],
        FDpreProcessing=[
            {'function': 'seismic.correlate.preprocessing_fd.'
             'spectralWhitening', 'args': {}}]),
    'sep': dict(save_comps_separately=True),
    'delsub': dict(delete_subdivision=True),
    'nostack': dict(recombine_subdivision=False),
    'overlap': dict(corr_inc=50),
    'uneven': dict(corr_len=150, corr_inc=150),
    'decim': dict(sr=1),
    'subdiv': dict(preprocess_subdiv=True),
    'lag': dict(center_correlation=False),
    'lagoff': dict(center_correlation=False, sr=1, corr_inc=70),
    'white': dict(length=20, FDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_fd.'
         'spectralWhitening', 'args': {}}]),
    'white_joint': dict(length=20, FDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_fd.'
         'spectralWhitening', 'args': {'joint_norm': True}}]),
    'fdsign': dict(FDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_fd.'
         'FDsignBitNormalization', 'args': {}}]),
    'tdnorm': dict(TDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_td.'
         'TDnormalization', 'args': {
             'filter': {'type': 'bandpass', 'freqmin': .1, 'freqmax': .4},
             'windowLength': 5}},
        {'function': 'seismic.correlate.preprocessing_td.mute', 'args': {
             'taper_len': 3, 'threshold': 5000, 'extend_gaps': True}},
        {'function': 'seismic.correlate.preprocessing_td.taper', 'args': {
             'type': 'cosine_taper', 'p': .2}}]),
    'mask': dict(preProcessing=[
        {'function': 'seismic.correlate.preprocessing_stream.'
         'stream_mask_at_utc',
         'args': {'starts': 'UTC150', 'masklen': 100.}}]),
    'incr': dict(prior=True),
    'incr_subdiv': dict(prior=True, preprocess_subdiv=True),
    'wild': dict(nets=['AA', 'BB'], stas='*'),
    'list': dict(nets=['AA', 'AA', 'BB'], stas=['S1', 'S2', 'S1']),
    'rcombi': dict(xcombinations=['AA-BB.S1-S1']),
}


def cases(tier):
    out = []
    # 1. all availability combinations, standard configuration
    nch = 3
    pats = PAT if tier == 'thorough' else [
        'full', 'absent', 'second', 'late', 'gap', 'offset', 'lowsr',
        'short']
    for c in itertools.product(pats, repeat=nch):
        if tier == 'quick' and c != tuple(sorted(c, key=pats.index)) \
                and c != tuple(sorted(c, key=pats.index, reverse=True)):
            continue
        out.append(dict(kind='avail', pats=c, conf='std', ranks=[2, 3]))
    # 2. configurations
    pl = [('full', 'full', 'full', 'full'), ('full', 'late', 'second', 'gap'),
          ('absent', 'full', 'full', 'first'),
          ('late', 'lowsr', 'offset', 'full'),
          ('full', 'short', 'full', 'absent')]
    for conf in CONFS:
        for p in pl:
            if conf == 'white_joint':
                # sets of three traces
                p = ('full',)*3
            out.append(dict(kind='conf', pats=p, conf=conf,
                            ranks=([2, 5] if p is pl[1] else [2, 3])
                            if tier == 'quick'
                            else [2, 3, 4, 5, 6, 7]))
    for conf in ('lag', 'lagoff', 'std'):
        for p in [('offset', 'full', 'offset3'), ('late', 'offset', 'full'),
                  ('full', 'offset3', 'late', 'offset')]:
            out.append(dict(kind='conf', pats=p, conf=conf, ranks=[2, 3]))
    for conf in ('white', 'tdnorm', 'td', 'std', 'white_joint'):
        for p in [('dead', 'full', 'deadstart'), ('full', 'dead', 'full'),
                  ('full', 'deadstart', 'late')]:
            if conf == 'white_joint' and 'late' in p:
                continue    # not a multiple of three traces
            out.append(dict(kind='conf', pats=p, conf=conf, ranks=[2, 3]))
    for conf in ('subdiv', 'incr_subdiv'):
        for c in itertools.product(
                ['full', 'late', 'second', 'offset', 'earlyend'],
                repeat=2):
            out.append(dict(kind='conf', pats=c, conf=conf, ranks=[2]))
    # 3. schedules
    for conf in ['std', 'incr', 'sep'] + (
            ['allSimple', 'wild', 'subdiv'] if tier == 'thorough' else []):
        for n in (2, 3):
            out.append(dict(
                kind='sched', pats=('full', 'late'), conf=conf, ranks=[n],
                bound=1, end=400))
    # the long ones first
    return out[-6:] + out[:-6] if tier == 'quick' else out


def run(d, proj, conf, end, ranks_unused=None):
    from seismic.correlate.correlate import Correlator
    from seismic.trace_data.waveform import Store_Client
    kw = {k: v for k, v in conf.items()}
    kw.pop('prior', None)
    nets = kw.pop('nets', '*')
    stas = kw.pop('stas', '*')
    o = B.options(proj, nets, stas, 0, end, **kw)
    for step in o['co']['preProcessing']:
        if step['args'].get('starts') == 'UTC150':
            step['args'] = dict(
                step['args'], starts=[B.utc(150)])
    sc = Store_Client(B.NoRemote(), d)
    Correlator(sc, o).pxcorr()


def channels(n):
    chs = []
    for (net, sta, _, _) in STAS[:n]:
        chs.append((net, sta, 'HHZ'))
    return chs


def run_case(case):
    res = Result()
    conf = CONFS[case['conf']]
    end = case.get('end', 800)
    with B.Scratch('c01') as d:
        B.write_inventory(d, STAS)
        pats = case['pats']
        chs = channels(len(pats))
        for i, ((n, s, c), p) in enumerate(zip(chs, pats)):
            write_pattern(d, i, n, s, c, p)
            if case['conf'] in ('between_comp', 'auto'):
                write_pattern(d, i + 10, n, s, 'HHN', 'full')
        if conf.get('prior'):
            # database left by an earlier, shorter run
            ex = fakempi.run_world(
                1, lambda r: run(d, d + '/p0', conf, 400))
            if ex.problem:
                res.fail('prior-' + ex.problem[0], ex.problem[1])
                return res
            conf = dict(conf)

        def prep(name):
            if os.path.exists(d + '/p0'):
                shutil.copytree(d + '/p0', d + '/' + name)
            return d + '/' + name
        p1 = prep('p1')
        ex = fakempi.run_world(1, lambda r: run(d, p1, conf, end))
        if ex.problem:
            res.fail('single-' + ex.problem[0], ex.problem[1])
            return res
        ref = B.dump_db(p1 + '/corr')
        res.nontrivial = len(ref) > 0
        res.see(len(ref), case['pats'])
        res.sample = dict(case, entries=len(ref))
        seen_states = set()
        for n in case['ranks']:
            if case['kind'] == 'sched':
                seen = 0
                k = [0]

                def go(ch):
                    k[0] += 1
                    p = prep(f'r{n}_{k[0]}')
                    e = fakempi.run_world(
                        n, lambda r: run(d, p, conf, end), ch,
                        watch=p + '/corr')
                    e.proj = p
                    return e
                for e in fakempi.explore(go, case['bound']):
                    seen += 1
                    judge(res, e, ref, n, case)
                    seen_states |= {(n, q) for q in e.states}
                    shutil.rmtree(e.proj)
                res.add('schedules', seen)
            else:
                p = prep(f'r{n}')
                e = fakempi.run_world(
                    n, lambda r: run(d, p, conf, end))
                e.proj = p
                judge(res, e, ref, n, case)
                seen_states |= {(n, q) for q in e.states}
        res.count(states=len(seen_states))
    return res


def judge(res, e, ref, n, case):
    res.count(transitions=len(e.points), traces=1)
    if e.problem:
        res.fail(f'{e.problem[0]}', f'{n} ranks, schedule {e.choices}: '
                 f'{e.problem[1]}')
        return
    got = B.dump_db(e.proj + '/corr')
    res.see(sorted(map(str, got)))
    diff = B.close_db(ref, got)
    if diff:
        res.fail('differs', f'{n} ranks, schedule {e.choices}: {len(diff)} '
                 f'differences to 1 rank, e.g. {diff[:3]}')
