"""
Monitoring of many pairs on any number of processes.
"""
import itertools
import os
import shutil
import sys
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc import proj as P       # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()
fakempi.hook_h5py()

LEVEL = 'model_checking'
RULE = (
    'all sequences of up to 3 (thorough 4) databases from an alphabet (1-3 '
    'channels, unusable channel, no data with the tag, empty, damaged file, '
    'no data in the period) x number of processes 1-5 x velocity change or '
    'coherence (one or several frequency bands and lapse windows, '
    'components stored or not); and all schedules with a bounded number of '
    'preemptions at communication and file operations. The model is what '
    'separate computations of each channel on one process store. Every '
    'result has to be written exactly once. Non-trivial: at least two '
    'results.')
ASSUMPTIONS = [
    'MPI collectives behave as the standard prescribes; processes share only '
    'the file system, directory listings may be ordered differently']
CHUNK = 1
H = 3600.
KINDS = ['ok1', 'ok2', 'ok3', 'short', 'notag', 'damaged', 'late', 'empty']


def cases(tier):
    out = []
    full = tier != 'quick'
    for k in (0, 1, 2, 3) + ((4,) if full else ()):
        kinds = KINDS if k < 3 or full and k < 4 else (
            ['ok1', 'ok2', 'short', 'damaged'] if full else
            ['ok2', 'short', 'damaged'])
        for s in itertools.product(kinds, repeat=k):
            out.append(dict(kind='ranks', what='dv', files=list(s),
                            ranks=[1, 2, 3] + ([5] if full else [])))
            for conf in range(len(WFC)) if full or k < 2 else (1,):
                out.append(dict(
                    kind='ranks', what='wfc', conf=conf, files=list(s),
                    ranks=[1, 2, 3] + ([5] if full else [])))
    for s in (['ok3'], ['ok1', 'ok1'], ['ok1', 'damaged'], ['ok2', 'ok1']):
        for n in (2, 3):
            for what in ('dv', 'wfc'):
                out.append(dict(kind='sched', what=what, conf=1,
                                files=s, ranks=[n],
                                bound=2 if full and n == 2 else 1))
    out += [dict(kind='ranks', what=w, conf=1,
                 files=['ok3', 'short', 'ok2', 'ok3', 'notag', 'ok1'],
                 ranks=[1, 2, 3, 4, 5, 7]) for w in ('dv', 'wfc')]
    return out


WFC = [
    dict(freq_min=.1, freq_max=1., tw_start=0, tw_len=6, save_comps=False),
    dict(freq_min=[.1, .3], freq_max=[1., 1.5], tw_start=[0, 3],
         tw_len=[5, 6], save_comps=True),
    dict(freq_min=[.1], freq_max=[1.], tw_start=[0, 2], tw_len=6,
         save_comps=True),
    dict(freq_min=[.1, .1], freq_max=[1., 1.5], tw_start=[2, 2, 3],
         tw_len=[6, 8, 6], save_comps=False),
]
CH = ['HHE-HHE', 'HHE-HHN', 'HHZ-HHZ']


def build(d, files):
    t = P.lagtimes()
    for i, s in enumerate(files):
        path = os.path.join(d, 'corr', f'A-A.S{i}-S{i}.h5')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if s == 'damaged':
            with open(path, 'wb') as f:
                f.write(b'\x89HDF\r\n\x1a\n' + b'x'*300)
            continue
        nch = {'ok1': 1, 'ok2': 2, 'ok3': 3, 'short': 3}.get(s, 1)
        trs = []
        for c in range(nch):
            ml = 1. if s == 'short' and c == 1 else 12.
            tt = P.lagtimes(ml)
            for j in range(3):
                st = j + (500 if s == 'late' else 0)
                dat = P.wave(tt*np.exp(-P.GRID[(i + c + j) % 7])) + .02*np.sin(
                    tt*(3 + i + c + j))
                trs.append(P.corr_trace(
                    'A-A', f'S{i}-S{i}', CH[c], st*H, (st + 1)*H, dat, ml))
        P.write_db(path, trs, tag='stack_1' if s == 'notag' else
                   'subdivision')
        if s == 'empty':
            import h5py
            with h5py.File(path, 'a') as f:
                for k in list(f):
                    if k == 'subdivision':
                        del f[k]
    return t


def options(d, case):
    o = P.dv_options(d, 0, 3*H, H, H)
    o['wfc'] = dict(
        subdir='wfc', start_date=str(B.utc(0)), end_date=str(B.utc(3*H)),
        win_len=H, date_inc=H, dt_ref=dict(
            win_inc=0, method='mean', percentile=50),
        preprocessing=[])
    if case['what'] == 'wfc':
        o['wfc'].update(WFC[case['conf']])
    return o


_WRITES = []


def _hook(event, args):
    if event == 'open' and args and isinstance(args[0], str) \
            and args[0].endswith('.npz') and (
                'w' in str(args[1]) or 'a' in str(args[1])
                or '+' in str(args[1])):
        _WRITES.append(os.path.basename(args[0]))


class _Rev(object):
    def __init__(self, it):
        with it:
            self.li = sorted(it, key=lambda e: e.name, reverse=True)

    def __enter__(self):
        return iter(self.li)

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.li)


def order(rank):
    """directory listings differ between processes"""
    if rank % 2:
        a, b = os.scandir, os.listdir
        os.scandir = lambda *x: _Rev(a(*x))
        os.listdir = lambda *x: sorted(b(*x), reverse=True)


def program(opts, what):
    def go(rank):
        sys.addaudithook(_hook)
        order(rank)
        with P.MonitorProject(opts) as m:
            if what == 'dv':
                m.compute_velocity_change_bulk()
            else:
                m.compute_waveform_coherence_bulk()
        return list(_WRITES)
    return go


def single(d, case):
    """what separate computations of every channel give"""
    from seismic.monitor.monitor import average_components_wfc
    opts = options(d, case)
    groups = {}
    with P.MonitorProject(opts) as m:
        for i, s in enumerate(case['files']):
            path = os.path.join(d, 'corr', f'A-A.S{i}-S{i}.h5')
            for ch in CH:
                args = (path, 'subdivision', 'A-A', f'S{i}-S{i}', ch)
                try:
                    if case['what'] == 'dv':
                        m.compute_velocity_change(*args)
                        continue
                    for w in m.compute_waveform_coherence(*args):
                        p = w.wfc_processing
                        groups.setdefault((
                            i, p['freq_min'], p['freq_max'], p['tw_start'],
                            p['tw_len']), []).append(w)
                except Exception:
                    pass
        for k, wl in groups.items():
            average_components_wfc(wl).save(os.path.join(
                d, 'wfc', 'WFC-A-A.S%d-S%d.av.f%a-%a.tw%a-%a' % (
                    (k[0], k[0]) + k[1:])))


def dump(d):
    out = {}
    for s in ('dv', 'wfc'):
        p = os.path.join(d, s)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if not f.endswith('.npz'):
                out[f] = None
                continue
            with np.load(os.path.join(p, f), allow_pickle=True) as z:
                out[s + '/' + f] = {k: z[k] for k in z.files}
    return out


def same(a, b):
    if set(a) != set(b):
        return f'only in one: {sorted(set(a) ^ set(b))}'
    for f in a:
        if set(a[f]) != set(b[f]):
            return f'{f}: fields {sorted(set(a[f]) ^ set(b[f]))}'
        for k in a[f]:
            x, y = a[f][k], b[f][k]
            if x.shape != y.shape:
                return f'{f} {k}: {x.shape} {y.shape}'
            if x.dtype.kind in 'fc' and y.dtype.kind in 'fc':
                if not np.allclose(x, y, rtol=1e-9, atol=1e-12,
                                   equal_nan=True):
                    return f'{f} {k}: {x} instead of {y}'
            elif str(x.tolist()) != str(y.tolist()):
                return f'{f} {k}: {x} instead of {y}'
    return None


def judge(res, e, d, n, exp, case):
    res.count(transitions=max(len(e.points), 1), traces=1)
    sched = f'{n} ranks, {case["files"]}, schedule {e.choices}'
    if e.problem:
        res.fail(f'{case["what"]}-{e.problem[0]}', f'{sched}: {e.problem[1]}')
        return
    got = dump(d)
    x = same(got, exp)
    if x:
        res.fail(f'{case["what"]}-differs', f'{sched}: {x}')
        return
    w = sorted(sum(e.results, []))
    if len(w) != len(set(w)):
        res.fail(f'{case["what"]}-twice', f'{sched}: written more than once: '
                 f'{sorted({f for f in w if w.count(f) > 1})}')
    res.see(n, len(got), tuple(len(x) for x in e.results))


def run_case(case):
    res = Result()
    with B.Scratch('c18') as d:
        build(d, case['files'])
        os.makedirs(os.path.join(d, 'ref'))
        shutil.copytree(os.path.join(d, 'corr'),
                        os.path.join(d, 'ref', 'corr')) if case[
                            'files'] else None
        os.makedirs(os.path.join(d, 'corr'), exist_ok=True)
        r = os.path.join(d, 'ref')
        ex = fakempi.run_world(1, lambda rank: single(r, case))
        if ex.problem:
            res.fail('single', str(ex.problem))
            return res
        exp = dump(r)
        res.nontrivial = len(exp) > 1
        res.sample = dict(case, results=len(exp))
        states = set()
        k = [0]

        def go(n, choices=(), watch=False):
            k[0] += 1
            p = os.path.join(d, f'p{k[0]}')
            shutil.copytree(os.path.join(d, 'corr'),
                            os.path.join(p, 'corr'))
            e = fakempi.run_world(
                n, program(options(p, case), case['what']), choices,
                watch=os.path.join(p, 'wfc' if case['what'] == 'wfc'
                                   else 'dv') if watch else None)
            e.proj = p
            return e
        for n in case['ranks']:
            if case['kind'] == 'sched':
                cnt = 0
                for e in fakempi.explore(
                        lambda ch: go(n, ch, True), case['bound']):
                    cnt += 1
                    judge(res, e, e.proj, n, exp, case)
                    states |= {(n, q) for q in e.states}
                    shutil.rmtree(e.proj)
                res.add('schedules', cnt)
            else:
                e = go(n)
                judge(res, e, e.proj, n, exp, case)
                states |= {(n, q) for q in e.states}
                shutil.rmtree(e.proj)
        res.count(states=max(len(states), 1))
    return res
