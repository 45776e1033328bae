"""
An interrupted run never leaves wrong results, and simply starting it again
completes the database.
"""
import itertools
import os
import sys

import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'fault_enumeration'
RULE = (
    'every single fault point of a complete run - each opening of a database, '
    'each creation of a dataset, each header entry, each read of raw data, '
    'each processing step - x kind of fault (I/O error, interrupt, death of '
    'the process without clean up) x configuration x prior history; '
    '(thorough: pairs of faults, and faults of one of several processes). '
    'After the fault all readable entries equal those of an undisturbed run, '
    'and after starting again the database does. Non-trivial: the fault '
    'prevented at least one entry from being stored.')
ASSUMPTIONS = [
    'a fault is an exception at the call, or the end of the process (buffers '
    'of HDF5 are lost, system calls are not reordered); a file that HDF5 '
    'cannot open any more is reported by the next run and counts as detected',
    '3 stations, 2 read windows with 2 windows each']
CHUNK = 8
STAS = [('AA', 'S1', 10., 10.), ('AA', 'S10', 10.1, 10.),
        ('BB', 'S1', 10., 10.2)]
CONFS = {
    'std': {},
    'sep': dict(save_comps_separately=True),
    'all': dict(method='allCombinations'),
    'delsub': dict(delete_subdivision=True),
    'nostack': dict(recombine_subdivision=False),
    # the first of two runs was complete
    'extend': dict(prior=[(0, 1)]),
    'arrive': dict(prior=[(0, 2)], late=True),
}
KINDS = ['open', 'create', 'read', 'td', 'fd', 'attr']
RL = 200


class Injected(OSError):
    pass


class FT(object):
    """the fault and the counters of this process"""
    counts = {}
    at = None
    fault = None
    where = None


def tick(kind, obj=None):
    n = FT.counts.get(kind, 0)
    FT.counts[kind] = n + 1
    if FT.at == (kind, n):
        if kind in ('create', 'attr'):
            f = obj._id if kind == 'attr' else obj.id
            import h5py
            FT.where = os.path.basename(
                h5py.h5i.get_file_id(f).name.decode())
        if FT.fault == 'kill':
            os._exit(17)
        if FT.fault == 'int':
            raise KeyboardInterrupt('injected')
        if FT.fault == 'mem':
            raise MemoryError('injected')
        raise Injected('No space left on device (injected)')


def td_hook(A, args, params):
    tick('td')
    return A


def fd_hook(B_, args, params):
    tick('fd')
    return B_


_HOOKED = False


def hook():
    """wrap the calls of the libraries below SeisMIC"""
    global _HOOKED
    if _HOOKED:
        return
    _HOOKED = True
    import h5py
    from h5py._hl.attrs import AttributeManager
    from obspy.clients.filesystem.sds import Client
    o_cd, o_at = h5py.Group.create_dataset, AttributeManager.__setitem__
    o_in, o_rd = h5py.File.__init__, Client.get_waveforms

    def cd(self, *a, **k):
        tick('create', self)
        return o_cd(self, *a, **k)

    def at(self, *a, **k):
        tick('attr', self)
        return o_at(self, *a, **k)

    def init(self, *a, **k):
        tick('open')
        return o_in(self, *a, **k)

    def rd(self, *a, **k):
        tick('read')
        return o_rd(self, *a, **k)
    h5py.Group.create_dataset = cd
    AttributeManager.__setitem__ = at
    h5py.File.__init__ = init
    Client.get_waveforms = rd


def opts(d, conf, w0, w1):
    kw = {k: v for k, v in CONFS[conf].items() if k not in ('prior', 'late')}
    kw.update(
        TDpreProcessing=[{'function': 'checks.C03.td_hook', 'args': {}}],
        FDpreProcessing=[{'function': 'checks.C03.fd_hook', 'args': {}}])
    return B.options(d, '*', '*', w0*RL, w1*RL, read_len=RL, read_inc=RL,
                     corr_len=100, corr_inc=100, sr=1, length=5, **kw)


def write(d, conf, i):
    n, s, _, _ = STAS[i]
    for j, c in enumerate(['HHZ', 'HHN'] if conf in ('sep',) else ['HHZ']):
        x = B.noise(i*7 + j, RL*2 + 40)
        B.write_sds(d, B.trace(n, s, c, -20, x, 1.))


def setup_project(d, conf):
    B.write_inventory(d, STAS)
    late = CONFS[conf].get('late')
    for i in range(3):
        if not (late and i == 1):
            write(d, conf, i)
    for w0, w1 in CONFS[conf].get('prior', []):
        B.run_corr(d, opts(d, conf, w0, w1))
    if late:
        write(d, conf, 1)


def run(d, conf, at=None, fault=None):
    """returns None, or the type of the exception that ended the run"""
    hook()
    FT.counts = {}
    FT.at = tuple(at) if at else None
    FT.fault = fault
    try:
        if fault == 'kill':
            sys.stdout.flush()
            pid = os.fork()
            if not pid:
                try:
                    B.run_corr(d, opts(d, conf, 0, 2))
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            return None if code == 0 else f'exit {code}'
        B.run_corr(d, opts(d, conf, 0, 2))
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        return type(e).__name__
    finally:
        FT.at = None
    return None


_BASE = {}


def base(conf):
    """dump of the undisturbed run, dump before, number of fault points"""
    if conf not in _BASE:
        with B.Scratch('c03b') as d:
            setup_project(d, conf)
            before = B.dump_db(os.path.join(d, 'corr'))
            r = run(d, conf)
            assert r is None, r
            _BASE[conf] = (B.dump_db(os.path.join(d, 'corr')), before,
                           dict(FT.counts))
    return _BASE[conf]


def cases(tier):
    out = []
    for conf in CONFS:
        n = base(conf)[2]
        full = conf in ('std',) or tier == 'thorough'
        for kind in KINDS:
            faults = ['io'] if tier == 'quick' else ['io', 'int', 'mem']
            if kind in ('create', 'open', 'td'):
                faults = ['io', 'int', 'kill'] if tier == 'quick' else [
                    'io', 'int', 'mem', 'kill']
            pts = range(n.get(kind, 0))
            if kind == 'attr' and not full:
                # the first two datasets that are written, each entry
                pts = list(pts)[:45]
            for k in pts:
                for f in faults:
                    if f == 'int' and not full and kind != 'create':
                        continue
                    out.append(dict(conf=conf, faults=[[kind, k, f]]))
    if tier == 'thorough':
        for conf in ('std', 'extend', 'arrive'):
            n = base(conf)[2]
            pts = [[k, i, 'io'] for k in ('open', 'create', 'td')
                   for i in range(n.get(k, 0))]
            for a, b in itertools.product(pts, pts):
                out.append(dict(conf=conf, faults=[a, b]))
    return out


def run_case(case):
    res = Result()
    conf = case['conf']
    ref, before, _ = base(conf)
    with B.Scratch('c03') as d:
        setup_project(d, conf)
        corr = os.path.join(d, 'corr')
        lost = False
        kinds = []
        wh = set()   # files that were written to when the fault occurred
        for kind, k, f in case['faults']:
            FT.where = None
            r = run(d, conf, (kind, k), f)
            res.count(transitions=1)
            kinds.append(r)
            if FT.where:
                wh.add(FT.where)
            if f == 'kill' and kind == 'create':
                wh.add('*')
            try:
                now = B.dump_db(corr)
            except OSError as e:
                # only the death of the process may damage a file
                if f != 'kill':
                    res.fail('unreadable', f'{case}: {e}')
                res.add('files_unreadable_after_kill')
                return finish_damaged(res, case, d)
            check_partial(res, case, ref, now, 'after fault', wh)
            res.expect(not set(before) - set(now), 'lost',
                       f'{case}: entries vanished')
            lost = lost or len(now) < len(ref)
            res.state(conf, sorted(map(str, now)))
        r = run(d, conf)
        res.count(transitions=1, traces=1)
        if not res.expect(r is None, 'restart',
                          f'{case}: starting again failed with {r} '
                          f'(fault ended with {kinds})'):
            return res
        now = B.dump_db(corr)
        check_partial(res, case, ref, now, 'after restart', wh)
        miss = sorted(map(str, set(ref) - set(now)))
        sub = [m for m in miss if 'stack_' not in m]
        res.expect(not sub, 'incomplete', f'{case}: after starting again '
                   f'{len(sub)} entries are missing, {sub[:3]}')
        if miss and not sub:
            res.fail(stack_key(set(ref) - set(now), wh, case),
                     f'{case}: stacks missing {miss[:3]}')
        res.see(conf, kinds, len(miss))
        res.nontrivial = lost
    return res


def finish_damaged(res, case, d):
    """Damaged files must be reported by the next run"""
    r = run(d, case['conf'])
    res.count(transitions=1, traces=1)
    res.see('damaged', r)
    if r is None:
        # HDF5 managed to open the file after all
        now = B.dump_db(os.path.join(d, 'corr'))
        check_partial(res, case, base(case['conf'])[0], now, 'damaged',
                      {'*'})
    return res


def stack_key(entries, where, case):
    """
    The known finding concerns the stacks of the one read window that a file
    is receiving when the run ends between its first and last entry.
    """
    n = {}
    for f, path in entries:
        n.setdefault((f, path.split('/')[2]), set()).add(path)
    ok = '*' in where or {f for f, _ in entries} <= where
    return 'stack-after-fault-while-writing' if ok else 'stack'


def check_partial(res, case, ref, now, when, where):
    """whatever is stored is right"""
    extra = set(now) - set(ref)
    st = {e for e in extra if 'stack_' in e[1]}
    # options without content are completed by the next run
    extra = sorted(map(str, extra))
    res.expect(len(extra) == len(st), 'foreign',
               f'{case}: {when} unknown entries {extra[:3]}')
    if st:
        res.fail(stack_key(st, where, case),
                 f'{case}: {when} stack of some windows {extra[:3]}')
    both = {k: v for k, v in now.items() if k in ref and not (
        when == 'after fault' and k[1] == 'co' and not v[0])}
    bad = {k for k in both if B.close_db({k: ref[k]}, {k: both[k]}, 2e-5)}
    dst = {k for k in bad if 'stack_' in k[1]}
    res.expect(bad == dst, 'wrong',
               f'{case}: {when} stored entries differ '
               f'{sorted(map(str, bad))[:3]}')
    if dst:
        res.fail(stack_key(dst, where, case),
                 f'{case}: {when} stack differs {sorted(map(str, dst))[:3]}')
