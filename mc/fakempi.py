"""
A stand-in for ``mpi4py`` plus a controlled scheduler.

``install()`` replaces the module ``mpi4py`` before anything of SeisMIC is
imported.  Outside of a ``World`` the communicator has size 1.  Inside, every
rank is a forked process (no shared memory, exactly like MPI) that stops at
every communication call and at every file-system call inside the watched
directory; the coordinator (the parent) lets exactly one rank run at a time and
thereby owns the schedule.

Collectives use eager (buffered) semantics, the weakest the MPI standard
allows: the root of a ``bcast`` and the senders of a ``gather`` do not wait.
The k-th collective of all ranks has to be the same operation with the same
root, everything else is reported as a protocol mismatch; no enabled rank while
not all have finished is reported as a deadlock.
"""
import os
import pickle
import sys
import traceback
import types
from multiprocessing import Pipe
from multiprocessing.connection import wait as mpwait

import numpy as np


class _State(object):
    rank = 0
    size = 1
    conn = None
    watch = None
    busy = False


S = _State()
IN_PLACE = '<in place>'


class Op(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


SUM = Op('SUM', lambda a, b: a + b)
MAX = Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(
    a, np.ndarray) else max(a, b))
MIN = Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(
    a, np.ndarray) else min(a, b))
PROD = Op('PROD', lambda a, b: a * b)
LOR = Op('LOR', lambda a, b: a or b)
LAND = Op('LAND', lambda a, b: a and b)
OPS = {o.name: o for o in (SUM, MAX, MIN, PROD, LOR, LAND)}


class Datatype(object):
    def __init__(self, name, dt):
        self.name, self.dtype = name, dt


FLOAT = Datatype('FLOAT', np.float32)
DOUBLE = Datatype('DOUBLE', np.float64)
INT = Datatype('INT', np.int32)
COMPLEX = Datatype('COMPLEX', np.complex64)
C_FLOAT_COMPLEX = Datatype('C_FLOAT_COMPLEX', np.complex64)
DOUBLE_COMPLEX = Datatype('DOUBLE_COMPLEX', np.complex128)


def _buf(b):
    """(array, view in the MPI datatype) of a buffer argument"""
    dt = None
    if isinstance(b, (list, tuple)):
        arr = b[0]
        for x in b[1:]:
            if isinstance(x, Datatype):
                dt = x.dtype
    else:
        arr = b
    if not arr.flags['C_CONTIGUOUS']:
        raise ValueError('buffer is not contiguous')
    v = arr.reshape(-1)
    if dt is not None:
        v = v.view(dt)
    return arr, v


class Comm(object):
    def Get_rank(self):
        return S.rank

    def Get_size(self):
        return S.size

    rank = property(lambda self: S.rank)
    size = property(lambda self: S.size)

    # ------------------------------------------------------------------
    def _coll(self, name, root, payload):
        """Do the collective, returns list of payloads (or what I may see)"""
        if S.conn is None:
            return [pickle.loads(pickle.dumps(payload))]
        S.busy = True
        try:
            S.conn.send(('coll', name, root, payload))
            tag, val = S.conn.recv()
        finally:
            S.busy = False
        if tag != 'go':
            raise SystemExit('world aborted')
        return val

    def bcast(self, obj=None, root=0):
        v = self._coll('bcast', root, obj if S.rank == root else None)
        return obj if S.rank == root else v[root]

    def Bcast(self, buf, root=0):
        arr, v = _buf(buf)
        r = self._coll('Bcast', root, v.copy() if S.rank == root else None)
        if S.rank != root:
            v[...] = r[root]

    def gather(self, sendobj, root=0):
        v = self._coll('gather', root, sendobj)
        return v if S.rank == root else None

    def allgather(self, sendobj):
        return self._coll('allgather', None, sendobj)

    def scatter(self, sendobj=None, root=0):
        v = self._coll('scatter', root, sendobj if S.rank == root else None)
        return v[root][S.rank]

    def allreduce(self, sendobj, op=SUM):
        v = self._coll('allreduce', None, sendobj)
        out = v[0]
        for x in v[1:]:
            out = op.f(out, x)
        return out

    def reduce(self, sendobj, op=SUM, root=0):
        v = self._coll('reduce', root, sendobj)
        if S.rank != root:
            return None
        out = v[0]
        for x in v[1:]:
            out = op.f(out, x)
        return out

    def _rbuf(self, name, root, sendbuf, recvbuf, op):
        src = recvbuf if (
            isinstance(sendbuf, str) and sendbuf == IN_PLACE) else sendbuf
        _, sv = _buf(src)
        v = self._coll(name, root, sv.copy())
        if root is not None and S.rank != root:
            return
        _, rv = _buf(recvbuf)
        sizes = {len(x) for x in v}
        if len(sizes) != 1:
            raise RuntimeError(
                f'{name}: message truncated, buffer sizes {sizes}')
        out = v[0].copy()
        for x in v[1:]:
            out = op.f(out, x)
        rv[...] = out

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._rbuf('Allreduce', None, sendbuf, recvbuf, op)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._rbuf('Reduce', root, sendbuf, recvbuf, op)

    def Barrier(self):
        self._coll('barrier', None, None)

    barrier = Barrier

    def Abort(self, code=1):
        raise SystemExit('MPI Abort')


COMM_WORLD = Comm()


def install():
    if getattr(sys.modules.get('mpi4py'), '_is_fake', False):
        return
    assert 'seismic.correlate.correlate' not in sys.modules
    pkg = types.ModuleType('mpi4py')
    mpi = types.ModuleType('mpi4py.MPI')
    pkg._is_fake = True
    for n, v in list(globals().items()):
        if n in ('IN_PLACE', 'COMM_WORLD', 'Comm', 'Op', 'Datatype') or (
                isinstance(v, (Op, Datatype))):
            setattr(mpi, n, v)
    mpi.COMM_SELF = COMM_WORLD
    mpi.Intracomm = Comm
    mpi.F_FLOAT = FLOAT
    pkg.MPI = mpi
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = mpi
    sys.addaudithook(_audit)


# ---------------------------------------------------------------- fs points
_FS_EVENTS = ('open', 'os.mkdir', 'os.remove', 'os.rename', 'os.listdir',
              'os.scandir', 'os.rmdir', 'os.truncate')


def point(label):
    if S.conn is None or S.busy:
        return
    S.busy = True
    try:
        S.conn.send(('pt', label))
        tag, _ = S.conn.recv()
    finally:
        S.busy = False
    if tag != 'go':
        raise SystemExit('world aborted')


def _audit(event, args):
    if S.conn is None or S.busy or S.watch is None:
        return
    if event in _FS_EVENTS and args and isinstance(args[0], str) \
            and args[0].startswith(S.watch):
        point(f'{event}:{args[0][len(S.watch):]}')


def hook_h5py():
    """h5py opens files in C, invisible to audit hooks: add a point there."""
    import h5py
    if getattr(h5py.File.__init__, '_mc', False):
        return
    orig = h5py.File.__init__

    def __init__(self, name, *a, **k):
        if S.conn is not None and S.watch is not None \
                and str(name).startswith(S.watch):
            point(f'h5:{str(name)[len(S.watch):]}')
        return orig(self, name, *a, **k)
    __init__._mc = True
    h5py.File.__init__ = __init__


# ---------------------------------------------------------------- the world
class Execution(object):
    def __init__(self, n):
        self.points = []     # (n_enabled, running_enabled)
        self.states = set()  # control states visited
        self.choices = []
        self.trace = []
        self.results = [None]*n
        self.errors = {}
        self.deadlock = None
        self.mismatch = None
        self.ncoll = [0]*n

    @property
    def problem(self):
        if self.mismatch:
            return 'mismatch', self.mismatch
        if self.errors:
            r = sorted(self.errors)[0]
            return 'error', f'rank {r} died:\n' + self.errors[r]
        if self.deadlock:
            return 'deadlock', self.deadlock
        return None


NEEDS_ALL = ('allgather', 'allreduce', 'Allreduce', 'barrier')
TO_ROOT = ('gather', 'reduce', 'Reduce')
FROM_ROOT = ('bcast', 'Bcast', 'scatter')


def run_world(n, target, choices=(), watch=None, timeout=180, eager=True):
    """Run ``target(rank)`` on n ranks under the schedule ``choices``."""
    ex = Execution(n)
    conns, pids = [], []
    for r in range(n):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            _child(r, n, b, [a] + conns, target, watch)
        b.close()
        conns.append(a)
        pids.append(pid)
    st = [None]*n           # what each rank waits in
    posted = [dict() for _ in range(n)]   # k -> (name, root, payload)
    running = None

    def absorb(r):
        """wait for the next message of rank r"""
        if not mpwait([conns[r]], timeout):
            ex.errors[r] = 'no progress (timeout)'
            st[r] = ('end',)
            return
        try:
            m = conns[r].recv()
        except EOFError:
            ex.errors[r] = 'process vanished'
            st[r] = ('end',)
            return
        if m[0] == 'coll':
            k = ex.ncoll[r]
            ex.ncoll[r] += 1
            posted[r][k] = m[1:]
            for q in range(n):
                if k in posted[q] and posted[q][k][:2] != m[1:3] \
                        and not ex.mismatch:
                    ex.mismatch = (
                        f'collective #{k}: rank {r} calls {m[1:3]}, rank {q} '
                        f'calls {posted[q][k][:2]}')
            st[r] = ('coll', k)
        elif m[0] == 'pt':
            st[r] = m
        else:
            st[r] = ('end',)
            if m[1]:
                ex.results[r] = m[2]
            else:
                ex.errors[r] = m[2]

    def enabled(r):
        s = st[r]
        if s[0] == 'end':
            return False
        if s[0] == 'pt':
            return True
        k = s[1]
        name, root, _ = posted[r][k]
        have_all = all(k in posted[q] for q in range(n))
        if name in NEEDS_ALL or not eager:
            return have_all
        if name in TO_ROOT:
            return r != root or have_all
        if name in FROM_ROOT:
            return r == root or k in posted[root]
        return have_all

    try:
        for r in range(n):
            absorb(r)
        step = 0
        while True:
            if ex.mismatch or ex.errors:
                break
            en = [r for r in range(n) if enabled(r)]
            if not en:
                if any(s[0] != 'end' for s in st):
                    ex.deadlock = '; '.join(
                        f'rank {r}: ' + (
                            'finished' if st[r][0] == 'end' else
                            'in collective #%d %s' % (
                                st[r][1], posted[r][st[r][1]][:2]))
                        for r in range(n))
                elif len(set(ex.ncoll)) != 1:
                    ex.mismatch = 'ranks finished after different numbers ' \
                        f'of collectives: {ex.ncoll}'
                break
            if running in en:
                en.remove(running)
                en.insert(0, running)
                still = True
            else:
                still = False
            c = choices[step] if step < len(choices) else 0
            if c >= len(en):
                raise AssertionError('schedule diverged on replay')
            ex.points.append((len(en), still))
            ex.states.add(tuple(
                (q[0], str(q[1:])[:80]) for q in st))
            ex.choices.append(c)
            r = en[c]
            step += 1
            s = st[r]
            ex.trace.append(
                (r, s[1] if s[0] == 'pt' else posted[r][s[1]][0]))
            val = None
            if s[0] == 'coll':
                k = s[1]
                name, root, _ = posted[r][k]
                if name in FROM_ROOT:
                    val = [None]*n
                    val[root] = posted[root][k][2]
                elif name in TO_ROOT and r != root:
                    val = None
                else:
                    val = [posted[q][k][2] for q in range(n)]
            conns[r].send(('go', val))
            running = r
            absorb(r)
    finally:
        for r in range(n):
            try:
                conns[r].send(('abort', None))
            except Exception:
                pass
            conns[r].close()
        import signal
        for r, pid in enumerate(pids):
            if st[r] is None or st[r][0] != 'end':
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            os.waitpid(pid, 0)
    return ex


class RankSet(set):
    """
    The iteration order of a set of strings differs between processes (hash
    randomisation): here it is reversed on odd ranks and rotated on others.
    """
    def __iter__(self):
        li = sorted(set.__iter__(self), key=repr)
        if S.rank % 2:
            li.reverse()
        elif S.rank and len(li):
            li = li[1:] + li[:1]
        return iter(li)


def _rank_sets():
    for name, m in list(sys.modules.items()):
        if name.startswith('seismic.') and m is not None \
                and 'set' not in vars(m):
            m.set = RankSet


def _child(r, n, conn, close, target, watch):
    try:
        for c in close:
            c.close()
        S.rank, S.size, S.conn, S.watch = r, n, conn, watch
        S.busy = False
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            os.dup2(devnull, 1)
            if n > 1:
                _rank_sets()
            point('start')
            res = target(r)
            S.busy = True
            conn.send(('end', True, res))
        except SystemExit:
            pass
        except BaseException:
            S.busy = True
            conn.send(('end', False, traceback.format_exc()[-1500:]))
    except BaseException:
        pass
    finally:
        os._exit(0)


def explore(run, bound, max_exec=None):
    """
    Enumerate all schedules with at most ``bound`` deviations from the default
    scheduler (keep the running rank, else the lowest enabled one; delay
    bounding).  ``run`` maps a choice list to an Execution.  Yields every
    Execution.
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ex = run(prefix)
        n += 1
        yield ex
        if max_exec and n >= max_exec:
            return
        dev = sum(1 for c in prefix if c)
        if dev >= bound:
            continue
        for i in range(len(ex.points) - 1, len(prefix) - 1, -1):
            for alt in range(1, ex.points[i][0]):
                stack.append(tuple(ex.choices[:i]) + (alt,))
