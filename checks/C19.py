"""
The local archive of raw data is a faithful cache; other file structures.
"""
import itertools
import os
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()

LEVEL = 'model_checking'
RULE = (
    'all histories of requests (intervals between half days of three days '
    'around the turn of the year x channel x reading only or storing) up to '
    'the given length x patterns of remote data (complete, gap in a day, '
    'gap at midnight, sampling that misses midnight, short pieces, single '
    'samples, inventory present or not). The model is a map from time to '
    'value per channel. After each request the returned samples, after each '
    'history the content of the files, its reading by a new client and the '
    'available stations are compared. File structures: all structures of an '
    'alphabet x subsets of existing files x requested intervals at hour, '
    'day, month and year boundaries. Responses: all histories of requests '
    'and additions of responses for channels and epochs. Non-trivial: some '
    'data stored.')
ASSUMPTIONS = [
    'the remote service always returns the same value for the same time; '
    'whether a request that is complete to one sample at its ends uses local '
    'or remote data, and whether the samples exactly at the limits of a '
    'request from other file structures are returned, is left open; files of '
    'other structures may end after their nominal period, but do not begin '
    'more than one sample before it']
CHUNK = 8
DT = 600
DAY = 86400
HALF = 43200
PATS = ['full', 'gap', 'midgap', 'off', 'pieces', 'singles']
CHANS = [('A', 'S1', '', 'HHZ'), ('A', 'S1', '00', 'HHZ'),
         ('A', 'S10', '', 'HHZ'), ('B', 'S1', '', 'HHZ')]


def intervals(n=6):
    return [(i, j) for i in range(n) for j in range(i + 1, n + 1)]


def fine():
    return [(2 - k*DT/HALF, 4) for k in range(4)] + [
        (2, 4 + k*DT/HALF) for k in range(1, 4)] + [
        (2 - 2*DT/HALF, 4 + 2*DT/HALF)]


def cases(tier):
    out = []
    full = tier != 'quick'
    iv = intervals()
    for pat in PATS:
        for h in itertools.product(range(len(iv)), repeat=2):
            out.append(dict(kind='hist', pat=pat, ops=[(0, i) for i in h]))
    sub = [iv.index(x) for x in ((0, 2), (1, 3), (2, 4), (3, 5), (0, 6),
                                 (1, 2), (4, 6))]
    for pat in PATS if full else ('full', 'pieces'):
        for h in itertools.product(sub, repeat=3):
            out.append(dict(kind='hist', pat=pat, ops=[(0, i) for i in h]))
    # second request some samples longer at one end
    for pat in ('full', 'off'):
        for i, j in itertools.permutations(range(len(iv), len(iv) + 8), 2):
            out.append(dict(kind='hist', pat=pat, ops=[(0, i), (0, j)]))
    ops = [(c, i) for c in (0, 1, 2) for i in (sub[1], sub[3], sub[4])] + [
        ('ro', sub[1]), ('ro', sub[4]), (3, sub[1])]
    for h in itertools.product(range(len(ops)), repeat=3 if full else 2):
        for inv in (True, False):
            out.append(dict(kind='hist', pat='full', inv=inv,
                            ops=[ops[i] for i in h]))
    for s in range(len(STRUCT)):
        nf = len(files_of(s))
        if full or nf <= 5:
            subs = [[i for i in range(nf) if m >> i & 1]
                    for m in range(2**nf)]
        else:
            subs = [list(range(nf))] + [
                [i for i in range(nf) if i not in c]
                for k in (1, 2) for c in itertools.combinations(range(nf), k)]
        for x in subs:
            for sh in (0, 1, -1):
                out.append(dict(kind='fs', struct=s, files=x, shift=sh,
                                deep=full))
        for x in ([list(range(nf))] + [
                [i for i in range(nf) if i != j] for j in range(nf)]):
            for sh in (3,):
                out.append(dict(kind='fs', struct=s, files=x, shift=sh,
                                deep=full))
        for sh in (0, 1, -1):
            out.append(dict(kind='fs', struct=s, files=list(range(nf)),
                            shift=sh, deep=full, gap=True))
    for h in itertools.product(range(len(INV_OPS)), repeat=4 if full else 3):
        out.append(dict(kind='inv', ops=list(h)))
    return out


# ------------------------------------------------------------ remote service
def remote_times(pat):
    """start at 2014-12-31"""
    off = 200 if pat == 'off' else 0
    t = np.arange(-DAY, 2*DAY, DT) + off
    h = (t + DAY)/3600.
    if pat == 'gap':
        t = t[(h < 15) | (h > 20)]
    elif pat == 'midgap':
        t = t[(h < 23) | (h > 26)]
    elif pat == 'pieces':
        t = t[(h % 8 > 1)]
    elif pat == 'singles':
        k = np.arange(len(t))
        t = t[(k % 20 != 1) & (k % 20 != 3)]
    return t


def value(c, t):
    return np.asarray(np.asarray(t)//200 % 9973 + 10000*c, dtype=np.int32)


def pieces(c, t):
    """stream of the samples at the given times"""
    from obspy import Stream
    net, sta, loc, cha = CHANS[c]
    st = Stream()
    if len(t):
        for x in np.split(t, np.flatnonzero(np.diff(t) != DT) + 1):
            st.append(B.trace(net, sta, cha, float(x[0]), value(c, x),
                              1./DT, loc))
    return st


def response():
    from obspy.core.inventory import (
        Inventory, Network, Station, Channel, Site, Response)
    r = Response.from_paz([0], [-1], 1.)
    return Inventory(networks=[Network(code=n, stations=[Station(
        code=s, latitude=1., longitude=2., elevation=3., site=Site(name=s),
        channels=[Channel(code='HHZ', location_code=lo, latitude=1.,
                          longitude=2., elevation=3., depth=0., azimuth=0.,
                          dip=-90., sample_rate=1./DT, response=r)
                  for lo in ('', '00')]) for s in ss])
        for n, ss in (('A', ('S1', 'S10')), ('B', ('S1',)))],
        source='verif')


class Remote(object):
    def __init__(self, pat):
        self.t = remote_times(pat)
        self.calls = 0
        self.inv_calls = 0

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **kw):
        from obspy.clients.fdsn.header import FDSNNoDataException
        self.calls += 1
        c = CHANS.index((network, station, location, channel))
        a, b = float(starttime) - B.T0, float(endtime) - B.T0
        t = self.t[(self.t >= a - 1e-3) & (self.t <= b + 1e-3)]
        if not len(t):
            raise FDSNNoDataException('no data')
        return pieces(c, t)

    def get_stations(self, network=None, station=None, level=None, **kw):
        self.inv_calls += 1
        return B.reduced(response().select(
            network=network, station=station), level)


def samples(st):
    """{time: value}; None if one time has two values"""
    out = {}
    for tr in st:
        d = tr.data
        m = np.ma.getmaskarray(d)
        t0 = tr.stats.starttime.timestamp - B.T0
        for i in np.flatnonzero(~m):
            t = round(t0 + i*tr.stats.delta, 2)
            v = float(np.ma.getdata(d)[i])
            if out.setdefault(t, v) != v:
                return None
    return out


def diff(got, exp):
    if got is None:
        return 'two values for one time'
    a = sorted(set(got) - set(exp))
    b = sorted(set(exp) - set(got))
    if a or b:
        return f'{len(a)} samples too many ({a[:3]}), {len(b)} missing ' \
            f'({b[:3]}) of {len(exp)}'
    w = [t for t in exp if got[t] != exp[t]]
    if w:
        return f'{len(w)} wrong values at {w[:3]}'
    return None


def run_hist(case, res):
    from seismic.trace_data.waveform import Store_Client
    iv = intervals() + fine()
    rem = Remote(case['pat'])
    model = {c: {} for c in range(len(CHANS))}
    delta = DT
    with B.Scratch('c19') as d:
        if case.get('inv', True):
            os.makedirs(os.path.join(d, 'inventory'))
            for n, s in (('A', 'S1'), ('A', 'S10'), ('B', 'S1')):
                response().select(network=n, station=s).write(os.path.join(
                    d, 'inventory', f'{n}.{s}.xml'), format='STATIONXML')
        client = Store_Client(rem, d)
        try:
            client.get_available_stations()
            res.fail('available-none', 'stations without data')
        except FileNotFoundError:
            pass
        for c, i in case['ops']:
            ro = c == 'ro'
            c = 0 if ro else c
            a, b = [round(x*HALF) - DAY for x in iv[i]]
            full = {float(t): float(v) for t, v in zip(
                rem.t, value(c, rem.t)) if a <= t <= b}
            have = {t: v for t, v in model[c].items() if a <= t <= b}
            n0 = rem.calls
            cl = Store_Client(rem, d, read_only=True) if ro else client
            st = cl.get_waveforms(*CHANS[c], B.utc(a), B.utc(b))
            called = rem.calls > n0
            res.count(transitions=1)
            covers = have and min(have) <= a + delta and max(
                have) >= b - delta
            if covers and called:
                res.fail('remote-twice', f'{case}: {iv[i]} loaded again')
            lacks = not have or min(have) > a + 1.5*delta or max(
                have) < b - 1.5*delta
            if lacks and not called:
                res.fail('remote-not', f'{case}: {iv[i]} is not complete '
                         'but nothing was loaded')
            got = samples(st)
            if got is not None and not called:
                # the sample next to the limits may come along
                got = {t: v for t, v in got.items() if a <= t <= b or not (
                    a - delta < t < b + delta and model[c].get(t) == v)}
            x = diff(got, full if called else have)
            if x:
                res.fail('returned', f'{case} {iv[i]} '
                         f'{"remote" if called else "local"}: {x}')
            if any((tr.stats.network, tr.stats.station, tr.stats.location,
                    tr.stats.channel) != CHANS[c] for tr in st):
                res.fail('returned-code', f'{case}: {st}')
            if called and not ro:
                model[c].update(full)
            if len(st) and any('response' not in tr.stats for tr in st):
                res.fail('response', f'{case}: no response attached')
            # what is stored now
            check_files(res, d, model, case)
            res.state(case['pat'], str(sorted(
                (k, len(v), sum(v)) for k, v in model.items())))
        if not case.get('inv', True) and any(model.values()) \
                and rem.inv_calls > 2 + sum(
                    o[0] == 'ro' for o in case['ops']):
            res.fail('inventory-again', f'{case}: {rem.inv_calls}')
        res.nontrivial = any(model.values())
        res.see(case['pat'], tuple(len(m) for m in model.values()))
        # a new client without remote service
        new = Store_Client(B.NoRemote(), d, read_only=True)
        for c, m in model.items():
            a, b = -DAY, 2*DAY
            st = new.get_waveforms(*CHANS[c], B.utc(a), B.utc(b),
                                   _check_times=False)
            x = diff(samples(st), m)
            if x:
                res.fail('reread', f'{case}: {x}')
        stas = {CHANS[c][:2] for c, m in model.items() if m}
        for net in (None, 'A', 'B', 'C', '*'):
            try:
                got = new.get_available_stations(net)
            except FileNotFoundError:
                got = []
            if sorted(map(list, got)) != sorted(
                    list(s) for s in stas if net in (s[0], None, '*')):
                res.fail('available', f'{case}: {got} for network {net}')


def check_files(res, d, model, case):
    from obspy import read
    got = {c: {} for c in model}
    root = os.path.join(d, 'mseed')
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            st = read(p)
            s = st[0].stats
            day = s.starttime
            exp = os.path.join(
                root, str(day.year), s.network, s.station,
                f'{s.channel}.D', '%s.%s.%s.%s.D.%d.%03d' % (
                    s.network, s.station, s.location, s.channel, day.year,
                    day.julday))
            if p != exp:
                res.fail('file-name', f'{case}: {p[len(d):]} starts at '
                         f'{day}')
                return
            end = max(tr.stats.endtime for tr in st)
            mid = B.utc(0).__class__(day.year, day.month, day.day) + DAY
            if end > mid:
                res.fail('file-day', f'{case}: {f} ends at {end}')
            if len({tr.id for tr in st}) != 1:
                res.fail('file-mixed', f'{case}: {f}: {st}')
            sm = samples(st)
            if sm is None or sum(tr.stats.npts for tr in st) != len(sm):
                res.fail('file-duplicates', f'{case}: {f}: {st}')
                return
            c = CHANS.index((s.network, s.station, s.location, s.channel))
            for t, v in sm.items():
                if got[c].setdefault(t, v) != v:
                    res.fail('file-conflict', f'{case}: {f}')
    for c in model:
        x = diff(got[c], model[c])
        if x:
            res.fail('stored', f'{case} channel {c}: {x}')
            return


# ---------------------------------------------------------------- responses
INV_ITEMS = [('A', 'S1', 'HHZ'), ('A', 'S1', 'HHN'), ('A', 'S10', 'HHZ'),
             ('AB', 'S1', 'HHZ')]
# waveforms of a channel in the first and second epoch of the instruments;
# all responses of a station; a new client; reading the stored inventory
INV_OPS = [('wf', 0, 0), ('wf', 1, 0), ('wf', 2, 0), ('wf', 3, 0),
           ('wf', 0, 1), ('sel', 'A', 'S1'), ('sel', 'AB', 'S1'),
           ('new',), ('ro',), ('reload',)]


class InvRemote(object):
    def __init__(self):
        self.asked = []
        from obspy.core.inventory import (
            Inventory, Network, Station, Channel, Site, Response)
        nets = []
        for n, sta, ch in INV_ITEMS:
            for e in (0, 1):
                r = Response.from_paz([0], [-1], 2. + e)
                a, b = (B.utc((e - 1)*DAY), B.utc(e*DAY - 1))
                nets.append(Network(code=n, stations=[Station(
                    code=sta, latitude=1., longitude=2., elevation=3.,
                    site=Site(name=sta), channels=[Channel(
                        code=ch, location_code='', latitude=1., longitude=2.,
                        elevation=3., depth=0., azimuth=0., dip=-90.,
                        sample_rate=1./DT, response=r, start_date=a,
                        end_date=b)])]))
        self.inv = Inventory(networks=nets, source='verif')

    def get_waveforms(self, network, station, location, channel, starttime,
                      endtime, **kw):
        from obspy import Stream
        return Stream([B.trace(
            network, station, channel, float(starttime) - B.T0,
            np.arange(60, dtype=np.int32), 1./DT, '')])

    def get_stations(self, network=None, station=None, channel='*',
                     starttime=None, endtime=None, level=None, **kw):
        self.asked.append((network, station))
        inv = self.inv.select(network=network, station=station,
                              channel=channel)
        if starttime is not None:
            inv = inv.select(starttime=starttime, endtime=endtime)
        return B.reduced(inv, level)


def run_inv(case, res):
    """the responses of the archive are those that were ever requested"""
    from obspy import read_inventory
    from seismic.trace_data.waveform import Store_Client
    rem = InvRemote()
    known = set()      # (item, epoch) stored
    local = set()      # (item, epoch) with local waveforms
    extra = set()      # known only to a client that is reading only
    with B.Scratch('c19') as d:
        client = Store_Client(rem, d)
        for ii in case['ops']:
            op = INV_OPS[ii]
            res.count(transitions=1)
            n0 = len(rem.asked)
            if op[0] in ('new', 'ro'):
                client = Store_Client(rem, d, read_only=op[0] == 'ro')
                extra = set()
            elif op[0] == 'reload':
                if known:
                    client.read_inventory()
                    extra = set()
            elif op[0] == 'sel':
                inv = client.select_inventory_or_load_remote(*op[1:])
                items = {(j, e) for j, x in enumerate(INV_ITEMS)
                         for e in (0, 1) if x[:2] == op[1:]}
                have = (known | extra) & items
                if have and len(rem.asked) > n0:
                    res.fail('inv-again', f'{case}: {op}')
                if not have:
                    (extra if client.read_only else known).update(items)
                    have = items
                if contents(inv) != have:
                    res.fail('inv-selected', f'{case}: {op} '
                             f'{contents(inv)} {have}')
            else:
                j, e = op[1:]
                a = B.utc((e - 1)*DAY + 7200)
                st = client.get_waveforms(
                    *INV_ITEMS[j][:2], '', INV_ITEMS[j][2], a, a + 59*DT)
                new = (j, e) not in known | extra
                if (j, e) not in local:
                    if not client.read_only:
                        local.add((j, e))
                    if not new and len(rem.asked) > n0:
                        res.fail('inv-again', f'{case}: {op}')
                    if new:
                        (extra if client.read_only else known).add((j, e))
                    new = False
                g = [tr.stats.response.response_stages[0].stage_gain
                     if 'response' in tr.stats else None for tr in st]
                if g != [None if new else 2. + e]:
                    res.fail('inv-attached', f'{case}: {op} {g}')
            if any(a not in {x[:2] for x in INV_ITEMS} for a in rem.asked):
                res.fail('inv-request', f'{case}: {rem.asked}')
            if contents(client.inventory) != known | extra:
                res.fail('inv-memory', f'{case} {op}: '
                         f'{contents(client.inventory)} {known | extra}')
            f = os.path.join(d, 'inventory')
            got = contents(read_inventory(os.path.join(f, '*.xml'))) \
                if os.listdir(f) else set()
            if got != known:
                res.fail('inv-stored', f'{case} {op}: {got} {known}')
                break
            res.state(str(sorted(known)), str(sorted(local)))
        res.nontrivial = bool(known)
        res.see('inv', len(known), len(extra))


def contents(inv):
    out = set()
    for net in inv:
        for sta in net:
            for ch in sta:
                e = int(ch.response.response_stages[0].stage_gain) - 2
                out.add((INV_ITEMS.index((net.code, sta.code, ch.code)), e))
    return out


# ---------------------------------------------------------- file structures
def dt(*a):
    import datetime
    return datetime.datetime(*a)


# descriptor without root, path of the file of a time, step of the files,
# sampling interval, start of the first file, number of files
STRUCT = [
    dict(fs=None, path='{t:%Y}/AB/ST/HHZ.D/AB.ST.00.HHZ.D.{t:%Y}.{t:%j}',
         step='d', dt=7200, t0=(2014, 12, 29), n=5),
    dict(fs=['%Y', '%j', ['%NET', '.', '%STA', '.', '%CHA', '.', '%H']],
         path='{t:%Y}/{t:%j}/AB.ST.HHZ.{t:%H}', step='h', dt=300,
         t0=(2014, 12, 31, 22), n=5),
    dict(fs=['%Y', ['%sta', '_', '%cha', '_', '%m', '.mseed']],
         path='{t:%Y}/st_hhz_{t:%m}.mseed', step='m', dt=43200,
         t0=(2014, 11, 1), n=4),
    dict(fs=['%NET', ['%STA', '.', '%CHA', '.', '%Y']],
         path='AB/ST.HHZ.{t:%Y}', step='y', dt=86400, t0=(2011, 1, 1),
         n=4),
    dict(fs=['%Y', '%m', '%d', ['%STA', '.', '%LOC', '.', '%net']],
         path='{t:%Y}/{t:%m}/{t:%d}/ST.00.ab', step='d', dt=7200,
         t0=(2012, 2, 27), n=5),
    dict(fs=['%y', ["%NET('A','X')", '_', '%j', "%CHA('HHZ','Z')"]],
         path='{t:%y}/XB_{t:%j}Z', step='d', dt=7200,
         t0=(2013, 12, 30), n=4),
    dict(fs=['%Y', '%b', ['%d', '-', '%H', '.', '%STA', '.', '%CHA']],
         path='{t:%Y}/{t:%b}/{t:%d}-{t:%H}.ST.HHZ', step='h', dt=300,
         t0=(2015, 2, 28, 22), n=5),
    dict(fs=['%NET', ['%STA', '.', '%CHA', '.', '%Y', '.', '%j', '.', '%p']],
         path='AB/ST.HHZ.{t:%Y}.{t:%j}.{t:%p}', step='p', dt=3600,
         t0=(2014, 12, 31), n=5),
    dict(fs=['%Y', ['%loc', '_', '%net', '_', '%W', '.HHZ']],
         path='{t:%Y}/00_ab_{t:%W}.HHZ', step='w', dt=21600,
         t0=(2015, 2, 2), n=4),
]


def plus(t, step, k=1):
    import datetime
    if step == 'h':
        return t + datetime.timedelta(hours=k)
    if step in 'pdw':
        return t + datetime.timedelta(
            days=k*{'p': .5, 'd': 1, 'w': 7}[step])
    if step == 'm':
        m = t.year*12 + t.month - 1 + k
        return t.replace(year=m//12, month=m % 12 + 1)
    return t.replace(year=t.year + k)


def files_of(s):
    s = STRUCT[s]
    t = dt(*s['t0'])
    out = []
    for i in range(s['n']):
        out.append((t, plus(t, s['step'])))
        t = out[-1][1]
    return out


def run_fs(case, res):
    from obspy import UTCDateTime, Trace, Stream
    from seismic.trace_data.waveform import FS_Client
    s = STRUCT[case['struct']]
    fl = files_of(case['struct'])
    step = s['dt']
    exp = {}
    with B.Scratch('c19') as d:
        for i in case['files']:
            a, b = [UTCDateTime(x) + case['shift']*step for x in fl[i]]
            n = int(round((b - a)/step))
            k = int(round(float(a)/step)) + np.arange(n)
            dat = (k % 10007).astype(np.int32)
            p = os.path.join(d, s['path'].format(t=fl[i][0]))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            st = Stream()
            # a file has everything that its name does not exclude
            parts = [x for y in s['fs'] or ['%NET%STA%LOC%CHA']
                     for x in ([y] if isinstance(y, str) else y)]
            names = ' '.join(parts).upper()
            ids = [('AB', 'ST', '00', 'HHZ')]
            for c, (k2, v) in enumerate((('%NET', 'AC'), ('%STA', 'STX'),
                                         ('%LOC', '01'), ('%CHA', 'HHN'))):
                if k2 not in names:
                    ids.append(ids[0][:c] + (v,) + ids[0][c+1:])
            if case['shift'] == 1:
                ids.reverse()
            t = float(a) + step*np.arange(n)
            cut = [slice(0, n//3), slice(n//2, n)] if case.get('gap') else [
                slice(0, n)]
            for j, ch in enumerate(ids):
                for c in cut:
                    st.append(Trace(dat[c] + 20000*(
                        ch != ('AB', 'ST', '00', 'HHZ'))*(j + 1), header=dict(
                        network=ch[0], station=ch[1], location=ch[2],
                        channel=ch[3], sampling_rate=1./step,
                        starttime=UTCDateTime(t[c][0]))))
            st.write(p, format='MSEED')
            t = np.concatenate([t[c] for c in cut])
            dat = np.concatenate([dat[c] for c in cut])
            exp.update(zip(np.round(t, 2), dat.astype(float)))
        client = FS_Client(d if s['fs'] is None else [d] + s['fs'])
        marks = [float(UTCDateTime(f[0])) for f in fl] + [
            float(UTCDateTime(fl[-1][1]))]
        length = marks[1] - marks[0]
        grid = sorted({m + x for m in marks for x in (
            (0, length*.37, -2*step) if case['deep'] else (-step, length*.37)
            )} | {marks[0] - .3*length} | (
                {marks[1] + 1.5*step} if abs(case['shift']) > 1 else set()))
        for a, b in itertools.combinations(grid, 2):
            res.count(transitions=1)
            st = client.get_waveforms('AB', 'ST', '00', 'HHZ',
                                      UTCDateTime(a), UTCDateTime(b))
            got = {}
            for tr in st:
                if tr.id != 'AB.ST.00.HHZ':
                    res.fail('fs-id', f'{case}: {tr.id}')
                m = np.ma.getmaskarray(tr.data)
                for i in np.flatnonzero(~m):
                    t = round(float(tr.stats.starttime) + i*step, 2)
                    got[t] = float(np.ma.getdata(tr.data)[i])
            # samples at and next to the limits may be returned in addition
            want = {t: v for t, v in exp.items() if a < t < b}
            got = {t: v for t, v in got.items() if t in want or not (
                a - step/2 <= t <= b + step/2 and exp.get(t) == v)}
            res.nontrivial |= len(want) > 0
            x = diff(got, want)
            if x:
                res.fail(f'fs-{case["struct"]}', f'{case} '
                         f'{UTCDateTime(a)} - {UTCDateTime(b)}: {x}')
                break
        res.see(case['struct'], len(exp))


def run_case(case):
    res = Result()
    with np.errstate(all='ignore'):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            {'hist': run_hist, 'fs': run_fs, 'inv': run_inv}[case['kind']](case, res)
    res.count(traces=1)
    return res
