"""
Headers of correlations: derived entries follow, read-only ones are refused,
coordinates belong to their station.
"""
import copy
import itertools
import pickle
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    '(a) closure of the states of a correlation header under all assignments '
    '(by item, attribute, and update) from an alphabet of keys and values, '
    'copies and serialisation; every state is compared with a model in which '
    'delta, end_lag, starttime, and endtime are functions of the rest. (b) '
    'the same for trace objects whose data are replaced. (c) product of '
    'sources of coordinates for the two traces x inventories x order of the '
    'codes. Non-trivial: at least one derived entry changes.')
ASSUMPTIONS = []
CHUNK = 2

VALUES = {
    'sampling_rate': [1., 4, 0.5],
    'delta': [2, .012, 0],
    'npts': [0, 1, 11],
    'start_lag': [0, -2.5, 3],
    'corr_start': [0, 100],
    'corr_end': [0, 3600.5],
    'channel': ['HHZ-EHN', 'BHE-BHE'],
    'component': ['1-R'],
    'network': ['A-B'],
    'location': ['00-10'],
    'stla': [1.5],
}
RO = ['endtime', 'end_lag', 'starttime']
HOW = ['item', 'attr', 'update']
COPY = ['copy', 'deepcopy', 'pickle', 'header']


def model_set(m, k, v):
    m = dict(m)
    if k == 'delta':
        m['sampling_rate'] = 1/v if v else 0.
    elif k == 'component':
        a, b = m['channel'].split('-')
        m['channel'] = a[:-1] + v[0] + '-' + b[:-1] + v[2]
    else:
        m[k] = v
    return m


def real(k, v):
    if (k, v) == ('npts', 11):
        return np.int64(v)
    return B.utc(v) if k in ('corr_start', 'corr_end') else v


def observe(s):
    o = {}
    for k in s:
        o[k] = s[k]
    for k in ('delta', 'end_lag', 'starttime', 'endtime'):
        o[k] = s[k]
    o['id'] = s['id']
    return o


def differs(s, m):
    o = observe(s)
    e = dict(m)
    # no rate, no interval
    e['delta'] = 1/m['sampling_rate'] if m['sampling_rate'] else 0
    e['end_lag'] = m['start_lag'] + max(m['npts'] - 1, 0)*e['delta']
    e['starttime'], e['endtime'] = m['corr_start'], m['corr_end']
    e['id'] = f'{m["network"]}.{m["station"]}.{m["channel"]}'
    for k, v in e.items():
        if k not in o:
            return f'{k} missing'
        x = o[k]
        if k in ('corr_start', 'corr_end', 'starttime', 'endtime'):
            x = x.timestamp - B.T0
        if isinstance(v, (float, int)):
            ok = abs(x - v) < 1e-9
        else:
            ok = x == v
        if not ok:
            return f'{k} is {x} instead of {v}'
        if getattr(s, k, o[k]) != o[k] and k != 'id':
            return f'{k}: item {o[k]}, attribute {getattr(s, k)}'
    if type(o['npts']) is not int:
        return f'npts is a {type(o["npts"])}'
    a, b = m['channel'].split('-')
    if s['component'] != a[-1] + '-' + b[-1]:
        return f'component {s["component"]} of {m["channel"]}'
    if set(o) - set(e) - {'calib', 'component'}:
        return f'additional entries {set(o) - set(e)}'
    return None


def assign(s, how, k, v):
    if how == 'item':
        s[k] = v
    elif how == 'attr':
        setattr(s, k, v)
    else:
        s.update({k: v})


def header_cases(tier):
    keys = ['sampling_rate', 'delta', 'npts', 'start_lag', 'corr_start',
            'corr_end', 'channel', 'component', 'network', 'location', 'stla']
    out = []
    # sub-alphabets; together all pairs (thorough: triples) of the rest are
    # covered with the linked keys
    base = ['sampling_rate', 'delta', 'npts', 'start_lag']
    rest = [k for k in keys if k not in base]
    n = 2 if tier == 'quick' else 4
    for sub in itertools.combinations(rest, n):
        for init in ('empty', 'dict', 'trace'):
            out.append(dict(kind='header', keys=base + list(sub), init=init))
    return out


COORD = ['stats', 'partial', 'sac', 'sacpartial', 'none']
INVS = ['both', 'first', 'none', 'wild']


def cases(tier):
    out = header_cases(tier)
    for a in COORD:
        out.append(dict(kind='coord', a=a))
    out.append(dict(kind='trace', depth=3 if tier == 'quick' else 5))
    return out


def initial(kind):
    from seismic.correlate.stats import CorrStats
    from seismic.correlate.stream import CorrTrace
    m = dict(sampling_rate=1., npts=0, start_lag=0., corr_start=0.,
             corr_end=0., network='A-A', station='S-T', location='-',
             channel='HHZ-HHZ')
    if kind == 'empty':
        s = CorrStats()
        for k in ('network', 'station', 'location', 'channel'):
            s[k] = m[k]
        s['corr_start'] = s['corr_end'] = B.utc(0)
    elif kind == 'dict':
        m.update(sampling_rate=5., npts=7, start_lag=-.6, corr_end=50.)
        # derived entries in any order must not matter
        s = CorrStats({k: real(k, v) for k, v in sorted(m.items())[::-1]})
    else:
        m.update(sampling_rate=2., npts=4, start_lag=-1., corr_end=60.)
        s = CorrTrace(np.arange(4.), _header={
            k: real(k, v) for k, v in m.items() if k != 'npts'}).stats
    return s, m


def run_header(case, res):
    s, m = initial(case['init'])
    seen = {}

    def key(m):
        return tuple(sorted((k, str(v)) for k, v in m.items()))
    todo = [(s, m)]
    x = differs(s, m)
    if x:
        res.fail('initial', f'{case["init"]}: {x}')
        return
    seen[key(m)] = 1
    alphabet = [(k, v) for k in case['keys'] for v in VALUES[k]]
    while todo:
        s, m = todo.pop()
        for (k, v), how in itertools.product(alphabet, HOW):
            t = copy.deepcopy(s)
            assign(t, how, k, real(k, v))
            n = model_set(m, k, v)
            res.count(transitions=1)
            x = differs(t, n)
            if x:
                res.fail(f'set-{k}', f'{m}, {how} {k}={v}: {x}')
                return
            if key(n) not in seen:
                seen[key(n)] = 1
                todo.append((t, n))
        x = differs(s, m)
        if x:
            res.fail('copy', f'changing a copy changed the original: {x}')
            return
        for k, how in itertools.product(RO, HOW[:2]):
            try:
                assign(s, how, k, real('corr_start', 5.)
                       if k != 'end_lag' else 5.)
                res.fail('readonly', f'{k} can be set by {how}')
                return
            except AttributeError:
                pass
            x = differs(s, m)
            if x:
                res.fail('readonly', f'setting {k} failed, but: {x}')
                return
        for how in COPY:
            from seismic.correlate.stats import CorrStats
            t = s.copy() if how == 'copy' else copy.deepcopy(s) \
                if how == 'deepcopy' else pickle.loads(pickle.dumps(s)) \
                if how == 'pickle' else CorrStats(s)
            x = differs(t, m)
            if x:
                res.fail('copies', f'{how} of {m}: {x}')
                return
        res.count(traces=1)
    for k in seen:
        res.state(k)
    res.see(case['init'], len(seen))
    res.nontrivial = True
    res.sample = dict(case, states=len(seen))


def run_trace(case, res):
    """Sequences of changes of a trace; number of samples follow the data"""
    from seismic.correlate.stream import CorrTrace, CorrStream
    m0 = dict(sampling_rate=2., start_lag=-1., corr_start=0.,
              corr_end=60., network='A-A', station='S-T', location='-',
              channel='HHZ-HHZ')

    def data(n):
        return lambda t, m: (setattr(t, 'data', np.arange(float(n)) + n) or t,
                             dict(m, npts=n, val=n))

    def setk(k, v):
        def f(t, m):
            t.stats[k] = real(k, v)
            return t, model_set(m, k, v)
        return f
    O = {'d0': data(0), 'd1': data(1), 'd9': data(9),
         'copy': lambda t, m: (t.copy(), m),
         'pickle': lambda t, m: (pickle.loads(pickle.dumps(t)), m),
         'stream': lambda t, m: (CorrStream([t]).copy()[0], m),
         'select': lambda t, m: (CorrStream([t]).select(
             network='A-A')[0], m),
         'rebuild': lambda t, m: (CorrTrace(t.data, _header=t.stats), m),
         'delta': setk('delta', .25), 'lag': setk('start_lag', 3),
         'end': setk('corr_end', 70.)}

    def go(t, m, path, depth):
        x = differs(t.stats, {k: v for k, v in m.items() if k != 'val'})
        if not x and len(t.data) != m['npts']:
            x = f'{len(t.data)} samples instead of {m["npts"]}'
        if not x and len(t.data) and not np.allclose(
                t.data, np.arange(m['npts']) + m['val']):
            x = f'data {t.data}'
        if not x and len(t.data):
            lag = t.times()
            e = m['start_lag'] + np.arange(m['npts'])/m['sampling_rate']
            if len(lag) != len(e) or not np.allclose(lag, e):
                x = f'times {lag} instead of {e}'
        if x:
            res.fail('trace-' + path[-1], f'{path}: {x}')
            return
        res.state(m)
        if len(path) > depth:
            res.count(traces=1)
            return
        for n, f in O.items():
            u, k = f(t.copy(), m)
            res.count(transitions=1)
            go(u, k, path + [n], depth)
    go(CorrTrace(np.arange(4.) + 4, _header={
        k: real(k, v) for k, v in m0.items()}), dict(m0, npts=4, val=4),
       ['start'], case['depth'])
    res.nontrivial = True
    res.sample = dict(case)


POS = {'A': (10., 20., 100.), 'B': (10.5, 20.2, 300.)}


def run_coord(case, res):
    from obspy.core import Stats, AttribDict
    from obspy.geodetics import gps2dist_azimuth
    from obspy import Inventory
    from obspy.core.inventory import Network, Station
    from seismic.correlate.stream import CorrTrace

    def stats(code, src, t):
        s = Stats(dict(network=code, station='S' + code, channel='HHZ',
                       npts=10, starttime=B.utc(t)))
        la, lo, el = POS[code]
        if src == 'stats':
            s.update(dict(stla=la, stlo=lo, stel=el))
        elif src == 'partial':
            s.update(dict(stla=la, stel=el))
        elif src == 'sac':
            s['sac'] = AttribDict(stla=la, stlo=lo, stel=el)
        elif src == 'sacpartial':
            s['sac'] = AttribDict(stla=la, stlo=lo)
        return s

    def inventory(kind):
        if kind == 'none':
            return None
        nets = []
        if kind == 'wild':
            # another station of the network and codes that start alike
            nets = [Network('A', [Station('SAX', 1., 2., 3.)]),
                    Network('AA', [Station('SA', 4., 5., 6.)]),
                    Network('B', [Station('S', 7., 8., 9.)])]
        for c in POS:
            if kind == 'first' and c == 'B':
                continue
            nets.append(Network(c, [Station('S' + c, *POS[c])]))
        return Inventory(nets)
    n = 0
    for b, inv, order in itertools.product(COORD, INVS, 'AB'):
        sa, sb = stats('A', case['a'], 0), stats('B', b, 0)
        h = (sa, sb) if order == 'A' else (sb, sa)
        t = CorrTrace(np.arange(5.), *h, inv=inventory(inv), start_lag=-2,
                      end_lag=2).stats
        name = f'{case["a"]}/{b}, inventory {inv}, first {order}'
        pre = {x for x in ((case['a'], b))}
        known = inv in ('both', 'wild') or pre in ({'stats'}, {'sac'})
        keys = ['stla', 'stlo', 'stel', 'evla', 'evlo', 'evel', 'dist', 'az',
                'baz']
        has = [k for k in keys if k in t]
        res.count(transitions=1)
        if known and len(has) < len(keys):
            res.fail('missing', f'{name}: only {has}')
        elif has:
            d, az, baz = gps2dist_azimuth(*POS['A'][:2], *POS['B'][:2])
            e = list(POS['A'] + POS['B']) + [d/1000, az, baz]
            # entries that are there belong to the right station
            for k, x in zip(keys, e):
                if k in t and abs(t[k] - x) > 1e-6:
                    res.fail('wrong', f'{name}: {k} {t[k]} instead of {x}')
        if (t.network, t.station, t.channel) != ('A-B', 'SA-SB', 'HHZ-HHZ'):
            res.fail('codes', f'{name}: {t.id}')
        res.state(case['a'], b, inv, order)
        n += 1
        res.count(traces=1)
    res.nontrivial = True
    res.sample = dict(case, combinations=n)


def run_case(case):
    res = Result()
    import warnings
    warnings.filterwarnings('ignore')
    {'header': run_header, 'trace': run_trace, 'coord': run_coord}[
        case['kind']](case, res)
    return res
