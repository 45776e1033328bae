"""
One canonical identity per pair; sign of the lag; header follows the data.
"""
import itertools
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B, corrmodel as M      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    '(a) all pairs of SEED codes from an alphabet with codes that are prefixes '
    'of each other, both argument orders x lag axes, through the trace '
    'constructor; (b) the same pairs x delay x sub-sample time offset x '
    'centering through complete runs on raw data. Model: pair sorted by '
    '(network, station, channel); a positive lag means later at the second '
    'station. Non-trivial: the two codes differ.')
ASSUMPTIONS = ['smooth pulses, 4 Hz; peak position to 0.2 samples']
CHUNK = 8
NETS = ['A', 'AB', 'B']
STAS = ['1', '10', 'B1', 'AB']
CHAS = ['HHZ', 'HHE', 'BHZ']


def codes():
    return list(itertools.product(NETS, STAS, CHAS))


def cases(tier):
    cs = codes()
    out = []
    for a in cs:
        out.append(dict(kind='api', a=a))
    sel = [('A', '1', 'HHZ'), ('A', '10', 'HHE'), ('AB', '1', 'HHZ'),
           ('A', 'B1', 'HHZ'), ('B', 'AB', 'BHZ')]
    if tier == 'thorough':
        sel = [c for c in cs if c[2] != 'BHZ']
    for a, b in itertools.permutations(sel, 2):
        if (a[0], a[1]) == (b[0], b[1]):
            continue
        for delay, off, cen in [(2., 0, True), (-1.3, 0, True),
                                (1.5, .1, True), (-2.25, -.1, True),
                                (.6, .1, False), (0, .12, True)]:
            if tier == 'quick' and (off or delay == 0) and a[0] == b[0]:
                continue
            out.append(dict(kind='run', a=a, b=b, delay=delay, off=off,
                            cen=cen))
    return out


def pos(code):
    """coordinates of a station as a function of its code"""
    k = sum(ord(x)*(i+1) for i, x in enumerate(code[0] + '/' + code[1]))
    return 40 + (k % 97)/50., 10 + (k % 89)/50., 10. + k % 13


def api(case, res):
    from obspy.core import Stats
    from obspy.geodetics import gps2dist_azimuth
    from seismic.correlate.stream import CorrTrace
    a = tuple(case['a'])
    for b in codes():
        for n, sr, start in [(11, 10., -.5), (9, 2., -1.), (12, 4., 0.),
                             (10, 5., 1.)]:
            data = np.arange(n, dtype=float)
            end = start + (n-1)/sr
            hs = []
            for i, c in enumerate((a, b)):
                la, lo, el = pos(c)
                hs.append(Stats(dict(
                    network=c[0], station=c[1], channel=c[2],
                    location='0%d' % i, sampling_rate=sr, npts=100,
                    starttime=B.utc(i*.1), stla=la, stlo=lo, stel=el)))
            tr = CorrTrace(data.copy(), header1=hs[0].copy(),
                           header2=hs[1].copy(), start_lag=start,
                           end_lag=end)
            flip = b < a
            o = [1, 0] if flip else [0, 1]
            c0, c1 = [(a, b)[i] for i in o]
            st = tr.stats
            want = [f'{x}-{y}' for x, y in zip(c0, c1)]
            res.expect([st.network, st.station, st.channel] == want,
                       'identity', f'{a} {b}: {st.network}.{st.station}.'
                       f'{st.channel} instead of {want}')
            if a != b:
                res.expect(st.location == '0%d-0%d' % tuple(o), 'location',
                           f'{a} {b}: location {st.location}')
            lags = start + np.arange(n)/sr
            if flip:
                lags = -lags[::-1]
                data = data[::-1]
            res.expect(np.array_equal(tr.data, data), 'data',
                       f'{a} {b}: data {tr.data}, expected {data}')
            res.expect(np.allclose(tr.times(), lags), 'lags',
                       f'{a} {b}: lags {tr.times()} instead of {lags}')
            res.expect(np.isclose(st.end_lag, lags[-1]), 'end_lag',
                       f'{a} {b} end_lag {st.end_lag}')
            p0, p1 = pos(c0), pos(c1)
            res.expect(np.allclose(
                [st.stla, st.stlo, st.stel, st.evla, st.evlo, st.evel],
                p0 + p1), 'coordinates', f'{a} {b}: {st}')
            d, az, baz = gps2dist_azimuth(p0[0], p0[1], p1[0], p1[1])
            res.expect(np.allclose([st.dist, st.az, st.baz],
                                   [d/1000, az, baz], atol=1e-6), 'azimuth',
                       f'{a} {b}: {st.dist} {st.az} {st.baz} instead of '
                       f'{d/1000} {az} {baz}')
            res.expect(st.corr_start == max(h.starttime for h in hs)
                       and st.corr_end == min(h.endtime for h in hs),
                       'times', f'{a} {b}: {st.corr_start} {st.corr_end}')
            res.count(transitions=1)
            res.state(want, n)
    res.count(traces=1)


def run(case, res):
    from obspy.geodetics import gps2dist_azimuth
    a, b = tuple(case['a']), tuple(case['b'])
    sr, T, L = 4., 120, 5
    t = np.arange(-20*sr, (T+20)*sr)/sr
    r = np.random.RandomState(3)
    centres = r.uniform(25, T-25, 12)
    amps = r.uniform(.5, 1.5, 12)*r.choice([-1, 1], 12)

    def sig(t):
        return sum(A*np.exp(-((t-c)/.7)**2) for A, c in zip(amps, centres))
    with B.Scratch('c05') as d:
        stats = sorted({a[:2], b[:2]})
        B.write_inventory(d, [s + pos(s)[:2] for s in stats])
        for c, delay, off in ((a, 0, 0), (b, case['delay'], case['off'])):
            x = (1e5*sig(t + off - delay)).astype(np.int32)
            B.write_sds(d, B.trace(*c, t[0] + off, x, sr))
        o = B.options(
            d, '*', '*', 0, T, read_len=T, read_inc=T, corr_len=T,
            corr_inc=T, sr=sr, length=L,
            center_correlation=case['cen'])
        B.run_corr(d, o)
        got, hdr = M.read_real(d + '/corr')
    c0, c1 = sorted((a, b))
    want = ['-'.join(z) for z in zip(c0, c1)]
    got = {k: v for k, v in got.items() if k[0] == 'subdivision'}
    if not res.expect(
            [list(k[1:4]) for k in got] == [want], 'identity',
            f'{a} {b}: {sorted(got)}'):
        return
    k = list(got)[0]
    x, h = got[k], hdr[k]
    lag = case['delay'] if c0 == a else -case['delay']
    i = int(np.argmax(x))
    if not res.expect(0 < i < len(x)-1, 'peak', f'peak at the edge {x}'):
        return
    y0, y1, y2 = x[i-1:i+2]
    pk = h['start_lag'] + (i + .5*(y0-y2)/(y0-2*y1+y2))/sr
    res.expect(abs(pk - lag) < .2/sr, 'peak',
               f'{a} {b} delay of the second station {lag} s, correlation '
               f'peaks at {pk:.3f} s')
    res.expect(.8 < y1 <= 1.001, 'amplitude', f'peak amplitude {y1}')
    res.expect(h['_file'] == f'{want[0]}.{want[1]}.h5', 'file', h['_file'])
    p0, p1 = pos(c0), pos(c1)
    dd, az, baz = gps2dist_azimuth(p0[0], p0[1], p1[0], p1[1])
    res.expect(np.allclose(
        [h['stla'], h['stlo'], h['evla'], h['evlo'], h['dist'], h['az'],
         h['baz']], [*p0[:2], *p1[:2], dd/1000, az, baz], atol=1e-5),
        'coordinates', f'{h}')
    res.count(traces=1, transitions=1)
    res.state(want, case['delay'])


def run_case(case):
    res = Result()
    if case['kind'] == 'api':
        api(case, res)
    else:
        run(case, res)
    res.see(case)
    res.sample = case
    return res
