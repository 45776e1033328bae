"""
Reference model of a correlation run, in plain numpy, written from the
documentation (time domain definition of the cross-correlation).

A channel is (net, sta, cha, [(offset [samples], data), ...]) on the sample
grid of T0.
"""
import numpy as np


def linear_detrend(x):
    t = np.arange(len(x), dtype=float)
    p = np.polyfit(t, x, 1)
    return x - np.polyval(p, t)


def pieces(chan, sr, a, b):
    """samples a..b (inclusive, in samples) as list of (first, data)"""
    out = []
    for off, x in chan[3]:
        lo, hi = max(a, off), min(b, off + len(x) - 1)
        if hi >= lo:
            out.append((lo, np.asarray(x[lo-off:hi-off+1], float)))
    return sorted(out, key=lambda p: p[0])


def preprocess(chan, sr, a, b, corr_len, taper=20., retain=80.):
    """
    dict sample -> value (absent = no data); single missing samples are
    interpolated
    """
    out = {}
    joined = []
    for lo, x in pieces(chan, sr, a, b):
        x = linear_detrend(x) if len(x) > 1 else x*0
        if joined and joined[-1][0] + len(joined[-1][1]) + 1 == lo:
            l0, x0 = joined[-1]
            joined[-1] = l0, np.concatenate((x0, [(x0[-1] + x[0])/2], x))
        else:
            joined.append((lo, x))
    for lo, x in joined:
        if len(x)/sr <= retain:
            continue
        n = round(taper*sr)
        if 2*n <= len(x):
            t = np.sin(np.linspace(0, np.pi, 2*n))
            x[:n] *= t[:n]
            x[-n:] *= t[-n:]
        for i, v in enumerate(x):
            out[lo + i] = v
    return out


def window(data, a, b):
    """samples a..b inclusive, None if nothing there"""
    if not any(i in data for i in range(a, b+1)):
        return None
    return np.array([data.get(i, 0.) for i in range(a, b+1)])


def xcorr(x, y, L, norm=True):
    """sum_t x(t) y(t+lag), lag=-L..L"""
    n = len(x)
    c = np.zeros(2*L + 1)
    for k in range(-L, L+1):
        if k >= 0:
            c[k+L] = np.dot(x[:n-k], y[k:]) if k < n else 0
        else:
            c[k+L] = np.dot(x[-k:], y[:n+k]) if -k < n else 0
    if norm:
        e = np.sqrt(np.dot(x, x)*np.dot(y, y))
        c = c/e if e > 0 else c*np.nan
    return c


def select_pairs(ids, method):
    """Unordered (or identical) index pairs (i<=j in sorted order)"""
    out = []
    for i in range(len(ids)):
        for j in range(i, len(ids)):
            (n0, s0, c0), (n1, s1, c1) = ids[i][:3], ids[j][:3]
            same = (n0, s0) == (n1, s1)
            if method == 'betweenStations':
                ok = not same
            elif method == 'betweenComponents':
                ok = same and c0[-1] != c1[-1]
            elif method == 'autoComponents':
                ok = i == j
            else:
                ok = True
            if ok:
                out.append((i, j))
    return out


def run(chans, sr, start, end, read_len, read_inc, corr_len, corr_inc,
        method, length, normalize=True):
    """
    Expected content: {(tag, net, sta, cha, start, end): array} with times in
    seconds after T0 (start, end in seconds).
    """
    out = {}
    chans = sorted(chans, key=lambda c: c[:3])
    L = int(np.ceil(length*sr))
    t = start
    while t < end:
        a, b = int(round(t*sr)), int(round((t+read_len)*sr))
        data = [preprocess(c, sr, a, b, corr_len) for c in chans]
        for i, c in enumerate(data):
            if len(c) and (max(c)-min(c)+1)/sr <= corr_len/20:
                data[i] = {}
        stacks = {}
        for k in range(int(np.ceil(read_len/corr_inc))):
            w0 = t + k*corr_inc
            wa = int(round(w0*sr))
            wb = wa + int(round(corr_len*sr)) - 1
            wins = [window(d, wa, wb) for d in data]
            idx = [i for i, w in enumerate(wins) if w is not None]
            for p, q in select_pairs([chans[i] for i in idx], method):
                i, j = idx[p], idx[q]
                n, s, c = ['-'.join(z) for z in zip(
                    chans[i][:3], chans[j][:3])]
                v = xcorr(wins[i], wins[j], L, normalize)
                out.setdefault(
                    ('subdivision', n, s, c, round(w0, 4),
                     round(w0+corr_len, 4)), v)
                stacks.setdefault((n, s, c), []).append((w0, v))
        for (n, s, c), li in stacks.items():
            A = np.array([v for _, v in li])
            m = np.nanmean(A, axis=0)
            m = m/np.nanmax(np.abs(m))
            out.setdefault(
                (f'stack_{read_len}', n, s, c, round(li[0][0], 4),
                 round(li[-1][0]+corr_len, 4)), m)
        t += read_inc
    return out


def read_real(corr_dir):
    """The same structure from the databases, plus headers"""
    from mc.build import dump_db, T0
    from obspy import UTCDateTime
    out, hdr = {}, {}
    for (fn, path), (at, _, x) in dump_db(corr_dir).items():
        if path == 'co':
            continue
        tag, n, s, c, st, et = path.split('/')
        if fn not in (f'{n}.{s}.h5', f'{n}.{s}.{c}.h5'):
            # in the file of another pair, where nobody looks for it
            tag = f'misplaced in {fn}: {tag}'
        key = (tag, n, s, c, round(UTCDateTime(st).timestamp - T0, 4),
               round(UTCDateTime(et).timestamp - T0, 4))
        out[key] = x
        hdr[key] = at
        hdr[key]['_file'] = fn
    return out, hdr


def compare(exp, got, hdr, sr, length, tol=2e-4, stacktol=1e-3):
    """list of (key, message)"""
    bad = []
    L = int(np.ceil(length*sr))
    miss = sorted(set(exp) - set(got))
    more = sorted(set(got) - set(exp))
    if miss:
        bad.append(('missing', f'{len(miss)} entries missing, e.g. '
                    f'{miss[:3]}; unexpected {more[:2]}'))
    if more:
        bad.append(('unexpected', f'{len(more)} unexpected entries, e.g. '
                    f'{more[:3]}'))
    for k in sorted(set(exp) & set(got)):
        e, g = exp[k], got[k]
        h = hdr[k]
        if e.shape != g.shape:
            bad.append(('length', f'{k}: {g.shape} instead of {e.shape}'))
            continue
        if not np.allclose(h['start_lag'], -L/sr, atol=1e-4):
            bad.append(('lag', f'{k}: start_lag {h["start_lag"]}, expected '
                        f'{-L/sr}'))
        if not np.allclose(h['sampling_rate'], sr):
            bad.append(('rate', f'{k}: sampling rate {h["sampling_rate"]}'))
        if np.any(np.isnan(e)):
            continue
        t = stacktol if k[0].startswith('stack') else tol
        scale = max(1., np.max(np.abs(e)))
        d = np.max(np.abs(e - g))/scale
        if not d <= t:
            i = int(np.argmax(np.abs(e)))
            j = int(np.argmax(np.abs(g)))
            bad.append(('value-' + k[0].split('_')[0],
                        f'{k}: differs by {d:.3g}; peak at lag {(i-L)/sr} '
                        f'expected, {(j-L)/sr} found, values {e[i]:.4g} '
                        f'{g[j]:.4g}'))
    return bad
