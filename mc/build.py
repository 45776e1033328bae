"""Synthetic projects (raw archive, inventory, options) in scratch folders."""
import os
import shutil
import tempfile
import warnings

import numpy as np

SCRATCH = '/tmp'


def scratch(prefix='mc'):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else SCRATCH
    return tempfile.mkdtemp(prefix=f'verif_{prefix}_', dir=base)


class Scratch(object):
    def __init__(self, prefix='mc'):
        self.prefix = prefix

    def __enter__(self):
        self.d = scratch(self.prefix)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


T0 = 1420070400.0   # 2015-01-01T00:00:00


def utc(x=0.):
    from obspy import UTCDateTime
    return UTCDateTime(T0 + x)


def noise(seed, n):
    """Deterministic band-limited integer noise"""
    r = np.random.RandomState(seed)
    x = r.randint(-1000, 1000, n)
    return x.astype(np.int32)


class NoRemote(object):
    """Remote client stand-in: there is no network."""
    def get_waveforms(self, *a, **k):
        raise AssertionError('remote waveforms requested')

    def get_stations(self, *a, **k):
        raise AssertionError('remote stations requested')


def reduced(inv, level):
    """what a service returns for this level of detail"""
    from copy import deepcopy
    inv = deepcopy(inv)
    for sta in (s for n in inv for s in n):
        if level not in ('channel', 'response'):
            sta.channels = []
        elif level == 'channel':
            for c in sta:
                c.response = None
    return inv


def trace(net, sta, cha, start, data, sr, loc='00'):
    from obspy import Trace
    return Trace(data=data, header=dict(
        network=net, station=sta, channel=cha, location=loc,
        sampling_rate=sr, starttime=utc(start)))


def write_sds(root, tr):
    """Write a trace to SDS with obspy only (independent of SeisMIC)"""
    from obspy import UTCDateTime, read, Stream
    day = UTCDateTime(tr.stats.starttime.year, tr.stats.starttime.month,
                      tr.stats.starttime.day)
    while day <= tr.stats.endtime:
        part = tr.slice(day, day + 86400 - tr.stats.delta/2,
                        nearest_sample=False)
        if part is not None and part.stats.npts:
            s = part.stats
            d = os.path.join(root, 'mseed', str(day.year), s.network,
                             s.station, f'{s.channel}.D')
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, '%s.%s.%s.%s.D.%d.%03d' % (
                s.network, s.station, s.location, s.channel, day.year,
                day.julday))
            st = Stream([part])
            if os.path.exists(fn):
                st = read(fn) + st
            st.write(fn, format='MSEED')
        day += 86400


def inventory(stations, dip=-90.):
    """stations: list of (net, sta, lat, lon)"""
    from obspy.core.inventory import (
        Inventory, Network, Station, Channel, Site)
    nets = {}
    for n, s, lat, lon in stations:
        chans = [Channel(
            code=c, location_code='00', latitude=lat, longitude=lon,
            elevation=100. + lat, depth=0., azimuth=0., dip=dip,
            sample_rate=2.) for c in ('HHZ', 'HHN', 'HHE')]
        nets.setdefault(n, []).append(Station(
            code=s, latitude=lat, longitude=lon, elevation=100. + lat,
            channels=chans, site=Site(name=s)))
    return Inventory(
        networks=[Network(code=n, stations=v) for n, v in nets.items()],
        source='verif')


def write_inventory(root, stations, dip=-90.):
    d = os.path.join(root, 'inventory')
    os.makedirs(d, exist_ok=True)
    for n, s, lat, lon in stations:
        inventory([(n, s, lat, lon)], dip).write(
            os.path.join(d, f'{n}.{s}.xml'), format='STATIONXML')


def options(proj, nets, stas, start, end, read_len=400, read_inc=400,
            corr_len=100, corr_inc=100, sr=2, comp='?',
            method='betweenStations', length=10, **kw):
    co = {
        'subdir': 'corr',
        'read_start': str(utc(start)), 'read_end': str(utc(end)),
        'read_len': read_len, 'read_inc': read_inc,
        'combination_method': method,
        'sampling_rate': sr,
        'remove_response': False,
        'preprocess_subdiv': False,
        'preProcessing': [],
        'subdivision': {
            'corr_inc': corr_inc, 'corr_len': corr_len,
            'recombine_subdivision': True, 'delete_subdivision': False},
        'corr_args': {
            'TDpreProcessing': [], 'FDpreProcessing': [],
            'lengthToSave': length, 'center_correlation': True,
            'normalize_correlation': True},
    }
    for k, v in kw.items():
        if k in ('recombine_subdivision', 'delete_subdivision'):
            co['subdivision'][k] = v
        elif k in co['corr_args']:
            co['corr_args'][k] = v
        elif k == 'save_comps_separately':
            pass
        else:
            co[k] = v
    return {
        'proj_dir': proj, 'log_subdir': 'log', 'log_level': 'ERROR',
        'save_comps_separately': kw.get('save_comps_separately', False),
        'net': {'network': nets, 'station': stas, 'component': comp},
        'co': co}


def quiet():
    import logging
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)


def dump_db(corr_dir):
    """
    Everything stored in the correlation databases of a folder, read with
    plain h5py: {(file, path): (attrs, data bytes)} .
    """
    import h5py
    out = {}
    if not os.path.isdir(corr_dir):
        return out
    for fn in sorted(os.listdir(corr_dir)):
        if not fn.endswith('.h5'):
            continue
        with h5py.File(os.path.join(corr_dir, fn), 'r') as f:
            def visit(name, obj):
                at = {k: (v.tolist() if hasattr(v, 'tolist') else v)
                      for k, v in obj.attrs.items()}
                if isinstance(obj, h5py.Dataset):
                    out[(fn, name)] = (
                        at, obj.shape, np.asarray(obj[()]))
            f.visititems(visit)
    return out


def close_db(a, b, tol=2e-5, ignore=('processing',)):
    """Compare two dumps; list of differences"""
    diff = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            diff.append(f'{k} only in second')
        elif k not in b:
            diff.append(f'{k} only in first')
        else:
            (x, sx, dx), (y, sy, dy) = a[k], b[k]
            if sx != sy:
                diff.append(f'{k} shapes {sx} {sy}')
                continue
            for q in sorted((set(x) | set(y)) - set(ignore)):
                vx, vy = x.get(q), y.get(q)
                if vx != vy:
                    try:
                        if np.allclose(vx, vy, rtol=1e-6, atol=1e-6,
                                       equal_nan=True):
                            continue
                    except TypeError:
                        pass
                    diff.append(f'{k} attr {q}: {vx!r} != {vy!r}')
            if dx.dtype.kind in 'fc':
                ok = np.allclose(dx, dy, rtol=tol, atol=tol, equal_nan=True)
            else:
                ok = np.array_equal(dx, dy)
            if not ok:
                diff.append(f'{k} data differ by '
                            f'{np.nanmax(np.abs(dx - dy))}')
    return diff


def run_corr(d, opts, client=None):
    """Run the real Correlator in this process and clean up its loggers"""
    import copy
    import logging
    from seismic.correlate.correlate import Correlator
    from seismic.trace_data.waveform import Store_Client
    sc = client or Store_Client(NoRemote(), d)
    try:
        c = Correlator(sc, copy.deepcopy(opts))
        c.pxcorr()
        return c
    finally:
        for lg in [logging.getLogger('py.warnings')] + [
                logging.getLogger(n) for n in list(
                    logging.root.manager.loggerDict)
                if n.startswith('seismic')]:
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()


def union_db(*dumps):
    out = {}
    for x in dumps:
        out.update(x)
    return out


def no_tqdm():
    """keep progress bars off the terminal"""
    import tqdm
    import functools
    tqdm.tqdm.__init__ = functools.partialmethod(
        tqdm.tqdm.__init__, disable=True)
