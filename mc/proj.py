"""Correlation databases with known wavefields and the Monitor on them."""
import copy
import logging
import os

import numpy as np

from . import build as B

# centre time, amplitude of the wavelets of the reference wavefield
WAV = [(-8.6, .8), (-7.1, -1.), (-5.2, 1.), (-4.1, -.7), (-3., .9),
       (-1.6, -.6), (.4, 1.1), (1.7, .8), (2.9, -1.), (4.4, .9), (5.6, .7),
       (7.2, 1.), (8.4, -.6)]
GRID = np.linspace(-.06, .06, 7)
SR = 4.


def wave(t):
    t = np.asarray(t, dtype=float)
    out = np.zeros_like(t)
    for c, a in WAV:
        x = (t - c)*np.pi*.42
        out += a*(1 - 2*x**2)*np.exp(-x**2)
    return out


def lagtimes(maxlag=12.):
    return np.arange(-int(maxlag*SR), int(maxlag*SR) + 1)/SR


def corr_trace(net, sta, cha, start, end, data, maxlag=12., dist=None,
               loc='00-00', coords=None):
    from seismic.correlate.stats import CorrStats
    from seismic.correlate.stream import CorrTrace
    s = CorrStats(dict(
        network=net, station=sta, channel=cha, location=loc,
        sampling_rate=SR, start_lag=-maxlag, npts=len(data),
        _format='hdf5'))
    s['corr_start'] = B.utc(start)
    s['corr_end'] = B.utc(end)
    if coords or dist is not None:
        c = dict(stla=0., stlo=0., stel=0., evla=0., evlo=0., evel=0.,
                 az=0., baz=0., dist=dist or 0.)
        c.update(coords or {})
        for k, v in c.items():
            s[k] = v
    return CorrTrace(np.asarray(data, dtype=float), _header=s)


def write_db(path, traces, maxlag=12., tag='subdivision'):
    from seismic.correlate.stream import CorrStream
    from seismic.db.corr_hdf5 import CorrelationDataBase
    os.makedirs(os.path.dirname(path), exist_ok=True)
    co = B.options('/x', 'A', 'B', 0, 1)['co']
    co['corr_args']['lengthToSave'] = maxlag
    with CorrelationDataBase(path, corr_options=co) as db:
        db.add_correlation(CorrStream(traces), tag=tag)


def dv_options(proj, start, end, inc, win_len, **kw):
    o = B.options(proj, '*', '*', 0, 1)
    o['fig_subdir'] = 'fig'
    o['dv'] = dict(
        subdir='dv', plot_vel_change=False, start_date=str(B.utc(start)),
        end_date=str(B.utc(end)), win_len=win_len, date_inc=inc,
        freq_min=.05, freq_max=1.6, tw_start=0, tw_len=8, sides='both',
        compute_tt=False, rayleigh_wave_velocity=1, stretch_range=.06,
        stretch_steps=len(GRID), return_sim_mat=True,
        dt_ref=dict(win_inc=0, method='mean', percentile=50),
        preprocessing=[], postprocessing=[])
    for k, v in kw.items():
        if k in o['dv']:
            o['dv'][k] = v
        else:
            o[k] = v
    return o


def drop_handlers():
    for lg in [logging.getLogger('py.warnings')] + [
            logging.getLogger(n) for n in list(logging.root.manager.loggerDict)
            if n.startswith('seismic')]:
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()


class MonitorProject(object):
    """with MonitorProject(options) as monitor: ..."""
    def __init__(self, options):
        self.options = copy.deepcopy(options)

    def __enter__(self):
        from seismic.monitor.monitor import Monitor
        self.m = Monitor(self.options)
        return self.m

    def __exit__(self, *a):
        drop_handlers()
