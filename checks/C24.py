"""
A configuration has one meaning, however it is given and reused.
"""
import copy
import glob
import itertools
import json
import os
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc import proj as P       # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all sequences of three operations (correlate the first half, correlate '
    'everything, compute velocity change and coherence; thorough: four) x '
    'the form in which the configuration is given to each (fresh dictionary, '
    'one dictionary shared by all, parameter file, parameter file with '
    'unquoted times, time objects, the parameters logged by the previous '
    'run, other spelling of the log level) x contents (masks, subdivision '
    'preprocessing, requested pairs, separate components, frequency and '
    'lapse window lists, pre- and postprocessing). The database and all '
    'results must be those of fresh dictionaries, and a shared dictionary '
    'must stay as it was. All equivalent ways of requesting stations and '
    'components give the same results. Non-trivial: database not empty.')
ASSUMPTIONS = [
    'forms are judged against the same content given as dictionary; the '
    'meaning of the content is judged by C04, C06, C07, C15, C18']
CHUNK = 4
FORMS = ['fresh', 'shared', 'yaml', 'plainyaml', 'times', 'log', 'lower']
VARIANTS = ['plain', 'mask', 'masklen', 'subdiv', 'xcomb', 'xnone',
            'comps', 'lists', 'select', 'pop', 'all', 'ref']
STEPS = ['half', 'full', 'monitor']
NETS = [('X', ['A', 'B']), (['X', 'X'], ['A', 'B']),
        ('X', '*'), (['X'], '*'), (['X'], ['*']), ('*', '*'), ('X', '?'),
        ('X*', ['A', 'B']), ('?', '*'), (['X', 'X'], ['B', 'A'])]
COMPS = ['?', '*', None, 'None', 'Z']


def cases(tier):
    out = []
    full = tier != 'quick'
    for n, c in itertools.product(range(len(NETS)), COMPS):
        for g in ('fresh', 'shared', 'yaml'):
            out.append(dict(kind='net', net=n, comp=c, form=g))
    for v in VARIANTS:
        for f in FORMS:
            out.append(dict(kind='seq', var=v, forms=[f, f, f],
                            steps=[0, 1, 2]))
            out.append(dict(kind='seq', var=v, forms=['shared', f, 'shared'],
                            steps=[1, 2, 1]))
    for f in itertools.product(FORMS, repeat=3):
        for v in VARIANTS if full else ('plain',):
            out.append(dict(kind='seq', var=v, forms=list(f),
                            steps=[0, 1, 2]))
    for s in itertools.product(range(3), repeat=4 if full else 3):
        for f in ('shared', 'log', 'plainyaml') if full else ('shared',):
            out.append(dict(kind='seq', var='mask', forms=[f]*len(s),
                            steps=list(s)))
    return out


def utc(x):
    return str(B.utc(x))


def content(d, var):
    o = B.options(d, 'X', ['A', 'B'], 0, 1600)
    o['fig_subdir'] = 'fig'
    o['dv'] = dict(
        subdir='dv', plot_vel_change=False, start_date=utc(0),
        end_date=utc(1600), win_len=400, date_inc=400, freq_min=.1,
        freq_max=.5, tw_start=0, tw_len=8, sides='both', compute_tt=False,
        rayleigh_wave_velocity=1, stretch_range=.06, stretch_steps=7,
        return_sim_mat=True, dt_ref=dict(
            win_inc=0, method='mean', percentile=50),
        preprocessing=[], postprocessing=[])
    o['wfc'] = dict(
        subdir='wfc', start_date=utc(0), end_date=utc(1600), win_len=400,
        date_inc=400, freq_min=.1, freq_max=.5, tw_start=0, tw_len=8,
        save_comps=False, preprocessing=[], dt_ref=dict(
            win_inc=0, method='mean', percentile=50))
    co = o['co']
    mask = 'seismic.correlate.preprocessing_stream.stream_mask_at_utc'
    if var in ('mask', 'all'):
        co['preProcessing'] = [{'function': mask, 'args': {
            'starts': [utc(1100), utc(90)], 'ends': [utc(1180), utc(120)]}}]
    if var == 'masklen':
        co['preProcessing'] = [{'function': mask, 'args': {
            'starts': [utc(90), utc(900)], 'masklen': 30}}, {
                'function': 'seismic.correlate.preprocessing_stream.'
                'detrend_st', 'args': {'type': 'linear'}}]
    if var in ('subdiv', 'all'):
        co['preprocess_subdiv'] = True
        co['corr_args']['TDpreProcessing'] = [{
            'function': 'seismic.correlate.preprocessing_td.detrend',
            'args': {'type': 'linear'}}]
    if var in ('xcomb', 'all'):
        co['xcombinations'] = ['X-X.A-B']
    if var == 'xnone':
        co['xcombinations'] = 'None'
    if var in ('comps', 'all'):
        o['save_comps_separately'] = True
    if var in ('lists', 'all'):
        o['wfc'].update(freq_min=[.1, .2], freq_max=[.4, .5],
                        tw_start=[0, 2], tw_len=[6, 5])
    if var in ('select', 'all'):
        for k in ('dv', 'wfc'):
            o[k]['preprocessing'] = [{'function': 'select_time', 'args': {
                'start': [0, 5, 0], 'end': [0, 21, 40]}}]
        o['dv']['postprocessing'] = [{
            'function': 'smooth_sim_mat', 'args': {'win_len': 3}}]
    if var == 'pop':
        for k in ('dv', 'wfc'):
            o[k]['preprocessing'] = [{'function': 'pop_at_utcs', 'args': {
                'utcs': [utc(550), utc(1333)]}}]
    if var == 'ref':
        o['dv']['dt_ref']['win_inc'] = [1, 1]
        o['wfc']['dt_ref'].update(method='similarity_percentile')
    return o


def convert(o, f):
    """apply f to all times in the options"""
    for k in ('read_start', 'read_end'):
        o['co'][k] = f(o['co'][k])
    for k in ('dv', 'wfc'):
        for q in ('start_date', 'end_date'):
            o[k][q] = f(o[k][q])
    for li in (o['co']['preProcessing'], o['dv']['preprocessing'],
               o['wfc']['preprocessing']):
        for s in li:
            for q in ('starts', 'ends', 'utcs'):
                if q in s['args']:
                    s['args'][q] = [f(t) for t in s['args'][q]]


class Giver(object):
    """hands out the options in the form that is asked for"""
    def __init__(self, d, opts):
        self.d = d
        self.opts = opts
        self.shared = copy.deepcopy(opts)
        self.n = 0

    def get(self, form, end):
        import yaml
        from obspy import UTCDateTime
        o = copy.deepcopy(self.opts)
        o['co']['read_end'] = end
        if form == 'shared':
            self.shared['co']['read_end'] = end
            self.expect = copy.deepcopy(self.shared)
            return self.shared
        if form == 'lower':
            o['log_level'] = 'error'
        elif form == 'times':
            convert(o, UTCDateTime)
        elif form == 'plainyaml':
            convert(o, lambda t: UTCDateTime(t).datetime)
        elif form == 'log':
            fs = sorted(glob.glob(os.path.join(self.d, 'log', 'params*')))
            if fs:
                with open(fs[-1]) as f:
                    o = json.load(f)
                o['co']['read_end'] = end
        if 'yaml' in form:
            self.n += 1
            p = os.path.join(self.d, f'params{self.n}.yaml')
            with open(p, 'w') as f:
                yaml.dump(o, f, sort_keys=False)
            return p
        return o

    def altered(self):
        return getattr(self, 'expect', self.shared) != self.shared


def project(d):
    for i, s in enumerate('AB'):
        for c in 'ZN'[:1 + (s == 'A')]:
            B.write_sds(d, B.trace('X', s, 'HH' + c, -10, B.noise(
                2*i + (c == 'N'), 4000), 2.))
    B.write_inventory(d, [('X', 'A', 1., 2.), ('X', 'B', 1.1, 2.)])


def step(d, name, give, form):
    from seismic.correlate.correlate import Correlator
    from seismic.monitor.monitor import Monitor
    from seismic.trace_data.waveform import Store_Client
    try:
        if name == 'monitor':
            # a coherence and a velocity change by separate objects
            m = Monitor(give.get(form, utc(1600)))
            m.compute_waveform_coherence_bulk()
            m = Monitor(give.get(form, utc(1600)))
            m.compute_velocity_change_bulk()
        else:
            end = utc(800 if name == 'half' else 1600)
            Correlator(Store_Client(B.NoRemote(), d), give.get(
                form, end)).pxcorr()
    finally:
        P.drop_handlers()


def dump(d):
    db = {k: v for k, v in B.dump_db(os.path.join(d, 'corr')).items()
          if k[1] != 'co'}
    out = {}
    for s in ('dv', 'wfc'):
        p = os.path.join(d, s)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            with np.load(os.path.join(p, f), allow_pickle=True) as z:
                out[s + '/' + f] = {k: z[k] for k in z.files}
    return db, out


def differ(a, b):
    x = B.close_db(a[0], b[0])
    if x:
        return f'{len(x)} differences in the database: {x[0]}'
    a, b = a[1], b[1]
    if set(a) != set(b):
        return f'only in one: {sorted(set(a) ^ set(b))}'
    for f in a:
        if set(a[f]) != set(b[f]):
            return f'{f}: fields {sorted(set(a[f]) ^ set(b[f]))}'
        for k in a[f]:
            x, y = a[f][k], b[f][k]
            ok = x.shape == y.shape
            if ok and x.dtype.kind in 'fc' and y.dtype.kind in 'fc':
                ok = np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True)
            elif ok and x.dtype.kind in 'iufcb':
                ok = np.array_equal(x, y)
            elif ok and k not in ('preprocessing', 'postprocessing',
                                  'dt_ref'):
                ok = str(x.tolist()) == str(y.tolist())
            if not ok:
                return f'{f} {k}: {x} instead of {y}'
    return None


_REF = {}


def reference(steps, var):
    """results of a fresh dictionary for every object"""
    k = (tuple(steps), var)
    if k not in _REF:
        if len(_REF) > 60:
            _REF.clear()
        with B.Scratch('c24') as d:
            base(d)
            g = Giver(d, content(d, var))
            for s in steps:
                step(d, STEPS[s], g, 'fresh')
            _REF[k] = dump(d)
    return _REF[k]


_BASE = {}


def base(d):
    """copy of the raw data"""
    if not _BASE:
        with B.Scratch('c24') as q:
            project(q)
            for r, _, fs in os.walk(q):
                for f in fs:
                    p = os.path.join(r, f)
                    with open(p, 'rb') as g:
                        _BASE[os.path.relpath(p, q)] = g.read()
    for p, x in _BASE.items():
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as g:
            g.write(x)


def run_seq(case, res):
    exp = reference(case['steps'], case['var'])
    res.nontrivial = len(exp[0]) > 0
    with B.Scratch('c24') as d:
        base(d)
        g = Giver(d, content(d, case['var']))
        for s, f in zip(case['steps'], case['forms']):
            try:
                step(d, STEPS[s], g, f)
            except Exception as e:
                res.fail('error-' + f, f'{case} {STEPS[s]} with {f}: '
                         f'{type(e).__name__}: {e}')
                return
            res.count(transitions=1)
            if g.altered():
                res.fail('altered', f'{case}: {STEPS[s]} altered the options '
                         'it was given')
                return
        got = dump(d)
    x = differ(got, exp)
    res.see(case['var'], tuple(case['steps']), len(got[0]), len(got[1]))
    if x:
        res.fail('differs', f'{case}: {x}')


def run_net(case, res):
    """equivalent requests of stations and components"""
    net, sta = NETS[case['net']]
    exp = reference([1, 2], 'plain')
    if case['comp'] == 'Z':
        exp = {k: v for k, v in exp[0].items() if 'HHZ-HHZ' in k[1]}, None
    res.nontrivial = True
    with B.Scratch('c24') as d:
        base(d)
        o = content(d, 'plain')
        o['net'] = dict(network=copy.deepcopy(net), station=copy.deepcopy(
            sta), component=case['comp'])
        g = Giver(d, o)
        for s in (1, 2):
            try:
                step(d, STEPS[s], g, case['form'])
            except Exception as e:
                res.fail('net-error', f'{case} {o["net"]} {STEPS[s]}: '
                         f'{type(e).__name__}: {e}')
                return
            res.count(transitions=1)
            if g.altered():
                res.fail('altered', f'{case}: {STEPS[s]} altered the options '
                         'it was given')
                return
        got = dump(d)
    res.see(len(got[0]), len(got[1]))
    if exp[1] is None:
        if not any(k.startswith('dv/') for k in got[1]):
            res.fail('net', f'{case}: no velocity changes')
        got = got[0], {}
        exp = exp[0], {}
    x = differ(got, exp)
    if x:
        res.fail('net', f'{case} {o["net"]}: {x}')


def run_case(case):
    res = Result()
    {'seq': run_seq, 'net': run_net}[case['kind']](case, res)
    res.count(traces=1)
    res.state(str(sorted(case.items(), key=str)))
    res.sample = dict(case)
    return res
