"""
A database never mixes results of different processing parameters.
"""
import copy
import itertools
import os
import warnings

from mc import fakempi
fakempi.install()
from mc import build as B      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'all single (thorough: also pairs of) changes of a leaf of the processing '
    'options - other value, missing, added, other order of steps - in every '
    'history create / change / write / revert, on database files and through '
    'complete runs. Model: a change that affects values or geometry is '
    'refused and leaves the files untouched, one that only selects times, '
    'pairs, or storage is accepted. Non-trivial: the options differ.')
ASSUMPTIONS = ['options are plain YAML types']
CHUNK = 16

BASE = {
    'subdir': 'corr', 'read_start': '2015-01-01', 'read_end': '2015-01-02',
    'read_len': 400, 'read_inc': 400, 'combination_method': 'betweenStations',
    'xcombinations': None, 'sampling_rate': 2, 'remove_response': False,
    'preprocess_subdiv': False, 'allow_different_params': False,
    'preProcessing': [
        {'function': 'seismic.correlate.preprocessing_stream.detrend_st',
         'args': {'type': 'linear'}},
        {'function': 'seismic.correlate.preprocessing_stream.cos_taper_st',
         'args': {'taper_len': 5, 'taper_at_masked': True}}],
    'subdivision': {'corr_inc': 100, 'corr_len': 100,
                    'recombine_subdivision': True,
                    'delete_subdivision': False},
    'corr_args': {
        'TDpreProcessing': [
            {'function': 'seismic.correlate.preprocessing_td.detrend',
             'args': {'type': 'linear'}},
            {'function': 'seismic.correlate.preprocessing_td.TDfilter',
             'args': {'type': 'bandpass', 'freqmin': .01, 'freqmax': .4}}],
        'FDpreProcessing': [
            {'function': 'seismic.correlate.preprocessing_fd.FDfilter',
             'args': {'flimit': [.01, .02, .3, .35]}}],
        'lengthToSave': 10, 'center_correlation': True,
        'normalize_correlation': True}}
MASK = {'function': 'seismic.correlate.preprocessing_stream.'
        'stream_mask_at_utc', 'args': {'starts': ['2015-01-01']}}
FREE = {('subdir',), ('read_start',), ('read_end',), ('read_len',),
        ('read_inc',), ('combination_method',), ('xcombinations',),
        ('subdivision', 'recombine_subdivision'),
        ('subdivision', 'delete_subdivision'), ('allow_different_params',)}
# whether windows are processed one by one is not part of the comparison;
# whichever way it is decided is fine
UNSPEC = {('preprocess_subdiv',)}


def leaves(x, path=()):
    """paths to all nodes"""
    if path:
        yield path
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))


def at(x, path):
    for p in path:
        x = x[p]
    return x


def changes():
    """(path, kind)"""
    out = []
    for p in leaves(BASE):
        v = at(BASE, p)
        if p in (('subdivision',), ('corr_args',)):
            continue
        if isinstance(v, dict):
            out += [(p, 'empty'), (p, 'extra')]
        elif isinstance(v, list):
            out += [(p, 'empty'), (p, 'reverse'), (p, 'dup'), (p, 'drop'),
                    (p, 'append')]
        else:
            out += [(p, 'value'), (p, 'none')]
        if isinstance(p[-1], str) and p not in (
                ('subdivision',), ('corr_args',)):
            out.append((p, 'missing'))
    out += [((), 'extra'), (('subdivision',), 'extra'),
            (('corr_args',), 'extra')]
    return out


def apply(co, ch):
    path, kind = ch
    path = tuple(path)
    v = at(co, path)
    par = at(co, path[:-1]) if path else None
    k = path[-1] if path else None
    if kind == 'missing':
        del par[k]
    elif kind == 'empty':
        par[k] = type(v)()
    elif kind == 'extra':
        v['new_option'] = 'x"\'y'
    elif kind == 'reverse':
        par[k] = v[::-1]
    elif kind == 'dup':
        par[k] = v + v[:1]
    elif kind == 'drop':
        par[k] = v[:-1]
    elif kind == 'append':
        par[k] = v + [3]
    elif kind == 'none':
        par[k] = None
    elif kind == 'value':
        if isinstance(v, bool):
            par[k] = not v
        elif isinstance(v, (int, float)):
            par[k] = v + 1
        elif v is None:
            par[k] = ['A-A.1-2']
        else:
            par[k] = v + 'x'
    return co


def strip(co):
    """what has to agree"""
    co = copy.deepcopy(co)
    for p in FREE | UNSPEC:
        try:
            at(co, p[:-1]).pop(p[-1], None)
        except (KeyError, AttributeError):
            pass
    pp = co.get('preProcessing')
    if pp:
        co['preProcessing'] = [
            s for s in pp if not isinstance(s, dict)
            or 'stream_mask_at_utc' not in s.get('function', '')]
    return co


def cases(tier):
    out = []
    ch = changes()
    # a step without function or list with other items than steps is not a
    # valid configuration
    ch = [c for c in ch if not (
        c[0][:1] == ('preProcessing',) and (
            (c[1] in ('missing', 'none') and c[0][-1] == 'function')
            or (c[1] in ('empty',) and len(c[0]) == 2)
            or (c[1] == 'append' and len(c[0]) == 1)))]
    out.append(dict(kind='db', a=[], b=[]))
    for m in ('A', 'B', 'AB'):
        out.append(dict(kind='db', a=[], b=[], mask=m))
    for c in ch:
        out.append(dict(kind='db', a=[], b=[c]))
        out.append(dict(kind='db', a=[c], b=[]))
        out.append(dict(kind='db', a=[], b=[c], mask='B'))
    if tier == 'thorough':
        for c, d in itertools.permutations(ch, 2):
            if c[0][:len(d[0])] == d[0] or d[0][:len(c[0])] == c[0]:
                continue
            out.append(dict(kind='db', a=[c], b=[d]))
            if c < d:
                out.append(dict(kind='db', a=[], b=[c, d]))
    for name in RUNS:
        for first in (None, 'other'):
            out.append(dict(kind='run', name=name, first=first))
    return out


RUNS = {
    'same': ({}, True), 'later': (dict(read_end=B.utc(800)), True),
    'readlen': (dict(read_len=800, read_inc=800), True),
    'method': (dict(combination_method='allCombinations'), True),
    'xcomb': (dict(xcombinations=['AA-AA.S1-S2']), True),
    'norecomb': (dict(recombine_subdivision=False), True),
    'corr_len': (dict(corr_len=50), False),
    'corr_inc': (dict(corr_inc=50), False),
    'length': (dict(length=5), False),
    'center': (dict(center_correlation=False), False),
    'norm': (dict(normalize_correlation=False), False),
    'sr': (dict(sr=1), False),
    'pre': (dict(preProcessing=[
        {'function': 'seismic.correlate.preprocessing_stream.detrend_st',
         'args': {}}]), False),
    'td': (dict(TDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_td.signBitNormalization',
         'args': {}}]), False),
    'fd': (dict(FDpreProcessing=[
        {'function': 'seismic.correlate.preprocessing_fd.spectralWhitening',
         'args': {}}]), False),
    'mask': (dict(preProcessing=[
        {'function': 'seismic.correlate.preprocessing_stream.'
         'stream_mask_at_utc', 'args': {
             'starts': [B.utc(10)], 'masklen': 5,
             'reverse': False}}]), True),
    'allow': (dict(length=5, allow_different_params=True), True),
}


def run_case(case):
    warnings.simplefilter('ignore')
    return globals()['case_' + case['kind']](case)


def case_db(case):
    from seismic.db.corr_hdf5 import CorrelationDataBase
    from checks import C08
    res = Result()
    a = copy.deepcopy(BASE)
    for c in case['a']:
        apply(a, c)
    b = copy.deepcopy(BASE)
    for c in case['b']:
        apply(b, c)
    m = case.get('mask', '')
    if 'A' in m and isinstance(a.get('preProcessing'), list):
        a['preProcessing'] = a['preProcessing'] + [MASK]
    if 'B' in m and isinstance(b.get('preProcessing'), list):
        b['preProcessing'] = [MASK] + b['preProcessing'] + [MASK]
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    ok = strip(a) == strip(b)
    res.nontrivial = a != b
    unspec = a.get('preprocess_subdiv') != b.get('preprocess_subdiv')
    e0, e1 = [('subdivision', 'A-A', '1-2', 'HHZ-HHZ', t, t+10)
              for t in (0, 10)]

    def attempt(fn, co, e, **kw):
        res.transitions += 1
        try:
            with CorrelationDataBase(fn, corr_options=co, **kw) as db:
                if kw.get('mode') != 'r':
                    db.add_correlation(C08.mk(e, 0), e[0])
                else:
                    db.get_data(*e[1:4], e[0])
            return True
        except PermissionError:
            return False

    def options(fn):
        with CorrelationDataBase(fn, mode='r') as db:
            return db.get_corr_options()

    with B.Scratch('c09') as d:
        fn = os.path.join(d, 'x.h5')
        res.expect(attempt(fn, a, e0), 'create', 'could not create')
        got = options(fn)
        if not unspec:
            res.expect(strip(got) == strip(a), 'stored',
                       lambda: f'stored {got} for {a}')
        d0 = C08.dump(fn)
        for mode in ('r', 'r+', 'a'):
            r = attempt(fn, b, e1, mode=mode)
            if not unspec:
                res.expect(r == ok, f'accept:{mode}',
                           f'options {case} accepted={r} expected={ok}')
            d1 = C08.dump(fn)
            res.state(d1)
            if not r or mode == 'r':
                res.expect(d0 == d1, f'changed:{mode}',
                           f'{case}: file changed although {mode}')
        # revert: the owner of the file can always continue
        res.expect(attempt(fn, a, e1), 'revert', f'{case}: own options')
        res.expect(options(fn) == got, 'optchanged', f'{case}: options')
        # explicitly allowed
        res.expect(attempt(fn, b, e1, _force=True), 'force',
                   f'{case}: refused although allowed')
        res.expect(options(fn) == got, 'optchanged', f'{case}: options')
        d2 = C08.dump(fn)
        # no options: read only, whatever is tried in whatever mode
        for mode in (None, 'a', 'r', 'r+', 'w'):
            kw = {'mode': mode} if mode else {}
            for op in (
                    lambda db: db.remove_data(
                        'A-A', '1-2', 'HHZ-HHZ', 'subdivision', '*'),
                    lambda db: db.add_correlation(C08.mk(
                        ('x', 'A-A', '1-2', 'HHZ-HHZ', 0, 10), 0), 'x'),
                    lambda db: db.add_corr_options(b)):
                try:
                    res.transitions += 1
                    with CorrelationDataBase(fn, **kw) as db:
                        op(db)
                except Exception:
                    pass
            res.expect(C08.dump(fn) == d2 and options(fn) == got, 'readonly',
                       f'file changed without options, mode {mode}')
        res.state(d2)
    res.expect(a == a0 and b == b0, 'mutated', f'{case}: options modified')
    res.traces += 1
    res.see(ok, d2)
    return res


def case_run(case):
    res = Result()
    kw, ok = RUNS[case['name']]
    kw = dict(kw)
    end = 400
    if 'read_end' in kw:
        kw.pop('read_end')
        end = 800
    with B.Scratch('c09r') as d:
        stas = [('AA', 'S1', 10., 10.), ('AA', 'S2', 10.1, 10.)]
        if case['first']:
            stas.append(('BB', 'S3', 10.2, 10.))
        B.write_inventory(d, stas)
        for i, s in enumerate(stas):
            B.write_sds(d, B.trace(s[0], s[1], 'HHZ', -50,
                                   B.noise(i, 2*1000), 2.))
        # the second run includes a pair that is not stored yet
        st = ['S1', 'S2'] if case['first'] else ['S1', 'S2', 'S3']
        net = ['AA', 'AA', 'BB'][:len(st)]
        o = B.options(d, net, st, 0, 400)
        B.run_corr(d, o)
        d0 = B.dump_db(os.path.join(d, 'corr'))
        res.expect(len(d0) > 2, 'setup', 'nothing stored')
        base = dict(net=None)
        o2 = B.options(d, '*', '*', 0, end, **kw) if not ({'sr'} & set(kw)) \
            else B.options(d, '*', '*', 0, end, **kw)
        del base
        for k in ('read_len', 'read_inc'):
            if k in kw:
                o2['co'][k] = kw[k]
        if 'combination_method' in kw:
            o2['co']['combination_method'] = kw['combination_method']
        opts0 = copy.deepcopy(o2)
        try:
            B.run_corr(d, o2)
            r = True
        except PermissionError:
            r = False
        res.expect(o2 == opts0, 'mutated', 'options of the user modified')
        d1 = B.dump_db(os.path.join(d, 'corr'))
        res.state(sorted(d1))
        res.transitions += 2
        res.expect(r == ok, f'run:{case["name"]}',
                   f'{case}: accepted={r}, expected {ok}')
        keep = {k: v for k, v in d1.items() if k in d0}
        if ok:
            diff = B.close_db(d0, keep, 0)
        else:
            diff = B.close_db(d0, d1, 0)
        res.expect(not diff, f'run:db:{case["name"]}', f'{case}: {diff[:3]}')
        # the first configuration is still usable
        B.run_corr(d, o)
        res.traces += 1
        res.see(r, sorted(d1))
    return res
