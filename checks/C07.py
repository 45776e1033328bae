"""
The windows of a run tile the requested time range exactly as configured, and
each read window is stacked on its own.
"""
import itertools
import numpy as np

from mc import fakempi
fakempi.install()
from mc import build as B, corrmodel as M      # noqa: E402
from mc.core import Result     # noqa: E402
B.quiet()
B.no_tqdm()

LEVEL = 'model_checking'
RULE = (
    'product of start time x number and spacing of read windows x window '
    'length x window increment x availability; the complete set of stored '
    'windows and stacks (times, headers, all samples) is compared with the '
    'reference model. Non-trivial: at least two windows stored.')
ASSUMPTIONS = ['integer raw data, native sampling rate of 1 Hz, windows on '
               'the sample grid']
CHUNK = 4


def cases(tier):
    out = []
    starts = [0, 86400 - 130, 17]
    rls = [(120, 120), (120, 240), (150, 100)]
    if tier == 'thorough':
        starts += [-86400*1 + 37, 31*86400 - 60]
        rls += [(130, 130), (200, 50), (90, 91)]
    for st, (rl, ri), (cl, inc), p, n in itertools.product(
            starts, rls, [(40, 40), (40, 20), (30, 40), (50, 50), (35, 25),
                          (120, 120), (7, 7)],
            ['ff', 'fl', 'fg', 'lg'], [1, 3]):
        if n == 1 and p != 'ff' and tier == 'quick':
            continue
        out.append(dict(start=st, rl=rl, ri=ri, cl=cl, inc=inc, pat=p, n=n))
    # reversed instruments (one or several pieces of data)
    for st, p, dip in itertools.product(
            starts[:2], ['ff', 'fg', 'gg'], ['10', '01', '11']):
        out.append(dict(start=st, rl=240, ri=240, cl=40, inc=40, pat=p, n=2,
                        dip=dip))
    # little data in long windows
    for st, p, (cl, inc), rl in itertools.product(
            starts, ['fs', 'sf', 'ss', 'st', 'tf'],
            [(300, 300), (300, 150), (600, 600)], [300, 600]):
        out.append(dict(start=st, rl=rl, ri=rl, cl=cl, inc=inc, pat=p, n=2))
    return out


def run_case(case):
    res = Result()
    t0, rl, ri, cl, inc, n = [
        case[k] for k in ('start', 'rl', 'ri', 'cl', 'inc', 'n')]
    # not on the grid of read windows: the last one starts before the end
    end = t0 + ri*n - (5 if n > 1 else 0)
    T = ri*n + rl
    chans = []
    for i, p in enumerate(case['pat']):
        x = B.noise(i+1, T + 100)
        o = t0 - 50
        if p == 'f':
            ps = [(o, x)]
        elif p == 's':
            g = 50 + rl//4
            ps = [(o+g, x[g:g+100])]
        elif p == 't':
            g = 50 + rl + rl//3
            ps = [(o+g, x[g:g+85])]
        elif p == 'l':
            ps = [(o+50+rl//3, x[50+rl//3:])]
        else:
            g = 50 + ri + rl//2
            ps = [(o, x[:g]), (o+g+11, x[g+11:])]
        chans.append((('AA', 'BB')[i], 'S', 'HHZ', ps))
    with B.Scratch('c07') as d:
        for nn, s, c, ps in chans:
            for o, x in ps:
                B.write_sds(d, B.trace(nn, s, c, o, x, 1.))
        if case.get('dip'):
            for (nn, s, c, ps), r in zip(chans, case['dip']):
                B.write_inventory(d, [(nn, s, 50., 10.)],
                                  dip=90. if r == '1' else -90.)
        op = B.options(
            d, '*', '*', t0, end, read_len=rl, read_inc=ri, corr_len=cl,
            corr_inc=inc, sr=1, length=3, method='allSimpleCombinations')
        B.run_corr(d, op)
        got, hdr = M.read_real(d + '/corr')
    if case.get('dip'):
        chans = [(nn, s, c, [(o, -x if r == '1' else x) for o, x in ps])
                 for (nn, s, c, ps), r in zip(chans, case['dip'])]
    exp = M.run(chans, 1., t0, end, rl, ri, cl, inc, 'allSimpleCombinations',
                3)
    for k, msg in M.compare(exp, got, hdr, 1., 3):
        res.fail(k, msg)
    res.count(traces=len(got), transitions=len(exp))
    for k in got:
        res.state(t0, rl, ri, cl, inc, case['pat'], k)
    res.nontrivial = len(got) > 1
    res.see(sorted(got))
    res.sample = dict(case, entries=len(got))
    return res
