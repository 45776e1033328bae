"""
Driver shared by all harnesses.

A harness module ``checks.<ID>`` provides

``LEVEL``        evidence level
``RULE``         how cases are made / what makes one non-trivial
``ASSUMPTIONS``  list of strings
``cases(tier)``  iterable of JSON-able cases, simplest first (finite, complete
                 enumeration of the stated bounded space; no sampling)
``run_case(c)``  executes the case on the real code and returns a ``Result``

The driver runs all cases on a process pool, collects counts and distinct
outcomes, writes the evidence file and reports violations.  Every violation
gets a replay file that ``run.sh ID TIER --replay FILE`` re-executes without
the explorer.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPO_SRC = REPO + '/src'
MAX_REPORT = 5


class Result(object):
    """Outcome of one case."""
    def __init__(self):
        self.violations = []   # (key, message)
        self.outcomes = set()  # distinct observations (strings)
        self.states = 0
        self.state_set = set()  # distinct states (hashes)
        self.transitions = 0
        self.traces = 0
        self.nontrivial = True
        self.sample = None
        self.extra = {}

    def fail(self, key, msg):
        if len(self.violations) < 50:
            self.violations.append((str(key), str(msg)[:1500]))

    def expect(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def see(self, *obs):
        if len(self.outcomes) < 5000:
            self.outcomes.add(
                hashlib.md5(repr(obs).encode()).hexdigest()[:12])

    def state(self, *obs):
        if len(self.state_set) < 20000:
            self.state_set.add(
                hashlib.md5(repr(obs).encode()).hexdigest()[:12])

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def known_findings():
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f)['findings']


_MOD = None


def _init(mod_name):
    global _MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # keep what the code under test prints off our output
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    import importlib
    _MOD = importlib.import_module(mod_name)


CASE_TIMEOUT = 400


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout('case did not terminate')


def _chunk(args):
    return [_work(a) for a in args]


def _work(arg):
    ii, case = arg
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return _work1(ii, case)
    finally:
        signal.alarm(0)


def _work1(ii, case):
    t = time.time()
    try:
        res = _MOD.run_case(case)
    except BaseException as e:  # noqa
        res = Result()
        tb = traceback.format_exc()
        # deepest frame inside /repo identifies the failing call
        where = 'harness'
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(REPO + '/'):
                where = os.path.basename(fr.filename) + ':' + fr.name
        res.fail(f'exception:{type(e).__name__}:{where}', tb[-1400:])
    return ii, res, time.time() - t


def main(argv):
    t0 = time.time()
    pid, tier = argv[0], argv[1] if len(argv) > 1 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, REPO_SRC)
    mod_name = f'checks.{pid}'
    replay = None
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    try:
        import importlib
        mod = importlib.import_module(mod_name)
        if replay:
            with open(replay) as f:
                cases = [json.load(f)['case']]
        else:
            cases = list(mod.cases(tier))
    except BaseException:
        path = _write_replay(pid, 0, None, [(
            'import', traceback.format_exc())])
        print(traceback.format_exc())
        print(f'VIOLATION property={pid} replay={path}')
        return 1

    global _MOD
    _MOD = mod
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(
        8, os.cpu_count() or 1)
    budget = float(os.environ.get(
        'VERIF_BUDGET', '600' if tier == 'quick' else '7200'))
    results = []
    capped = False
    order = list(range(len(cases)))
    par = getattr(mod, 'PARALLEL', True) and len(cases) > 1 and nproc > 1
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    if par:
        ctx = mp.get_context('fork')
        chunk = getattr(mod, 'CHUNK', 1)
        pool = ctx.Pool(nproc, _init, (mod_name,))
        todo = [(i, cases[i]) for i in order]
        todo = [todo[i:i+chunk] for i in range(0, len(todo), chunk)]
        it = pool.imap_unordered(_chunk, todo, chunksize=1)
        nviol = 0
        known = {k['key'] for k in known_findings()
                 if k['property'] == pid
                 and k.get('status', 'known') == 'known'}
        for _ in todo:
            try:
                left = budget - (time.time() - t0)
                r = it.next(timeout=max(left, 0.1))
            except mp.TimeoutError:
                capped = True
                break
            results.extend(r)
            nviol += sum(any(v[0] not in known for v in x[1].violations)
                         for x in r)
            if nviol >= int(os.environ.get('VERIF_CAP', '40')):
                capped = True
                break
        pool.terminate()
        pool.join()
    else:
        for i in order:
            results.append(_work((i, cases[i])))
            if time.time() - t0 > budget:
                capped = len(results) < len(cases)
                break
    results.sort(key=lambda r: r[0])

    known = [k for k in known_findings() if k['property'] == pid
             and k.get('status', 'known') == 'known']
    states = transitions = traces = evals = nontriv = 0
    outcomes = set()
    state_set = set()
    samples = []
    extra = {}
    viol = []
    hits = {}
    for ii, res, dt in results:
        evals += 1
        nontriv += bool(res.nontrivial)
        states += res.states
        transitions += res.transitions
        traces += res.traces
        outcomes |= res.outcomes
        state_set |= res.state_set
        for k, v in res.extra.items():
            extra[k] = extra.get(k, 0) + v
        if res.sample is not None and len(samples) < 3:
            samples.append(res.sample)
        rest = []
        for key, msg in res.violations:
            for k in known:
                if key == k['key']:
                    hits.setdefault(k['key'], 0)
                    hits[k['key']] += 1
                    break
            else:
                rest.append((key, msg))
        if rest:
            viol.append((ii, cases[ii], rest))
    states += len(state_set)
    if not samples and cases:
        samples = [cases[0], cases[len(cases)//2], cases[-1]]

    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']} "
              f"(seen {hits.get(k['key'], 0)} times in this run)")

    cov = {
        'evaluations': evals,
        'distinct_nontrivial': min(nontriv, evals),
        'rule': mod.RULE,
        'samples': samples,
        'states': states, 'transitions': transitions,
        'traces_validated_against_impl': traces,
        'distinct_outcomes': len(outcomes),
        'cases_planned': len(cases),
        'exhaustive': not capped and len(results) == len(cases),
        'known_findings_hit': hits,
    }
    if mod.LEVEL != 'model_checking':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            if not cov[k]:
                cov.pop(k)
    cov.update(extra)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': cov, 'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    slow = sorted(results, key=lambda r: -r[2])[:1]
    print(f'{pid} [{tier}]: cases={evals}/{len(cases)} states={states} '
          f'transitions={transitions} traces={traces} '
          f'distinct_outcomes={len(outcomes)} '
          f'exhaustive={cov["exhaustive"]} wall={ev["wall_s"]}s'
          + (f' slowest={slow[0][2]:.1f}s' if slow else '')
          + (f' {extra}' if extra else ''))
    if viol:
        keys = {}
        for ii, c, rest in viol:
            for key, msg in rest:
                keys.setdefault(key, []).append(ii)
        print(f'{len(viol)} violating cases; kinds:')
        for k, v in sorted(keys.items(), key=lambda kv: kv[1][0])[:40]:
            print(f'   {k}: {len(v)} (first case {v[0]})')
        seen = set()
        n = 0
        for ii, c, rest in viol:
            new = [r for r in rest if r[0] not in seen]
            if not new or n >= MAX_REPORT:
                continue
            seen |= {r[0] for r in rest}
            path = replay or _write_replay(pid, n, c, rest)
            n += 1
            print('---- case', json.dumps(c, default=str)[:600])
            for key, msg in new[:3]:
                print(f'  [{key}] {msg[:1200]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0


def _write_replay(pid, n, case, viols):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{n}.json')
    with open(path, 'w') as f:
        json.dump({
            'property': pid, 'case': case,
            'violations': [list(v) for v in viols],
            'how': f'bash /verif/run.sh {pid} quick --replay {path}'},
            f, indent=1, default=str)
    return path
