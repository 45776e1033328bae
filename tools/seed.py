"""
Helper to plant a bug: python3 tools/seed.py NAME  (reads seeded_src in
/tmp/seeds/NAME.py, which defines PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO).
Confirms: patch applies, the stable tests pass with it, the demonstration
passes without and fails with it; then runs the property's quick check.
Everything happens in the working tree of VERIF_REPO (or /repo) and is undone.
"""
import json
import os
import subprocess
import sys
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8',
           PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
           PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
           PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', VERIF_REPO=REPO, PYTHONPATH=REPO + '/src')
SH = '''#!/bin/bash
# exit 0: the property holds, anything else: it is broken
export HOME=/root PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, cwd=REPO, env=ENV, capture_output=True,
                          text=True, **k)


def main(name, tests=True):
    ns = {}
    with open(f'/tmp/seeds/{name}.py') as f:
        exec(f.read(), ns)
    assert not sh('git', 'status', '--porcelain').stdout, 'repo not clean'
    d = os.path.join(VERIF, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(ns['DEMO'].lstrip())
    with open(d + '/demo.sh', 'w') as f:
        f.write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']}, f, indent=1)
        f.write('\n')
    edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
    r0 = sh('bash', d + '/demo.sh')
    try:
        for fn, old, new in edits:
            p = REPO + '/src/seismic/' + fn
            with open(p) as f:
                s = f.read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            with open(p, 'w') as f:
                f.write(s.replace(old, new))
        with open(d + '/patch.diff', 'w') as f:
            f.write(sh('git', 'diff').stdout)
        r1 = sh('bash', d + '/demo.sh')
        t = ''
        if tests:
            t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                   'no:cacheprovider', '-x', '--timeout=300', 'tests',
                   'formatting_test').stdout.strip().splitlines()[-1]
        ids = sys.argv[2:] or [ns['PROP']]
        c = []
        for i in ids:
            q = subprocess.run(
                ['bash', 'run.sh', i, 'quick'], cwd=VERIF, env=dict(
                    ENV, VERIF_SEED='1'), capture_output=True, text=True)
            c.append((i, q.returncode, [
                x for x in q.stdout.splitlines() if ': ' in x][:4]))
    finally:
        sh('git', 'checkout', '--', '.')
    print(f'{name}: demo clean={r0.returncode} patched={r1.returncode} '
          f'tests={t!r} check={c}')
    if r0.returncode:
        print(r0.stdout[-800:], r0.stderr[-1500:])
    if not r1.returncode:
        print('DEMO DOES NOT FAIL', r1.stdout[-500:])
    if '539 passed' not in t:
        print('TESTS FAIL')


main(sys.argv[1])
