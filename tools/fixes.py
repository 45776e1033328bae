"""Repaired defects: (property, commit in /repo). The message of the commit
says what failed. Run to update known_findings.json."""
import json
import os
import subprocess

FIXES = '''
C25 e7cee39
C12 ace232e
C17 2344bd5
C21 0682626
C01 4043527
C05 76983a0
C08 2107ffa
C03 f715b05
C02 d081c15
C09 4fe8eda
C05 deb2017
C07 a68d125
C06 d1971d9
C06 73a4fcc
C04 bae940c
C02 0a56bb5
C19 342c82d
C19 68404cf
C19 3b13a0f
C19 8758f71
C04 98ee777
C06 1645533
C19 bcc5055
C20 ff846cf
C08 51389b0
C03 68a2dd1
C21 0e20963
C01 6de6fa5
C21 fb67f35
C13 2cca02d
C13 81a1ab5
C13 f858ce5
C13 6a79b96
C13 daedbc8
C13 0cb5c02
C13 f024371
C13 d79d160
C14 c36f1f4
C13 afdce36
C12 67bff47
C12 e481afb
C14 a820f5f
C16 73a2336
C16 32a0207
C16 61b1032
C16 4e45c62
C16 6af5229
C16 537012e
C16 6680679
C15 2b01107
C15 536bca0
C15 fd216c9
C17 0bd580e
C17 4078ad6
C17 a9e25d8
C17 2d16b98
C18 dfc16dc
C18 9fa1dfa
C20 7a44367
C20 8b77780
C20 e182068
C20 4f9c09d
C20 1b6dfe1
C20 2cdf332
C21 c018f40
C21 399a4cf
C21 3ae4438
C21 9f8cc93
C21 bddd101
C21 73fad99
C21 9226ae3
C21 6470ed5
C22 b42aabf
C22 974de07
C22 bea79cb
C22 8fd872f
C23 357f54a
C23 3a5be2d
C23 5f6a00d
C23 97707c2
C13 b17b15d
C24 20f5f5f
C24 1555362
C24 f89ea9e
C24 fd4199a
C24 36c1d84
C19 0430c23
C19 0f0f77d
C25 fafccc0
C25 0511f01
C25 8724617
C25 dfbf3c6
C25 57bdf0e
C25 bcbcfd0
C25 1d51ca1
C25 96ba07b
C25 e9cb26b
C25 914f6c0
C25 54bb8c9
'''


def subject(commit):
    return subprocess.run(
        ['git', '-C', '/repo', 'log', '-1', '--format=%s', commit],
        capture_output=True, text=True, check=True).stdout.strip()


def entries():
    out = []
    for line in FIXES.split('\n'):
        if line.strip():
            p, c = line.split()
            s = subject(c)
            assert s.startswith('fix: '), s
            out.append((p, c, s[5:]))
    return out


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    fn = os.path.join(here, '..', 'known_findings.json')
    k = json.load(open(fn))
    k['findings'] = [x for x in k['findings'] if x['status'] == 'known']
    for p, c, s in entries():
        k['findings'].append(dict(
            property=p, key=c, status='fixed', commit=c,
            what=f'fixed: property={p} {c} {s}'))
    with open(fn, 'w') as f:
        json.dump(k, f, indent=1)
        f.write('\n')
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h',
                          '0a15ed6..HEAD'], capture_output=True, text=True)
    left = set(log.stdout.split()) - {c for _, c, _ in entries()}
    print('commits without entry:', left or 'none')
