"""Writes DESIGN.md from tools/design_head.md, props.py, the check modules,
fixes.py, known findings, and the planted bugs"""
import ast
import json
import os
import sys
import textwrap
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA  # noqa
import fixes  # noqa
root = os.path.dirname(here)


def const(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def fill(s, indent=''):
    return textwrap.fill(' '.join(s.split()), 79, initial_indent=indent,
                         subsequent_indent=' '*len(indent),
                         break_long_words=False, break_on_hyphens=False)


def load(f):
    p = os.path.join(here, f)
    return json.load(open(p)) if os.path.exists(p) else {}


out = [open(os.path.join(here, 'design_head.md')).read(), '## Properties\n']
runs = load('runs.json')
ent = fixes.entries()
known = [x for x in json.load(open(os.path.join(
    root, 'known_findings.json')))['findings'] if x['status'] == 'known']
for p in sorted(PROPS, key=lambda x: x['id']):
    c = const(os.path.join(root, 'checks', p['id'] + '.py'))
    out.append(f'### {p["id"]} {p["title"]}\n')
    out.append(fill(p['statement']) + '\n')
    out.append(fill('Decided by: ' + p['technique'] + '.', '- '))
    out.append(fill('Space: ' + c['RULE'], '- '))
    for a in c.get('ASSUMPTIONS', []):
        out.append(fill('Assumes: ' + a + '.', '- '))
    out.append(fill('Why tests cannot: ' + p['why'], '- '))
    out.append(fill('Anchors: ' + '; '.join(
        f'{a} ({b})' for a, b in p['mech']) + '.', '- '))
    for t in ('quick', 'thorough'):
        r = runs.get(p['id'], {}).get(t)
        if r:
            out.append(fill(
                f'Cost ({t}): {r["cases"]} cases, {r["states"]} states, '
                f'{r["transitions"]} transitions, {r["traces"]} executions '
                f'of the implementation, {r["wall"]} s on 8 cores.', '- '))
    out.append(fill('Limits: ' + p['note'], '- '))
    for q, h, s in ent:
        if q == p['id']:
            out.append(fill(f'Repaired: {s} ({h}).', '- '))
    for k in known:
        if k['property'] == p['id']:
            out.append(fill('Known finding: ' + k['what'] + '.', '- '))
    out.append('')
for p in NA:
    out.append(f'### {p["id"]} {p["title"]}\n\n' + fill(p['reason']) + '\n')
out.append('## Planted bugs\n')
out.append(fill(
    'Each change was made from the text of a property and the code, passes '
    'the 539 tests, and has a demonstration. "Caught" gives the checks that '
    'report it.') + '\n')
hist = load('seeds.json')
sd = os.path.join(root, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    h = hist.get(s, {})
    out.append(fill(
        f'`{s}` ({m["property"]}): {m["what_it_breaks"]}. Needs '
        f'{m["needs"]}. Caught by {h.get("caught", m["property"])}.'
        + (f' {h["note"]}' if 'note' in h else ''), '- '))
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
