"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES  # noqa
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                'hook_needed': None}}) + '\n')
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import h5py, obspy, numpy, scipy"',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"bash run.sh {p['id']} quick",
        'thorough_cmd': f"bash run.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p['technique'], 'level': p['level'],
        'level_note': p['note']} for p in PROPS],
    'not_applicable': [
        {'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': NOTES}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
