"""Writes MANIFEST.json from the checks that exist, properties.jsonl and the tables of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = {os.path.basename(p).split('_')[0] for p in glob.glob(os.path.join(HERE, 'checks', '*_*.py'))
        if not os.path.basename(p).startswith('__')}
notes = json.load(open(os.path.join(HERE, 'tools', 'manifest_notes.json')))
# space and oracle of each check, from the tables of DESIGN.md
rows = {}
for line in open(os.path.join(HERE, 'DESIGN.md')):
    parts = [c.strip().replace('**', '').replace('`', '') for c in line.split(' | ')]
    if len(parts) == 4 and parts[0].startswith('| ') and parts[0][2:] in props:
        rows[parts[0][2:]] = parts
checks, na = [], []
for p in props:
    if p in have:
        n = dict(notes['checks'].get(p, {}))
        if p in rows:
            n.setdefault('technique', '%s: %s' % (notes['technique'], rows[p][2]))
            n.setdefault('note', 'Bounded space, explored completely: %s. %s' % (rows[p][1], notes['note']))
        checks.append({'property': p, 'quick_cmd': './run ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough ./run ' + p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': n.get('technique', notes['technique']),
                       'level': 'model_checking', 'level_note': n.get('note', notes['note'])})
    else:
        na.append({'property': p, 'reason': notes['not_applicable'].get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na, 'notes': notes['notes']},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'without')
