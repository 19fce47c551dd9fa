"""Write MANIFEST.json from properties.jsonl and the checks present in vf/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
    'default': 'TLA+ specification checked with TLC; traces recorded from the real solvers validated against it',
}
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vf', 'checks', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f'bin/check {i} quick', thorough_cmd=f'bin/check {i} thorough',
                           technique=n.get('technique', TECH['default']), level=n.get('level', 'model_checking'),
                           level_note=n.get('note', 'TLC explores the bounded design model exhaustively; the binding '
                                                    'to the code is by validating recorded and replayed traces (sampled).')))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
