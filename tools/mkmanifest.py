"""Writes MANIFEST.json from the checks present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ('Holds for every value of the symbolic inputs on every path of the '
  'listed scenarios (bounded sizes, stated in the evidence file). Exact reals '
  'and integers, not floats; numpy, PyTables, scipy and the file system are '
  'replaced by models (validated by replaying solver models of the paths on '
  'the real libraries). ')
EXTRA = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the real source + SMT (z3)',
        'level': 'model_checking',
        'level_note': NOTE + EXTRA.get(i, '')})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks,
    'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'),
    indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
