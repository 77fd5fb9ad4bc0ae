"""writes MANIFEST.json from the harnesses that exist"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
notes = json.load(open(os.path.join(root, 'tools', 'levels.json')))
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.isfile(os.path.join(root, 'harness', i + '.py')) and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the real source with symbolic characters/integers; z3 decides every path, counterexamples replayed on the unmodified code',
            'level': 'model_checking',
            'level_note': notes.get(i, notes['*']),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks are needed in /repo: the source is instrumented in memory on every run.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'without')
