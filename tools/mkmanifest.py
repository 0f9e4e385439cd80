import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
NOTE = json.load(open(V + '/tools/level_notes.json'))
checks = []; na = []
for p in props:
    i = p['id']
    if i not in NA and os.path.exists(f'{V}/checks/{i.lower()}.py'):
        checks.append({'property': i, 'quick_cmd': f'python3-vt checks/run.py {i}', 'thorough_cmd': f'python3-vt checks/run.py {i} --thorough',
                       'technique': 'symbolic execution of the Rust source with an SMT solver (z3) deciding every path',
                       'level': 'model_checking', 'level_note': NOTE.get(i, NOTE['default'])})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
