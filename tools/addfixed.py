"""addfixed.py PROP KEY COMMIT WHAT : record a repaired defect in known-findings.json"""
import json, sys
p = '/verif/known-findings.json'; L = json.load(open(p))
if len(sys.argv) > 1:
    pr, key, cm, what = sys.argv[1:5]
    L.append(dict(property=pr, key=key, status='fixed', commit=cm, what=what))
for e in L:
    if e['status'] == 'fixed': e['record'] = f"fixed: property={e['property']} {e['commit']} {e['what']}"
open(p, 'w').write('[\n' + ',\n'.join(' ' + json.dumps(e) for e in L) + '\n]\n')
