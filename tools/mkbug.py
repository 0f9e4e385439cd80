#!/usr/bin/env python3
"""author a planted change: mkbug.py spec.json ; spec {id, property, needs, what_it_breaks, edits:[[file, old, new]...]}
writes seeded/<id>/patch.diff and meta.json; leaves /repo as it was"""
import json, subprocess, sys, os
R = os.environ.get('REPO', '/repo')
s = json.load(open(sys.argv[1])); d = f'/verif/seeded/{s["id"]}'; os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout, 'dirty /repo'
try:
    for f, old, new in s['edits']:
        p = R + '/' + f; t = open(p).read(); assert t.count(old) == 1, (f, t.count(old), old); open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
finally:
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
