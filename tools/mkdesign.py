import json,subprocess
kf=json.load(open('/verif/known-findings.json'))
ev=lambda c: (lambda d:(d.get('coverage') or d))(json.load(open(f'/verif/evidence/{c}.json')))
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
text=open('/verif/tools/design_head.md').read()
per=json.load(open('/verif/tools/design_props.json'))
out=[text,'\n## Per property\n']
for c in sorted(props):
    p=props[c]
    how=per[c]['how']
    out.append(f"### {c} {p['title']}\n\n{how}\n")
    if c in per and per[c].get('bounds',True):
        out.append(f"*Oracle.* {per[c]['oracle']}\n\n*Bounds.* {per[c].get('b') or ev(c)['bounds']}.\n\n*Why tests cannot settle it.* {per[c]['why']}\n")
    fx=[k for k in kf if k['property']==c]
    if fx:
        out.append('*Defects found.* '+' '.join((f"`{k['commit']}` {k['what']}." if k['status']=='fixed' else f"KNOWN FINDING: {k['what']}.") for k in fx)+'\n')
import glob,os
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | caught by {d.get('caught_by',d['property'])} |")
out.append('## Planted bugs\n\nEach has a native demonstration; what catches it is in the last column.\n\n| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'+'\n'.join(rows))
out.append(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(out))
