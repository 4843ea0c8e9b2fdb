"""Generate the property sections of DESIGN.md (run design_notes.py first)"""
import json,glob,os,re
P={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l);P[d['id']]=d
M=json.load(open('/verif/MANIFEST.json'))
B={}
for f in sorted(glob.glob('/verif/dst/props/c*.py')):
    c=os.path.basename(f)[:-3].upper()
    src=open(f).read()
    ns={}
    m=re.search(r'^RULE = \((.*?)^\)',src,re.S|re.M)
    B[c]=eval('('+m.group(1)+')')
notes=json.load(open('/verif/tools/design_notes.json'))
seeded={}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); m['id']=os.path.basename(d); seeded.setdefault(m['property'],[]).append(m)
k=json.load(open('/verif/known_findings.json'))['findings']
out=['\n## Properties\n']
lv={c['property']:c for c in M['checks']}
for c in sorted(lv):
    n=notes['props'][c]
    out.append(f"### {c} {P[c]['title']}\n")
    out.append(f"Level: {lv[c]['level']}. {B[c]}\n")
    for t,v in (('Oracle',n['oracle']),('Bounds',n['bounds']),('Beyond tests',n['why'])):
        out.append(f"- {t}: {v}")
    fx=[f for f in k if f['property']==c]
    for f in fx:
        out.append(f"- Defect found and repaired ({f['commit']}): {f['what_failed']}." if f['status']=='fixed' else f"- Known finding: {f['what_failed']}")
    s=seeded.get(c,[])
    if s:
        out.append(f"- Planted bugs caught by this check ({len(s)}): "+', '.join(x['id'] for x in s if x['id'] not in notes['missed'])+'.')
        mi=[x['id'] for x in s if x['id'] in notes['missed']]
        if mi: out.append("- Planted bugs not caught: "+', '.join(f"{i} ({notes['missed'][i]})" for i in mi))
    out.append('')
out.append('## Not applicable\n')
for na in M['not_applicable']:
    out.append(f"- {na['property']} {P[na['property']]['title']}: {na['reason']}")
out.append('')
out+=notes['tail']
src=open('/verif/DESIGN.md').read().split('\n## Properties\n')[0].rstrip('\n')+'\n'
open('/verif/DESIGN.md','w').write(src+'\n'.join(out)+'\n')
