#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (between markers) from properties.jsonl, props.py, known_findings.jsonl and seeded/*/meta.json"""
import json,os,sys,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V); import props
how=json.load(open(V+'/tools/how.json'))
P=[json.loads(l) for l in open(V+'/properties.jsonl')]; NA={x['property']:x['reason'] for x in json.load(open(V+'/MANIFEST.json'))['not_applicable']}
o=[]
for p in P:
    i=p['id']; o.append('### %s %s'%(i,p['title']))
    if i in NA: o.append('Not applicable: %s\n'%NA[i]); continue
    ev=V+'/evidence/%s.json'%i; cost=''
    if i in how: o.append(how[i])
    hs=sorted({x['harness'] for x in props._I[i]}); o.append('Harness: %s (%d instances quick, %d thorough). Bounds: %s\n'%(', '.join(hs),len(props.instances(i,'quick')),len(props.instances(i,'thorough')),props.PROPS[i]['bounds']))
f=[]
for l in open(V+'/known_findings.jsonl'):
    l=l.strip()
    if l: d=json.loads(l); f.append('* %s %s %s: %s'%(d['status'],d['property'],d.get('commit',''),d['what']))
s=['| bug | property | needs | caught |','|---|---|---|---|']
res=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m)); s.append('| %s | %s | %s | %s |'%(n,d['property'],d['needs'],res.get(n,'?')))
t=open(V+'/DESIGN.md').read()
for k,v in (('PROPS',o),('FIXES',f),('SEEDS',s)):
    b='<!-- %s -->'%k; e='<!-- end %s -->'%k; body=b+'\n'+'\n'.join(v)+'\n'+e
    t=t.replace('@@%s@@'%k,body) if '@@%s@@'%k in t else re.sub(re.escape(b)+r'.*?'+re.escape(e),lambda m:body,t,flags=re.S)
open(V+'/DESIGN.md','w').write(t)
