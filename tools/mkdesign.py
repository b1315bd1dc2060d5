#!/usr/bin/env python3
# writes DESIGN.md: the prose below, the bounds the harness states (harness -list, given as argument or
# stdin), and the planted bugs (seeded/*/meta.json, seeded/results.txt).
import json,sys,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bounds={}
for l in open(sys.argv[1]):
    m=re.match(r'(\w+) (\S+) shards=\d+ thorough=(\w+): (.*)',l)
    if m: bounds.setdefault(m[1],[]).append((m[2],m[3]=='true',m[4]))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
walls={}
try:
    for l in open(V+'/tools/walls.txt'):
        p,w=l.split(); walls[p]=w
except OSError: pass
prose=open(V+'/tools/design_head.md').read()
per=dict(re.findall(r'^## (\w+)\n(.*?)(?=^## |\Z)',open(V+'/tools/design_props.md').read(),re.S|re.M))
out=[prose.rstrip(),'','# The properties, one by one','',
 'For each: what decides it, against which oracle, why unit tests cannot; then the scenarios with the bounds',
 'inside which everything is enumerated (these lines come from the harness itself and are repeated in the',
 'evidence together with the counts of each run), and the time of the quick check on 8 cores.','']
for p in props:
    i=p['id']
    out+=['## %s — %s'%(i,p['title']),'',per.get(i,'').strip(),'']
    for n,t,b in bounds.get(i,[]):
        out.append('- `%s`%s: %s'%(n,' (thorough only)' if t else '',b))
    if i in walls: out+=['','Quick check: about %s s.'%walls[i]]
    out.append('')
out+=['# Planted bugs and what catches them','',
 'Each lives in `seeded/<id>` with a demonstration; none is ever committed to /repo. "Caught by" is the scenario',
 'that reported it in the quick tier. The ones marked "missed at first" led to a stronger check.','',
 '| bug | property | needs | caught by |','|---|---|---|---|']
res={}
if os.path.exists(V+'/tools/seedresults.txt'):
    for l in open(V+'/tools/seedresults.txt'):
        a=l.rstrip('\n').split(None,1)
        if len(a)==2: res[a[0]]=a[1]
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'],res.get(i,'?')))
out.append('')
tail=V+'/tools/design_tail.md'
if os.path.exists(tail): out.append(open(tail).read())
open(V+'/DESIGN.md','w').write('\n'.join(out))
