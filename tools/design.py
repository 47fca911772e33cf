#!/usr/bin/env python3
# design.py: DESIGN.md from tools/design.head, the properties, their rules (as the checks state them) and tools/design.methods
import json,re,glob,subprocess,os
here=os.path.dirname(os.path.abspath(__file__))+'/..'
out=open(here+'/tools/design.head').read()
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
meth={}
cur=None
for l in open(here+'/tools/design.methods'):
    m=re.match(r'^## (C\d\d)',l)
    if m: cur=m.group(1); meth[cur]=''
    elif cur: meth[cur]+=l
rules={}
for f in sorted(glob.glob(here+'/gcheck/*.go')):
    cur=None
    for l in open(f):
        m=re.match(r'^func check(C\d\d)\(',l)
        if m: cur=m.group(1)
        m=re.match(r'^\tr\.rule\("([^"]*)", "([^"]*)", \d+\)',l)
        if m and cur: rules.setdefault(cur,[]).append(dict(name=m.group(1),text=m.group(2)))
na=json.load(open(here+'/tools/na.json'))
seeds={}
for f in sorted(glob.glob(here+'/seeded/*/meta.json')):
    j=json.load(open(f)); seeds.setdefault(j['property'],[]).append((os.path.basename(os.path.dirname(f)),j))
fixed={}
for l in open(here+'/known-findings.txt'):
    m=re.match(r'^fixed: property=(C\d\d) (\w+) (.*)',l)
    if m: fixed.setdefault(m.group(1),[]).append((m.group(2),m.group(3)))
out+='\n## Property by property\n'
for p in props:
    i=p['id']
    out+=f"\n### {i} {p['title']}\n\n"
    if i in na:
        out+='Not applicable: '+na[i]+'\n'; continue
    out+=meth.get(i,'').strip()+'\n\n'
    for r in rules.get(i,[]):
        out+=f"- `{r['name']}`: {r['text']}.\n"
    if i in seeds:
        out+='\nPlanted: '+'; '.join(f"{n} ({j['what_it_breaks'].strip().rstrip('.')})" for n,j in seeds[i])+'.\n'
    if i in fixed:
        out+='\nRepaired in /repo: '+'; '.join(f'{w} ({c})' for c,w in fixed[i])+'.\n'
out+=open(here+'/tools/design.tail').read()
open(here+'/DESIGN.md','w').write(out)
