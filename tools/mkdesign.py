#!/usr/bin/env python3
# Appends the generated tables to the hand-written design.md, giving DESIGN.md.
import json,glob,os,collections
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,'..')
text=open(os.path.join(here,'design.md')).read()
by=collections.defaultdict(list)
res={}
p=os.path.join(here,'seeded_results.json')
if os.path.exists(p): res=json.load(open(p))
for m in sorted(glob.glob(os.path.join(root,'seeded','*','meta.json'))):
    j=json.load(open(m)); by[j['property']].append((os.path.basename(os.path.dirname(m)),j['needs']))
t='| property | planted bug | needs | caught by |\n|---|---|---|---|\n'
n=0
for k in sorted(by):
    for name,needs in by[k]:
        n+=1
        t+='| %s | %s | %s | %s |\n'%(k,name,needs.replace('|','/').replace('\n',' '),', '.join(res.get(name,['(not run)'])) )
text=text.replace('@@SEEDED@@',t).replace('@@NSEEDED@@',str(n))
fixes='\n'.join('- '+l[len('fixed: property='):].strip() for l in open(os.path.join(root,'KNOWN_FINDINGS')) if l.startswith('fixed:'))
text=text.replace('@@FIXES@@',fixes).replace('@@NFIXES@@',str(fixes.count('\n')+1))
open(os.path.join(root,'DESIGN.md'),'w').write(text)
