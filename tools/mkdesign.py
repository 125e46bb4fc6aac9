#!/usr/bin/env python3
"""Rewrites section 7 (planted bugs) of /verif/DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json,glob,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
extra=json.load(open(V+'/tools/seed_notes.json')) if os.path.exists(V+'/tools/seed_notes.json') else {}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; d=json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |'%(i,d['what_it_breaks'].split('\n')[0],d['needs'],d['property'],extra.get(i,'')))
s=open(V+'/DESIGN.md').read()
sec='''## 7. Planted bugs

Kept in `seeded/`, made and confirmed by `tools/seed.py make` (definitions in `tools/seeds/`): builds, passes the stable tests, the demonstration is
quiet without and fails with it. `tools/seed.py check` runs the property's quick check at `VERIF_SEED=1` against each. All
%d are caught by the quick check of their own property (column "caught by"); the last column says what had to be
strengthened first, where something had to. None is reported by crash alone unless its effect is one.

| id | what it breaks | needs | caught by | strengthened first |
|----|----------------|-------|-----------|--------------------|
%s

'''%(len(rows),'\n'.join(rows))
if '## 7. ' in s:
    s=re.sub(r'## 7\. .*?(?=## 8\. )',lambda m:sec,s,flags=re.S)
else:
    s=s.replace('## 8. ',sec+'## 8. ')
E=os.environ.get('EVIDENCE') # a directory with the evidence of quick runs: what they took
for f in sorted(glob.glob(E+'/*.json')) if E else []:
    d=json.load(open(f)); i=f.split('/')[-1][:-5]
    s=re.sub(r'(?m)^(\| %s \|.*\| )\d+, \d+ s \|$'%i,lambda m:m.group(1)+'%d, %d s |'%(d['coverage'].get('cases',8),max(1,round(d['wall_s']))),s)
open(V+'/DESIGN.md','w').write(s)
