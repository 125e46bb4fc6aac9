#!/usr/bin/env python3
"""Development aid, used by no check: makes the planted bugs of /verif/seeded from tools/seeds/*.py, confirms each
(demo quiet without it, builds, passes the stable tests, demo fails with it), and runs the checks of its property on it.

  seed.py make [ID...]     confirm in a scratch copy and write /verif/seeded/<id>/
  seed.py check [ID...]    run the property's quick check against each planted bug (scratch copy, own output directory)
"""
import sys,os,re,subprocess,json,shutil,glob,tempfile,time
from concurrent.futures import ThreadPoolExecutor
V='/verif'; SEEDS=[]
def seed(id,prop,edits,needs,breaks,demo=None,pkg=None,imports=(),sh=None,files=None):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,pkg=pkg,imports=imports,sh=sh,files=files or {}))
HELP={}
for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
    exec(compile(open(f).read(),f,'exec'))
def run(cmd,cwd=None,env=None,timeout=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,executable='/bin/bash')
    return p.returncode,p.stdout
ENV='. /opt/vp/env.sh; '
SH='''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
'''
SHT='''printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test %s-count=1 -vet=off -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
'''
def scratch(name):
    d='/tmp/seed/'+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/seed',exist_ok=True)
    subprocess.check_call(['git','clone','-q','/repo',d])
    return d
def apply_edits(s,d):
    for e in s['edits']:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p=os.path.join(d,f); t=open(p).read()
        c=t.count(old)
        if len(e)>3: # n-th occurrence
            i=-1
            for _ in range(n): i=t.find(old,i+1)
            assert i>=0,(s['id'],f,old)
            t=t[:i]+new+t[i+len(old):]
        else:
            assert c==1,(s['id'],f,old,c)
            t=t.replace(old,new)
        open(p,'w').write(t)
def write_demo(s,d):
    os.makedirs(d,exist_ok=True)
    first=s['breaks'].split('\n')[0]
    sh=SH%first
    if s['demo']:
        flags='-race ' if s.get('race') or '//RACE' in s['demo'] else ''
        sh+=SHT%(s['pkg'],flags,s['pkg'])
        body=s['demo']
        pkgname=HELP[s['pkg']]['package']
        h=HELP[s['pkg']]['helpers']
        imps=set(HELP[s['pkg']]['imports'])|set(s['imports'])
        src='package %s\n\nimport (\n%s)\n\n%s\n%s\n'%(pkgname,''.join('\t"%s"\n'%i for i in sorted(imps)),h,body)
        open(d+'/demo_test.go','w').write(src)
        run(ENV+'gofmt -w demo_test.go',cwd=d)
    else: sh+=s['sh'].strip()+'\n'
    for k,v in s['files'].items(): open(d+'/'+k,'w').write(v)
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
def make(s):
    id=s['id']; r=scratch('m_'+id); out='/tmp/seed/o_'+id
    shutil.rmtree(out,ignore_errors=True)
    try:
        write_demo(s,out)
        rc,o=run('bash %s/demo.sh'%out,cwd=r)
        if rc!=0: return id,'DEMO FAILS CLEAN\n'+o[-3000:]
        apply_edits(s,r)
        rc,o=run(ENV+'gofmt -l $(git ls-files "*.go"); go build ./... ',cwd=r)
        if rc!=0: return id,'BUILD FAILS\n'+o[-3000:]
        base=json.load(open('/opt/vp/BASELINE.json'))
        rc,o=run(ENV+'go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed/t_%s.log; python3 /opt/vp/results.py /tmp/seed/t_%s.json gojson:/tmp/seed/t_%s.log'%(id,id,id),cwd=r)
        res=json.load(open('/tmp/seed/t_%s.json'%id))
        bad=compare(base,res)
        if bad: return id,'TESTS FAIL: '+' '.join(bad[:8])
        rc,o=run('bash %s/demo.sh'%out,cwd=r)
        if rc==0: return id,'DEMO PASSES WITH BUG\n'+o[-2000:]
        rc2,diff=run('git diff',cwd=r)
        dst=V+'/seeded/'+id
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
        open(dst+'/patch.diff','w').write(diff)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(dst+'/meta.json','w'),indent=1)
        open(dst+'/meta.json','a').write('\n')
        return id,'ok ('+([l for l in o.strip().splitlines() if l.strip()]+['silent'])[0][:150]+')'
    finally:
        shutil.rmtree(r,ignore_errors=True); shutil.rmtree(out,ignore_errors=True)
        for x in ('/tmp/seed/t_%s.log'%id,'/tmp/seed/t_%s.json'%id):
            if os.path.exists(x): os.remove(x)
def compare(base,res):
    b=base.get('stable') or base.get('passed') or base
    p=res.get('passed') or res.get('pass') or res
    if isinstance(p,dict): p=[k for k,v in p.items() if v in ('pass','passed',True)]
    if isinstance(b,dict): b=list(b)
    p=set(p)
    return [x for x in b if x not in p]
def check(s,tier='quick',prop=None):
    id=s['id']; prop=prop or s['prop']; r=scratch('c_%s_%s'%(id,prop)); vd='/tmp/seed/v_%s_%s'%(id,prop)
    shutil.rmtree(vd,ignore_errors=True); os.makedirs(vd); shutil.copy(V+'/KNOWN_FINDINGS',vd)
    try:
        apply_edits(s,r); t=time.time()
        rc,o=run('bash %s/run.sh %s'%(V,prop),env=dict(VERIF_REPO=r,VERIF_DIR=vd,VERIF_SEED=os.environ.get('SEED','1'),VERIF_TIER=tier),timeout=1800)
        vio=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        t=time.time()-t
        if rc==1 and vio: 
            n=o.splitlines(); i=n.index(vio[0])
            return id,'caught by %s %.0fs: '%(prop,t)+' / '.join(n[max(0,i-3):i])[-260:]
        return id,'MISSED by %s rc=%d %.0fs '%(prop,rc,t)+o[-600:]
    finally:
        shutil.rmtree(r,ignore_errors=True); shutil.rmtree(vd,ignore_errors=True)
if __name__=='__main__':
    cmd=sys.argv[1]; ids=sys.argv[2:]
    assert len({s['id'] for s in SEEDS})==len(SEEDS)
    sel=[s for s in SEEDS if not ids or s['id'] in ids or s['prop'] in ids]
    if cmd=='make':
        if not ids: sel=[s for s in SEEDS if not os.path.exists(V+'/seeded/'+s['id']+'/meta.json')]
        with ThreadPoolExecutor(4) as ex:
            for id,m in ex.map(make,sel): print(id,m,flush=True)
    elif cmd=='check':
        with ThreadPoolExecutor(int(os.environ.get('J','1'))) as ex:
            for id,m in ex.map(check,sel): print(id,m,flush=True)
