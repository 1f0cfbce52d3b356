"""Development tool: makes and vets planted bugs.  plant.make(id, property, file, [(old,new)...], demo, needs, breaks)
writes seeded/<id>, then confirms: applies, builds, 71 tests pass, demo 0 without and nonzero with it;
finally runs the property's own check on it.  /repo is restored afterwards."""
import json,os,subprocess,sys,time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO='/repo'
def sh(cmd,**kw): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**kw)
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
%s -std=c++17 -O1 %s -I"$PWD/inc" "$here/demo.cpp" -o "$tmp/demo" %s || exit 98
cd "$tmp" && timeout 60 ./demo
'''
PRE='''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s (line %d)\\n", #x, __LINE__); std::exit(1); } } while(0)
'''
def clean(): return sh('git -C %s status --porcelain'%REPO).stdout.strip()==''
def baseline():
    return sh('git -C %s rev-list --max-parents=0 HEAD'%REPO).stdout.strip()
def make(id,prop,file,edits,demo,needs,breaks,cxx='g++',flags='',libs='',check=True,only=None):
    if only and id not in only: return
    d=os.path.join(ROOT,'seeded',id); os.makedirs(d,exist_ok=True)
    assert clean(),'repo not clean'
    files=[file] if isinstance(file,str) else file
    try:
        for e in edits:
            f,old,new=e if len(e)==3 else (files[0],*e)
            p=os.path.join(REPO,'inc/ptl',f); s=open(p).read()
            if s.count(old)!=1: print(id,'EDIT MATCHES',s.count(old),'TIMES:',old); return
            open(p,'w').write(s.replace(old,new))
        open(d+'/patch.diff','w').write(sh('git -C %s diff'%REPO).stdout)
    finally: sh('git -C %s checkout -- .'%REPO)
    open(d+'/demo.sh','w').write(DEMO%(cxx,flags,libs)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(PRE+demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    return vet(id,check)
def own_lines(id):
    """does the patch touch lines which one of the fix commits wrote?"""
    import re
    base=sh('git -C %s log --format=%%H --grep=^fix: --invert-grep -1'%REPO).stdout.strip()
    cur=None; bad=[]
    for l in open(os.path.join(ROOT,'seeded',id,'patch.diff')):
        if l.startswith('--- a/'): cur=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l[0]=='-':
            b=sh('git -C %s blame -s -l -L %d,%d HEAD -- %s'%(REPO,n,n,cur)).stdout.split()[0].lstrip('^')
            bad.append(b[:40])
            n+=1
        elif l[0]==' ': n+=1
    fixes=set(sh('git -C %s log --format=%%H --grep=^fix:'%REPO).stdout.split())
    own=[b for b in bad if any(f.startswith(b) for f in fixes)]
    return len(own),len(bad)
def vet(id,check=True,props=None):
    d=os.path.join(ROOT,'seeded',id); meta=json.load(open(d+'/meta.json'))
    assert clean(),'repo not clean'
    o,n=own_lines(id)
    msg='%-28s %s'%(id,meta['property'])
    if o: msg+=' OWN-LINES %d/%d'%(o,n)
    r=sh('bash %s/demo.sh'%d,cwd=REPO)
    if r.returncode: print(msg,'DEMO FAILS ON CLEAN TREE',r.returncode,r.stdout[-1500:]); return
    try:
        r=sh('git -C %s apply %s/patch.diff'%(REPO,d))
        if r.returncode: print(msg,'DOES NOT APPLY'); return
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: print(msg,'DOES NOT BUILD',b.stdout[-1500:]); return
        t=sh('bash /opt/vp/test.sh /tmp/plant.json'); j=json.load(open('/tmp/plant.json'))
        if j['failed'] if isinstance(j['failed'],int) else len(j['failed']): print(msg,'TESTS FAIL',j['failed']); return
        r=sh('bash %s/demo.sh'%d,cwd=REPO)
        if r.returncode in(0,98,99): print(msg,'DEMO DOES NOT FAIL',r.returncode,r.stdout[-1500:]); return
        dm=r.stdout.strip().split('\n')[-1][:70]
        res=''
        if check:
            for p in props or [meta['property']]:
                t0=time.time()
                r=sh('python3 tools/checks.py %s'%p,cwd=ROOT)
                v='VIOLATION property=%s'%p in r.stdout
                rule=[l for l in r.stdout.split('\n') if l.startswith('rule refused')]
                res+=' | %s %s (%ds) %s'%(p,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,time.time()-t0,rule[0][14:90] if rule else r.stdout[-1500:] if r.returncode and not v else '')
        print(msg,'ok; demo:',dm,res,flush=True)
    finally: sh('git -C %s checkout -- .'%REPO)
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT,'seeded')))
    for i in ids:
        if '=' in i: continue
        vet(i,True,[a[6:] for a in sys.argv if a.startswith('props=')] or None)
    sh('bash /opt/vp/build.sh')
