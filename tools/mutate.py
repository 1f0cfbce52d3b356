#!/usr/bin/env python3
"""Development tool: small mechanical mutations of the headers, to find what the checks overlook.
mutate.py WORKER NWORKERS SEED MAX [header...]; works on copies below /tmp/mut, logs to /tmp/mut/log.WORKER"""
import os,random,re,shutil,subprocess,sys,time,json,hashlib
W,N,SEED,MAX=map(int,sys.argv[1:5]); HEADERS=sys.argv[5:]
BASE='/tmp/mut/w%d'%W; REPO=BASE+'/repo'; VER=BASE+'/verif'
CH=dict(string='C01 C03 C02 C08 C09 C07 C11 C17 C21 C22 C16 C10',vector='C04 C05 C02 C06 C07 C08 C09 C11 C17 C21 C22 C10',bitset='C15 C16 C21 C11 C17 C22 C10',
 optional='C12 C07 C06 C21 C17 C09 C11 C10',variant='C13 C14 C06 C07 C21 C17 C11 C10',array='C23 C17 C21 C22 C11 C10',tuple='C23 C17 C11 C10',array_ref='C18 C21 C22 C10',
 string_ref='C18 C17 C16 C21 C22 C10',optional_ref='C19 C21 C10',variant_ref='C19 C14 C21 C10',function_ref='C20 C10')
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
RULES=[(r' < ',[' <= ',' > ']),(r' <= ',[' < ']),(r' > ',[' >= ',' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),
 (r' \+ ',[' - ']),(r' - ',[' + ']),(r' \+ 1\b',['']),(r' - 1\b',['']),(r'\+\+',['--']),(r'--(?=\w)',['++']),(r' \+= ',[' -= ']),(r' -= ',[' += ']),(r' \* ',[' + ']),(r' / ',[' * ']),(r' % ',[' / ']),
 (r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'\{0\}',['{1}']),(r'\{1\}',['{0}']),(r'\bstd::move\((\w+)\)',[r'\1']),(r'\bstd::forward<\w+>\((\w+)\)',[r'\1']),
 (r'(?<=[ (])!(?=\w)',['']),(r'if\((?!constexpr)',['if(!(']),(r'\bother\.',['this->']),(r'\bfirst\b',['last']),(r'\blast\b',['first']),(r'\bbegin\(\)',['end()']),(r'\bend\(\)',['begin()']),
 (r'\bsize\(\)',['capacity()','max_size()']),(r'\bcapacity\(\)',['size()']),(r'\blhs\b',['rhs']),(r'\brhs\b',['lhs']),(r' << ',[' >> ']),(r' >> ',[' << ']),(r' & ',[' | ']),(r' \| ',[' & ']),(r' \^ ',[' | ']),
 (r'\bstd::max\b',['std::min']),(r'\bstd::min\b',['std::max']),(r'\b8\b',['7']),(r'\b22\b',['21','23']),(r'\b2\b',['3']),(r'\bcount\b',['count + 1']),(r'\b(\w+) \? (.+?) : (.+?)(?=[;,)])',[r'\1 ? \3 : \2']),
 (r'\bstd::copy_backward\b',['std::copy']),(r'\bstd::uninitialized_move\b',['std::uninitialized_copy']),(r'\bnoexcept\b',['']),(r'\bconst noexcept\b',['const'])]
def mutants(h):
    src=open('/repo/inc/ptl/%s.hpp'%h).read().split('\n'); out=[]
    for n,l in enumerate(src):
        s=l.strip()
        if not s or s.startswith(('//','#','static_assert','template','using','*','/*','friend class')): continue
        code=l.split('//')[0]
        for pat,reps in RULES:
            if 'noexcept' in pat: continue
            for m in re.finditer(pat,code):
                for r in reps:
                    new=code[:m.start()]+m.expand(r)+code[m.end():]
                    if pat.startswith('if'): # close the negation
                        d=0; k=m.end()
                        for k in range(m.end(),len(code)):
                            if code[k]=='(': d+=1
                            if code[k]==')':
                                if d==0: break
                                d-=1
                        else: continue
                        new=code[:m.start()]+'if(!('+code[m.end():k]+'))'+code[k+1:]
                    if new!=code: out.append((h,n,new))
        if re.match(r'^\t\t+[^{}]*;\s*$',code) and not re.match(r'^\s*(return|using|auto|const|static|typename|template|public|private|throw)\b',code) and '=delete' not in code and '=default' not in code:
            out.append((h,n,re.match(r'^\t*',code).group(0)+';'))
        if re.match(r'^\s*if\(.*\).*;\s*$',code) : out.append((h,n,'\t\t;'))
    return out
os.makedirs(BASE,exist_ok=True)
shutil.rmtree(REPO,ignore_errors=True); shutil.rmtree(VER,ignore_errors=True)
sh('cp -a /repo %s; mkdir %s; cd /verif; git archive HEAD | tar x -C %s; rm -rf %s/_build %s/seeded'%(REPO,VER,VER,REPO,VER))
p=VER+'/tools/checks.py'; s=open(p).read()
s=s.replace('def scale(c,q,t): return t if c.thorough else q','def scale(c,q,t): return q if not os.environ.get("LITE") or not isinstance(q,int) else max(1,q//4)'); open(p,'w').write(s)
# the test binary, without cmake: objects for a precompiled main are reused
import glob
tests=sorted(glob.glob(REPO+'/test/**/*.cpp',recursive=True))
allm=[]
for h in HEADERS or CH: allm+=mutants(h)
random.Random(SEED).shuffle(allm)
mine=allm[W::N][:MAX]
log=open('/tmp/mut/log.%d'%W,'a')
def say(*a): print(time.strftime('%H:%M:%S'),*a,file=log,flush=True)
say('total',len(allm),'mine',len(mine),'tests',len(tests))
CM='cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPTL_BUILD_TESTS=ON && ninja -j3 -C %s/_build'%(REPO,REPO,REPO)
print(sh(CM).stdout[-300:],file=log)
for h,n,new in mine:
    f=REPO+'/inc/ptl/%s.hpp'%h; orig=open('/repo/inc/ptl/%s.hpp'%h).read(); ls=orig.split('\n'); old=ls[n]
    ls[n]=new; open(f,'w').write('\n'.join(ls))
    tag='%s:%d | %s | => | %s'%(h,n+1,old.strip(),new.strip())
    try:
        r=sh('ninja -j3 -C %s/_build'%REPO)
        if r.returncode: say('NOBUILD',tag); continue
        try: r=sh('./test-ptl',cwd=REPO+'/_build',timeout=20)
        except subprocess.TimeoutExpired: say('TESTS(hang)',tag); continue
        if r.returncode: say('TESTS',tag); continue
        done=False
        for lite in (1,0):
            for c in CH[h].split():
                env=dict(os.environ,PTL_REPO=REPO)
                if lite: env['LITE']='1'
                t=time.time()
                try: r=sh('python3 tools/checks.py '+c,cwd=VER,env=env,timeout=1500)
                except subprocess.TimeoutExpired: say('TIMEOUT',c,tag); done=True; break
                if r.returncode==1:
                    rule=[x for x in r.stdout.split('\n') if x.startswith('rule refused')]
                    say('KILLED',c,'lite' if lite else 'full','%ds'%(time.time()-t),tag,'|',rule[0][13:100] if rule else ''); done=True; break
                if r.returncode: say('ERROR',c,tag,r.stdout[-600:].replace('\n',' / ')); done=True; break
            if done: break
        if not done: say('SURVIVED',tag)
    finally: open(f,'w').write(orig)
say('finished')
