#!/usr/bin/env python3
"""Development tool: which lines of the headers no driver ever reaches (clang coverage; templates nobody instantiates count too)."""
import os,subprocess,sys,glob,re,shutil,collections
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import lib,checks,random,seqgen,sumgen,bitgen,itergen,viewgen,refgen,callgen,agggen,cmpgen
COV=['-fprofile-instr-generate','-fcoverage-mapping','-mllvm','-runtime-counter-relocation']
lib.CC={1:['clang++','-O1','-g1']+COV,2:['clang++','-O1','-g1']+COV}
lib.WRAP=lib.WRAP+['-fprofile-instr-generate']
D='/tmp/cov'; shutil.rmtree(D,ignore_errors=True); os.makedirs(D+'/raw')
lib.build_dir=lambda: D
rng=random.Random(5)
exes={}
drv=lambda fam: os.path.join(D,'drv_%s'%fam)
real=subprocess.run
def single(fam):
    o=drv(fam+'_s'); lib.compile_many([(o,['clang++','-O1','-g1']+COV+['-std=c++17','-I'+lib.HARNESS,'-I'+lib.INC,os.path.join(lib.HARNESS,fam+'_drv.cpp'),'-ldl','-pthread'])]); return o
objs=[]
def go(exe,scripts,name):
    sf=D+'/%s.txt'%name; open(sf,'w').write('\n'.join(scripts)+'\n')
    r=subprocess.run([exe,sf,D+'/%s.out'%name],env=dict(os.environ,LLVM_PROFILE_FILE=D+'/raw/%s-%%m%%c.profraw'%name)); print(name,r.returncode,os.path.getsize(D+'/%s.out'%name),flush=True)
    objs.append(exe); objs.extend(glob.glob(os.path.join(os.path.dirname(exe),'mod_*.so')))
fams=sys.argv[1:] or 'seq sum bits iter view ref call agg cmp'.split()
if 'seq' in fams:
    e=checks.build_seq(checks.TYPES); go(e,[x for ty in checks.TYPES for f in (0,1,2) for x in seqgen.random_scripts(rng,ty,15 if ty=='ve' else 11,400,dict(alias=.3,fault=.5 if f else 0,faults=[1,2,3,4] if ty=='ve' else [1,3,4],huge=4),'%s%d'%(ty,f))],'seq')
if 'sum' in fams:
    e=checks.build_sum(checks.SUMS,130); go(e,[x for ty in checks.SUMS for x in sumgen.random_scripts(rng,ty,4,800,{},ty,faults=(1,2),pf=.3)],'sum')
if 'bits' in fams:
    e=checks.build_bits(); go(e,[x for n in bitgen.SIZES for x in bitgen.random_scripts(rng,n,0,80,{},'b%d_'%n)],'bits')
S=dict(iter=lambda:[x for ty in itergen.TYPES for x in itergen.random_scripts(rng,ty,100,ty)],view=lambda:[x for ty in viewgen.ARRAYS+['s'] for x in viewgen.random_scripts(rng,ty,300,{},ty)],
 ref=lambda:[x for ty in checks.REFS for x in refgen.random_scripts(rng,ty,300,{},ty)],call=lambda:[x for ty in callgen.SIGS for x in callgen.random_scripts(rng,ty,100,ty)],
 agg=lambda:[x for ty in checks.AGGS for x in agggen.random_scripts(rng,ty,0,200,{},ty)],cmp=lambda:[x for ty in cmpgen.TYPES for x in cmpgen.random_scripts(rng,ty,200,ty)])
for f in fams:
    if f in S: go(single(f),S[f](),f)
subprocess.run('llvm-profdata-18 merge -sparse %s/raw/*.profraw -o %s/all.prof'%(D,D),shell=True,check=True)
objs=[o for o in dict.fromkeys(objs)]
inc=sorted(glob.glob(lib.INC+'/ptl/*.hpp'))
r=subprocess.run(['llvm-cov-18','show',objs[0],*['-object='+o for o in objs[1:]],'-instr-profile='+D+'/all.prof','-show-instantiations=false',*inc],stdout=subprocess.PIPE,text=True)
open(D+'/show.txt','w').write(r.stdout)
cur=None
for l in r.stdout.split('\n'):
    if l.endswith('.hpp:'): cur=os.path.basename(l[:-1]); print('==',cur); continue
    m=re.match(r'\s*(\d+)\|\s*([\d.kM]*)\|(.*)',l)
    if m and (m.group(2)=='0' or (m.group(2)=='' and re.search(r'\{.*[;}]|;\s*$',m.group(3)) and not re.match(r'\s*(//|#|using|static_assert|friend|template|struct|class|static constexpr|public|private|\}|enum)',m.group(3)) and '=delete' not in m.group(3) and '=default' not in m.group(3))): print(cur,m.group(1),m.group(2) or '-',m.group(3)[:150])
