"""Build, driving, model checking and trace validation; shared by all checks."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('PTL_REPO','/repo')
INC=os.path.join(REPO,'inc')
HARNESS=os.path.join(ROOT,'harness'); SPEC=os.path.join(ROOT,'spec')
BUILD=os.path.join(ROOT,'build'); OUT=os.path.join(ROOT,'out')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
TIER=os.environ.get('VERIF_TIER','quick')
NCPU=os.cpu_count() or 4
WRAPPED='malloc calloc realloc free aligned_alloc posix_memalign _Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZnwmSt11align_val_tRKSt9nothrow_t _ZnamSt11align_val_tRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t _ZdlPvSt11align_val_t _ZdaPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvmSt11align_val_t _ZdlPvSt11align_val_tRKSt9nothrow_t _ZdaPvSt11align_val_tRKSt9nothrow_t'.split()
WRAP=['-Wl,--wrap='+s for s in WRAPPED]
T0=time.time()
def log(*a): print('[%6.1fs]'%(time.time()-T0),*a,file=sys.stderr,flush=True)

class BuildError(Exception): pass
class ToolError(Exception): pass
class Found(Exception):
    """a confirmed violation"""
    def __init__(self,what,payload): super().__init__(what); self.what=what; self.payload=payload

# ------------------------------------------------------------------ building
def _hash_tree():
    h=hashlib.sha256()
    for base in (INC,HARNESS):
        for d,ds,fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p=os.path.join(d,f); h.update(p.encode()+b'\0'); h.update(open(p,'rb').read()); h.update(b'\0')
    h.update(open(os.path.abspath(__file__),'rb').read())
    return h.hexdigest()
_tree=None
def build_dir():
    global _tree
    if _tree is None: _tree=_hash_tree()
    d=os.path.join(BUILD,_tree[:20]); os.makedirs(d,exist_ok=True)
    if os.path.isdir(BUILD):   # drop stale builds
        olds=sorted((x for x in os.listdir(BUILD) if len(x)==20 and x!=_tree[:20]),key=lambda x:os.path.getmtime(os.path.join(BUILD,x)))
        for x in olds[:-3]: shutil.rmtree(os.path.join(BUILD,x),ignore_errors=True)
    return d
def run(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**kw)
CC={1:['g++','-O2','-g'],2:['clang++','-O1','-g']}
COMMON=['-std=c++17','-fPIC','-fvisibility=hidden','-I'+INC,'-I'+HARNESS]
_slots=threading.BoundedSemaphore(NCPU)
def together(*builds):
    """runs several builds at once; -> their results"""
    with cf.ThreadPoolExecutor(len(builds)) as ex: return [f.result() for f in [ex.submit(b) for b in builds]]
def compile_many(jobs):
    """jobs: list of (output, command); existing outputs are kept"""
    todo=[(o,c) for o,c in jobs if not os.path.exists(o)]
    def one(j):
        o,c=j
        t=o+'.tmp%d_%d'%(os.getpid(),threading.get_ident())
        with _slots:
            if os.path.exists(o): return
            r=run(c+['-o',t])
        if r.returncode:
            if os.path.exists(t): os.unlink(t)
            raise BuildError(' '.join(c)+'\n'+r.stdout[-6000:])
        os.replace(t,o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for _ in ex.map(one,todo): pass
def toolchain_ok():
    """can the compilers build anything at all (so that a failing harness is the library's doing)?"""
    d=build_dir(); src=os.path.join(d,'probe%d.cpp'%os.getpid())
    open(src,'w').write('#include <vector>\n#include <string>\n#include <iostream>\nint main() { std::vector<std::string> v{"a"}; std::cout << v[0]; }\n')
    try:
        return all(run(CC[i]+['-std=c++17',src,'-o',src+'.x']).returncode==0 for i in CC)
    finally:
        for p in (src,src+'.x'):
            if os.path.exists(p): os.unlink(p)
TSAN=['clang++','-O1','-g1','-fsanitize=thread','-DCORE_THREADS','-pthread']
def build(family,units,driver=True,extra=(),threads=False):
    """builds module a (g++) and b (clang++) of a family and its driver.
    units: list of (source, tag, defines); threads: clang++ with the race detector, the driver running several threads"""
    d=build_dir(); jobs=[]; objs={1:[],2:[]}; z='t' if threads else ''
    cs={1:TSAN,2:TSAN} if threads else CC
    for m,cc in cs.items():
        for src,tag,defs in list(units)+[('core_modrt.cpp','rt',[])]:
            o=os.path.join(d,'%s%s_%d_%s.o'%(family if tag!='rt' else 'core',z,m,tag)); objs[m].append(o)
            jobs.append((o,cc+COMMON+['-DMODULE_ID=%d'%m]+list(defs)+['-c',os.path.join(HARNESS,src)]))
    exe=os.path.join(d,'drv_'+family+z)
    if driver: jobs.append((exe,(TSAN if threads else ['g++','-g','-O1'])+['-std=c++17','-rdynamic',os.path.join(HARNESS,family+'_drv.cpp'),'-I'+HARNESS,'-I'+INC,'-ldl']+list(extra)))
    compile_many(jobs)
    links=[]
    tagset=hashlib.sha256(repr([u[1] for u in units]).encode()).hexdigest()[:8]
    sub=os.path.join(d,family+z+'-'+tagset); os.makedirs(sub,exist_ok=True)
    for m,cc in cs.items():
        links.append((os.path.join(sub,'mod_%s.so'%'ab'[m-1]),[cc[0],'-shared','-Wl,-Bsymbolic','-Wl,-z,now']+WRAP+objs[m]))
    compile_many(links)
    e2=os.path.join(sub,'drv_'+family)
    if driver and not os.path.exists(e2): t=e2+'.tmp%d'%threading.get_ident(); shutil.copy(exe,t); os.replace(t,e2)
    return e2
def threads(family,extra=()):
    d=build_dir(); o=os.path.join(d,'drv_%s_t'%family)
    compile_many([(o,TSAN+['-std=c++17','-I'+HARNESS,'-I'+INC,os.path.join(HARNESS,family+'_drv.cpp'),'-ldl',*extra])])
    return o
def single(family,extra=()):
    """a driver without modules, twice: g++, and clang++ with its sanitizers (reported as crashes; without alignment: optional, variant and tuple are packed by design)"""
    d=build_dir(); r=[]; jobs=[]
    src=os.path.join(HARNESS,family+'_drv.cpp')
    for tag,cc in (('g',['g++','-O2','-g1']),('c',['clang++','-O1','-g1','-fsanitize=address,undefined','-fno-sanitize-recover=all','-fno-sanitize=alignment,function','-fno-omit-frame-pointer'])):
        o=os.path.join(d,'drv_%s_%s'%(family,tag)); r.append(o)
        jobs.append((o,cc+['-std=c++17','-I'+HARNESS,'-I'+INC,src,'-ldl','-pthread',*extra]))
    compile_many(jobs)
    return r

# ------------------------------------------------------------------ driving
def _cost(s): return s.count('\n')+1
def drive(exe,scripts,work,name,timeout=300,shards=None):
    """scripts: list of texts, each starting with 'S id ...'.  Returns the trace file."""
    shards=shards or min(NCPU,max(1,len(scripts)//50))
    parts=[scripts[k::shards] for k in range(shards)]
    outs=[]
    def one(k):
        sf=os.path.join(work,'%s.%d.txt'%(name,k)); of=os.path.join(work,'%s.%d.ndjson'%(name,k))
        open(sf,'w').write('\n'.join(parts[k])+'\n')
        try: r=run([exe,sf,of],timeout=timeout)
        except subprocess.TimeoutExpired: raise ToolError('driver %s timed out'%exe)
        if r.returncode: raise ToolError('driver %s failed (%d): %s'%(exe,r.returncode,r.stdout[-2000:]))
        os.unlink(sf)
        return of
    with cf.ThreadPoolExecutor(shards) as ex: outs=list(ex.map(one,range(shards)))
    return outs

# ------------------------------------------------------------------ TLC
def tlc(module,cfg,work,workers=None,env=None,timeout=800,args=()):
    os.makedirs(work,exist_ok=True)
    d=os.path.join(work,'tlc-%s-%d'%(module,int(time.time()*1e6)))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'): shutil.copy(os.path.join(SPEC,f),d)
    open(os.path.join(d,module+'.cfg'),'w').write(cfg)
    e=dict(os.environ); e.update(env or {})
    e['JAVA_TOOL_OPTIONS']=(e.get('JAVA_TOOL_OPTIONS','')+' -Xss64m -Xmx3g -XX:ParallelGCThreads=2 -Djava.io.tmpdir='+d).strip()
    try:
        r=run(['tlc','-noGenerateSpecTE','-workers',str(workers or NCPU),'-metadir',os.path.join(d,'states'),'-config',module+'.cfg',*args,module+'.tla'],cwd=d,env=e,timeout=timeout)
        out=r.stdout; rc=r.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on '+module)
    finally:
        shutil.rmtree(d,ignore_errors=True)
    return rc,out
def tlc_stats(out):
    m=re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found',out)
    return (int(m.group(1).replace(',','')),int(m.group(2).replace(',',''))) if m else (0,0)
def cfg_value(v):
    if isinstance(v,bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v,int): return str(v)
    if isinstance(v,str): return '"%s"'%v
    if isinstance(v,(set,frozenset,list,tuple)): return '{'+', '.join(cfg_value(x) for x in sorted(v,key=str))+'}'
    raise TypeError(v)
def mc(module,consts,work,invariants=(),properties=(),extra='',workers=None,deadlock=False,timeout=800):
    """model checks a specification; a failure here is an error of the specification itself"""
    cfg='SPECIFICATION Spec\n'+('' if deadlock else 'CHECK_DEADLOCK FALSE\n')
    if consts: cfg+='CONSTANTS\n'+''.join(' %s = %s\n'%(k,cfg_value(v)) for k,v in consts.items())
    if invariants: cfg+='INVARIANTS '+' '.join(invariants)+'\n'
    if properties: cfg+='PROPERTIES '+' '.join(properties)+'\n'
    cfg+=extra
    rc,out=tlc(module,cfg,work,workers=workers,timeout=timeout)
    if 'Model checking completed. No error has been found' not in out:
        raise ToolError('specification %s failed:\n%s%s'%(module,''.join(l+'\n' for l in out.split('\n') if 'is violated' in l),'\n'.join(l for l in out.split('\n') if not l.startswith(('"@','Parsing','Semantic','Linting')))[-4000:]))
    gen,dist=tlc_stats(out)
    rows=[json.loads(json.loads(l)[1:]) for l in out.split('\n') if l.startswith('"@')]
    return dict(module=module,generated=gen,distinct=dist,rows=rows)

def validate_once(module,consts,trace,work,timeout=800,workers=2):
    """-> (ok, {id: rule}, generated, distinct, raw)"""
    cfg='SPECIFICATION Spec\n'
    if consts: cfg+='CONSTANTS\n'+''.join(' %s = %s\n'%(k,cfg_value(v)) for k,v in consts.items())
    rc,out=tlc(module,cfg,work,env={'TRACE':trace},timeout=timeout,workers=workers)
    gen,dist=tlc_stats(out)
    if 'Model checking completed. No error has been found' in out: return True,{},gen,dist,out
    if re.search(r'OutOfMemoryError|StackOverflowError|Java heap space|No space left',out): raise ToolError('TLC ran out of resources on '+module+': '+out[-1500:])
    rej={}
    for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>',out): rej.setdefault(m.group(1),(int(m.group(2)),m.group(3)))
    bad_sc=None
    for m in re.finditer(r'/\\ sc = (\d+)',out): bad_sc=int(m.group(1))
    return False,dict(rej=rej,sc=bad_sc),gen,dist,out
def read_trace(paths):
    for p in paths:
        with open(p) as f:
            for line in f:
                if line.strip(): yield line
