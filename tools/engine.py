"""Runs one property check: model checking, conformance, evidence, verdict."""
import concurrent.futures as cf, json, os, random, shutil, sys, time, traceback
import lib
from lib import log, Found, ToolError, BuildError

class Check:
    def __init__(self,prop):
        self.prop=prop
        self.work=os.path.join(lib.BUILD,'run-%s-%d'%(prop,os.getpid()))
        shutil.rmtree(self.work,ignore_errors=True); os.makedirs(self.work)
        self.rng=random.Random('%s/%d'%(prop,lib.SEED))
        self.thorough=lib.TIER=='thorough'
        self.mc_runs=[]; self.conf=[]; self.samples=[]; self.flakes=[]; self.notes=[]; self.memo={}
        self.t0=time.time()
    # ---- model checking of the specification
    def mc(self,module,consts,label=None,**kw):
        key=(module,repr(sorted(consts.items())),repr(sorted(kw.items())))
        if key in self.memo: return self.memo[key]
        log('model checking',module,label or '')
        r=lib.mc(module,consts,self.work,**kw)
        self.mc_runs.append(dict(module=module,label=label or module,constants={k:str(v) for k,v in consts.items()},states_generated=r['generated'],distinct_states=r['distinct'],requests_emitted=len(r['rows'])))
        self.memo[key]=r['rows']
        return r['rows']
    def mc_fails(self,module,consts,what,label,**kw):
        """a variant of the specification with a defect built in has to be refused (the property is not vacuous)"""
        try: lib.mc(module,consts,self.work,**kw)
        except ToolError as t:
            if 'is violated' not in str(t) or what not in str(t): raise
            self.notes.append('%s, %s: %s is violated, as it has to be'%(module,label,what)); return
        raise ToolError('%s, %s: %s holds although the defect is built in'%(module,label,what))
    # ---- conformance: drive the real code, validate the recorded traces
    def conform(self,label,spec,consts,exe,scripts,drive_timeout=400,shards=None):
        if not scripts: return
        log('conformance',label,len(scripts),'scripts')
        shards=shards or min(8,max(1,len(scripts)//40))
        parts=[scripts[k::shards] for k in range(shards)]
        tag='%s%d'%(''.join(c if c.isalnum() else '_' for c in label),len(self.conf))
        def one(k): return self._shard(tag+'.%d'%k,spec,consts,exe,parts[k],drive_timeout)
        with cf.ThreadPoolExecutor(min(shards,lib.NCPU)) as ex: res=list(ex.map(one,range(shards)))
        tot=dict(label=label,spec=spec,constants={k:str(v) for k,v in consts.items()},scripts=len(scripts),events=sum(r['events'] for r in res),accepted=sum(r['ok'] for r in res),
                 states=sum(r['dist'] for r in res),transitions=sum(r['gen'] for r in res),ops={},exceptions={})
        for r in res:
            for k,v in r['ops'].items(): tot['ops'][k]=tot['ops'].get(k,0)+v
            for k,v in r['exc'].items(): tot['exceptions'][k]=tot['exceptions'].get(k,0)+v
        self.conf.append(tot)
        rr=random.Random(len(scripts)); s=rr.choice(scripts)
        self.samples.append(dict(label=label,script=s[:700]))
        log('  ',tot['events'],'events,',tot['states'],'states')
    def _trace(self,tag,exe,scripts,timeout):
        sf=os.path.join(self.work,tag+'.txt'); of=os.path.join(self.work,tag+'.ndjson')
        open(sf,'w').write('\n'.join(scripts)+'\n')
        try: r=lib.run([exe,sf,of],timeout=timeout)
        except lib.subprocess.TimeoutExpired: raise ToolError('driver %s timed out'%exe)
        if r.returncode: raise ToolError('driver %s failed (%d): %s'%(exe,r.returncode,r.stdout[-2000:]))
        os.unlink(sf)
        return of
    def _shard(self,tag,spec,consts,exe,scripts,timeout):
        of=self._trace(tag,exe,scripts,timeout)
        events=0; ops={}; exc={}
        for line in lib.read_trace([of]):
            t=json.loads(line)
            events+=len(t['ev'])
            for e in t['ev']:
                k=e['op']+('/'+e['ov'] if e.get('ov') else ''); ops[k]=ops.get(k,0)+1
                if e.get('x'): exc[e['x']]=exc.get(e['x'],0)+1
        by_id={s.split(None,2)[1]:s for s in scripts}
        dropped=set(); gen=dist=0
        for attempt in range(4):
            lines=[l for l in lib.read_trace([of]) if json.loads(l)['id'] not in dropped]
            files=[]; cur=None; size=0     # pieces of limited size
            for l in lines:
                if cur is None or size+len(l)>24_000_000:
                    files.append([]); cur=files[-1]; size=0
                cur.append(l); size+=len(l)
            bad=[]
            gen=dist=0
            for n,ls in enumerate(files):
                p=of+'.part%d'%n; open(p,'w').writelines(ls)
                ok,info,g,d,raw=lib.validate_once(spec,consts,p,self.work)
                os.unlink(p); gen+=g; dist+=d
                if ok: continue
                ids=list(info['rej'])
                if info['sc'] and info['sc']<=len(ls): ids.append(json.loads(ls[info['sc']-1])['id'])
                if not ids and len(ls)>1:   # no hint which script: an evaluation error without a state
                    ids=self._bisect(spec,consts,ls,of)
                if not ids and len(ls)==1: ids=[json.loads(ls[0])['id']]
                bad.append((ids,info,raw,ls))
                break
            if not bad: break
            ids,info,raw,ls=bad[0]
            if not ids: raise ToolError('TLC failed without a rejected script:\n'+raw[-3000:])
            again=[]
            for i in list(dict.fromkeys(ids))[:3]:
                f=self._confirm(tag,spec,consts,exe,[by_id[i]],timeout)
                if f: again.append(f)
            if not again:     # maybe it needs the preceding scripts of the same process
                f=self._confirm(tag,spec,consts,exe,scripts,timeout)
                if f: again.append(f)
            if again: raise Found(again[0]['why'],again[0])
            self.flakes.append(dict(label=tag,ids=ids)); dropped|=set(ids)
            log('unconfirmed rejection of',ids)
        else: raise ToolError('rejections do not repeat: %s'%self.flakes)
        os.unlink(of)
        return dict(events=events,ops=ops,exc=exc,ok=len(scripts)-len(dropped),gen=gen,dist=dist)
    def _bisect(self,spec,consts,ls,of):
        while len(ls)>1:
            h=ls[:len(ls)//2]; p=of+'.bis'; open(p,'w').writelines(h)
            ok,*_=lib.validate_once(spec,consts,p,self.work); os.unlink(p)
            ls=ls[len(h):] if ok else h
        return [json.loads(ls[0])['id']]
    def _confirm(self,tag,spec,consts,exe,scripts,timeout):
        of=self._trace(tag+'.again',exe,scripts,timeout)
        ok,info,g,d,raw=lib.validate_once(spec,consts,of,self.work)
        lines=list(lib.read_trace([of])); os.unlink(of)
        if ok: return None
        if not info['rej'] and info['sc'] is None and len(scripts)>1 and 'Deadlock' not in raw: return None
        line=lines[0]
        if len(lines)>1:
            ids=list(info['rej']); line=next((l for l in lines if ids and json.loads(l)['id']==ids[0]),lines[0])
        t=json.loads(line)
        at,rule=info['rej'].get(t['id'],(None,None))
        if rule is None:
            import re
            rule='the specification cannot be evaluated on this trace: '+' '.join(re.findall(r'Error: (.*)',raw)[:2])[:400]
        ev=t['ev'][at-1] if at and at<=len(t['ev']) else None
        if ev and ev.get('op')=='crash': rule=('data race between threads that use distinct objects' if ev.get('race') else 'hidden state changed: '+ev['hidden'] if ev.get('hidden') else 'the library crashed or hung (%s)'%json.dumps(ev))
        return dict(why=rule,spec=spec,constants=consts,id=t['id'],event=at,scripts=scripts if len(scripts)<2000 else scripts[:2000],refused=ev,before=t['ev'][max(0,(at or 1)-3):(at or 1)-1],driver=os.path.basename(exe))
    # ---- verdict
    def evidence(self,violations):
        mcs=sum(m['distinct_states'] for m in self.mc_runs); mct=sum(m['states_generated'] for m in self.mc_runs)
        cs=sum(c['states'] for c in self.conf); ct=sum(c['transitions'] for c in self.conf)
        ev=dict(property=self.prop,tier=lib.TIER,seed=lib.SEED,level='model_checking',
            coverage=dict(states=mcs+cs,transitions=mct+ct,traces_validated_against_impl=sum(c['accepted'] for c in self.conf),
                evaluations=sum(c['events'] for c in self.conf),
                samples=self.samples[:6] or [dict(note='no script was run')],
                model_checking=self.mc_runs,conformance=self.conf,unrepeated_rejections=self.flakes,notes=self.notes),
            assumptions=['TLC and its JSON module','the drivers in /verif/harness report faithfully what the public interface of the library returned',
                'g++ 13 and clang++ 18 on x86-64 Linux'],
            wall_s=round(time.time()-self.t0,1),violations=violations)
        os.makedirs(os.path.join(lib.ROOT,'evidence'),exist_ok=True)
        p=os.path.join(lib.ROOT,'evidence',self.prop+'.json')
        json.dump(ev,open(p+'.tmp','w'),indent=1); os.replace(p+'.tmp',p)
    def violation(self,what,payload):
        d=os.path.join(lib.OUT,self.prop); os.makedirs(d,exist_ok=True)
        p=os.path.join(d,'replay.json')
        json.dump(dict(property=self.prop,what=what,**payload),open(p,'w'),indent=1,default=str)
        print('rule refused: %s'%what)
        if payload.get('refused'): print('refused event: %s'%json.dumps(payload['refused'])[:1500])
        print('VIOLATION property=%s replay=%s'%(self.prop,os.path.relpath(p,lib.ROOT)),flush=True)

def main(prop,body):
    c=Check(prop)
    shutil.rmtree(os.path.join(lib.OUT,prop),ignore_errors=True)
    try:
        try:
            body(c)
            c.evidence(0)
            for l in known(prop): print(l)
            print('OK property=%s events=%d states=%d'%(prop,sum(x['events'] for x in c.conf),sum(x['states'] for x in c.conf)+sum(x['distinct_states'] for x in c.mc_runs)))
            return 0
        except Found as f:
            c.evidence(1); c.violation(f.what,f.payload); return 1
        except BuildError as b:
            if not lib.toolchain_ok(): print('the compilers do not work:',b); return 2
            print(str(b)[-3000:]); c.evidence(1); c.violation('the harness, which uses only the public interface, no longer compiles',dict(compiler_output=str(b))); return 1
        except ToolError as t:
            print('ERROR',t); return 3
        except Exception:
            traceback.print_exc(); return 4
    finally:
        shutil.rmtree(c.work,ignore_errors=True)
def known(prop):
    p=os.path.join(lib.ROOT,'known-findings.txt'); r=[]
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('known: property=%s '%prop): r.append('KNOWN-FINDING: '+l[len('known: '):])
    return r
