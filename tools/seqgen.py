"""Scripts for the sequence driver (ptl::string, ptl::vector)."""
import random
# overload tables in the order of harness/seq_drv.cpp: name, shape
S_OPS=dict(create=['default:N','copy:O','range:R','il:I','fill:F','sv:V','lit:L'],mvcreate=['m:O'],
 assign=['copy:O','range:R','fill:F','il:I','op=il:I','sv:V','op=sv:V'],mvassign=['m:O'],
 append=['range:R','fill:F','il:I','+=il:I','sv:V','+=sv:V','+=obj:O','+=ch:C','push_back:C'],
 insert=['range:R','fill:F','il:I','ch:C','sv:V'],erase=['range:N','one:N'],pop=['N:N'],clear=['N:N'],
 resize=['n:N','ch:C'],reserve=['N:N'],shrink=['N:N'],replace=['range:R','fill:F','il:I','sv:V'],
 write=['x:N']*8,concat=['s+s:O','sv+s:V','s+sv:V','ch+s:C','s+ch:C'],substr=['c1:N','c2:N'],mvsubstr=['r1:N','r2:N'],
 swap=['member:O','friend:O','adl:O'],huge=['x:N']*13,read=['x:N']*8)
V_OPS=dict(create=['default:N','copy:O','range:R','il:I','fill:F','count:D'],mvcreate=['m:O'],
 assign=['copy:O','range:R','fill:F','il:I','op=il:I'],mvassign=['m:O'],
 append=['push_back:C','push_back&&:M','emplace_back:C'],
 insert=['range:R','fill:F','il:I','one:C','one&&:M','emplace:C'],erase=['range:N','one:N'],pop=['N:N'],clear=['N:N'],
 resize=['n:N','value:C'],reserve=['N:N'],shrink=['N:N'],write=['x:N']*8,swap=['member:O','friend:O','adl:O'],huge=['x:N']*10,read=['x:N']*8)
VECTORS=['vi','vc','ve','vb','vo','vn']
def table(ty): return S_OPS if ty=='string' else V_OPS
ORDER='m ov o p i j n s si sj sr it f'.split()
def line(op,vals=(),**kw):
    d=dict(m=0,ov=0,o=0,p=0,i=0,j=0,n=-12,s=-1,si=0,sj=-1,sr=0,it=0,f=0); d.update(kw)
    a=[d[k] for k in ORDER]
    t=op+' '+' '.join(map(str,a))
    return t+(' | '+' '.join(map(str,vals)) if vals else '')
def byte(rng,ty):
    if ty=='string' or ty=='vc':
        return rng.choice([0,255,128,127,10,32,65,rng.randrange(256),rng.randrange(97,123),rng.randrange(97,123)])
    return rng.randrange(1,1000)
def vals(rng,ty,k): return [byte(rng,ty) for _ in range(k)]

# ---------------------------------------------------------------- from TLC's transitions
class Expand:
    """turns abstract requests into script lines; every abstract value stands for K characters"""
    def __init__(self,rng,ty,K,fault=0):
        self.rng=rng; self.ty=ty; self.K=K; self.tok={}; self.fault=fault
    def values(self,xs):
        r=[]
        for x in xs:
            if x not in self.tok: self.tok[x]=vals(self.rng,self.ty,self.K)
            r+=self.tok[x]
        return r
    def line(self,e,last=False):
        rng=self.rng; K=self.K; op=e['op']; t=table(self.ty)
        kw=dict(m=rng.randrange(2),o=e['o']-1,p=e['p']-1,i=e['i']*K,j=(e['j']-e['i'])*K,it=rng.randrange(27))
        if last and self.fault: kw['f']=self.fault
        if op in('mvassign','mvcreate','swap'):
            kw['ov']=rng.randrange(len(t[op])); return line(op,**kw)
        if op in('substr','mvsubstr'):
            kw['ov']=rng.randrange(2); return line(op,**kw)
        if op in('pop','clear','shrink'): return line(op,**kw)
        if op=='reserve': kw['n']=e['n']*K; return line(op,**kw)
        if op=='write':
            kw['ov']=rng.randrange(8); kw['i']=e['i']*K+rng.randrange(K); return line(op,vals(rng,self.ty,1),**kw)
        if op=='erase':
            kw['ov']=1 if K==1 and e['j']==e['i']+1 and rng.random()<.5 else 0; return line(op,**kw)
        if op=='resize':
            kw['n']=e['n']*K; kw['ov']=rng.randrange(2)
            if e['sp']: kw.update(s=e['sp']-1,si=e['si']*K+rng.randrange(K),ov=1)
            return line(op,vals(rng,self.ty,1),**kw)
        if op=='assign' and e['ov']=='op=copy': kw['ov']=0; return line(op,**kw)
        if op=='concat':
            if e['ov']=='s+s': kw.update(ov=0,si=e['sp']-1); return line(op,**kw)
            x=self.values(e['xs']); one=len(x)==1
            if e['ov']=='sv+s': kw['ov']=3 if one and rng.random()<.5 else 1
            else: kw['ov']=4 if one and rng.random()<.5 else 2
            if not x: kw['n']=0
            return line(op,x or [1],**kw)
        shapes=[s.split(':')[1] for s in t[op]]
        alias=e['sp']>0
        x=[] if alias else self.values(e['xs'])
        ln=(e['sj']-e['si'])*K if alias else len(x)
        ok=[]
        for k,s in enumerate(shapes):
            if s=='R': ok+=[k]*3
            elif s=='V' and not e['sr']: ok.append(k)
            elif s=='I' and not alias and ln<=6: ok.append(k)
            elif s in 'C' and ln==1: ok.append(k)
            elif s=='M' and ln==1 and not alias: ok.append(k)
            elif s=='F' and (ln==1 or (ln>1 and rng.random()<.15)): ok.append(k)   # a repeated first value of the same length
        if not ok: return None
        if op=='append' and self.ty!='string' and ln!=1:
            return self.line(dict(e,op='insert',i=10**6,j=10**6),last)
        k=rng.choice(ok); kw['ov']=k
        if op=='insert' and e['i']==10**6: kw['i']=-1; kw['j']=0
        if alias: kw.update(s=e['sp']-1,si=e['si']*K,sj=ln,sr=e['sr'])
        if shapes[k]=='F': kw['n']=ln
        elif not alias: kw['n']=ln
        return line(op,x or [1],**kw)

def expand(rows,rng,ty,flags,K,prefix,fault=0,tail=2,limit=None):
    rows=list(rows)
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    out=[]
    for n,row in enumerate(rows):
        x=Expand(rng,ty,K,fault)
        ls=[x.line(e) for e in row['h']]
        ls.append(x.line(row['e'],True))
        if None in ls: continue
        for _ in range(tail): ls.append(random_op(rng,ty,dict(DEFAULT,alias=.3,big=0 if ty=='ve' else .02,sizes=SIZES[:20] if ty=='ve' else None)))
        out.append('S %s%d %s %d\n'%(prefix,n,ty,flags)+'\n'.join(ls))
    return out

# ---------------------------------------------------------------- random scripts
DEFAULT=dict(create=3,mvcreate=1,assign=4,mvassign=2,append=8,insert=8,erase=4,pop=2,clear=1,resize=4,reserve=3,shrink=3,replace=6,write=3,concat=2,substr=2,mvsubstr=1,swap=2,huge=0,read=0,grow=0,
    sizes=None,alias=0.0,fault=0.0,faults=(1,2,3),big=.03)
NCODES=[-1,-1,-2,-2,-3,-10,-4,-5,-6,-7,-8,-11,-13,-14]
SIZES=[0,1,1,2,2,3,3,4,5,6,7,8,9,10,11,12,15,16,17,20,21,22,22,23,23,24,25,26,31,32,33,44,45,46,47,48,49,50,63,64,65,71,72,73]
BIGS=[95,96,97,120,127,128,129,130,200,254,255,256,257,300,500,511,512,513,1000,1023,1024,1025,2000,4096,4097]
def number(rng,prof):
    r=rng.random()
    if r<.35: return rng.choice(NCODES)
    if prof.get('sizes'): return rng.choice(prof['sizes'])
    if r<1-prof['big']: return rng.choice(SIZES)
    return rng.choice(BIGS)
def random_op(rng,ty,prof):
    t=table(ty)
    names=[n for n in t if prof.get(n,0)>0]
    op=rng.choices(names,[prof[n] for n in names])[0]
    ov=rng.randrange(len(t[op])); shape=t[op][ov].split(':')[1]
    kw=dict(m=rng.randrange(2),ov=ov,o=rng.randrange(3),p=rng.randrange(3),it=rng.randrange(63))
    kw['i']=rng.choice([0,0,-1,-1,-2,-3,1,rng.randrange(60)])
    kw['j']=rng.choice([0,1,-1,rng.randrange(30),rng.randrange(6)])
    kw['n']=number(rng,prof)
    kw['sr']=rng.randrange(2)
    if op in('huge','read'): kw['si']=rng.randrange(13); kw['sj']=rng.choice([0,0,1,-1,2,-2,3,10,-10,24,-24]); kw['i']=rng.choice([0,-1,-2,rng.randrange(60)])
    elif shape in 'RVCFM' and rng.random()<prof['alias']:
        kw['s']=kw['o'] if rng.random()<.75 else rng.randrange(3)
        kw['si']=rng.choice([0,-2,-3,1,rng.randrange(60)]); kw['sj']=rng.choice([-1,0,1,rng.randrange(40),rng.randrange(6)])
    if op=='concat': kw['si']=rng.randrange(3)
    if prof['fault'] and rng.random()<prof['fault']: kw['f']=rng.choice(prof['faults'])
    if op=='reserve' and not prof.get('sizes') and rng.random()<.3: kw['n']=rng.choice(SIZES+BIGS)
    return line(op,vals(rng,ty,rng.choice([1,1,2,3,5,8,30])),**kw)
def random_scripts(rng,ty,flags,count,prof,prefix,lo=6,hi=22):
    p=dict(DEFAULT); p.update(prof)
    return ['S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(random_op(rng,ty,p) for _ in range(rng.randrange(lo,hi))) for k in range(count)]
# sizes beyond 2^16: few operations, because each of them is recorded with the whole content
GIANT=[65534,65535,65536,65537,66000,70000,32767,32768,33000]
def giant_scripts(rng,ty,flags,count,prefix,alias=.25):
    p=dict(DEFAULT,sizes=[0,1,3,23]+GIANT[:2]+[40000],alias=alias,concat=1,grow=0)
    out=[]
    for k in range(count):
        ls=[line('resize',vals(rng,ty,1),m=rng.randrange(2),ov=rng.randrange(2),o=0,n=rng.choice(GIANT))]
        if rng.random()<.5: ls.append(line('write',vals(rng,ty,1),m=rng.randrange(2),ov=rng.randrange(8),o=0,i=rng.choice([-2,-3,1])))
        for _ in range(rng.randrange(3,7)): ls.append(random_op(rng,ty,p))
        out.append('S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(ls))
    return out
# much more room than content: nothing but shrink_to_fit, moves and swaps may give the room away
ROOM=[100,300,600,1000,1100,2100,4096,5000,9000,20000,65536,70000,100000,300000]
def roomy_scripts(rng,ty,flags,count,prefix):
    p=dict(DEFAULT,sizes=[0,1,2,22,23,24,100,300],alias=.2,reserve=0,resize=3,clear=5,erase=8,pop=3,assign=6,append=4,insert=4,replace=4,shrink=1,swap=1,mvassign=1,create=1,mvcreate=1)
    out=[]
    for k in range(count):
        size=rng.choice([1,5,22,23,64,100,257,600,1025,2049,3000,4097,5000,5000])
        room=min(int(size*rng.choice([1.5,2.1,3.1,5,9,17,40,100]))+rng.choice([0,0,24]),400000) if rng.random()<.8 else max(size,rng.choice(ROOM))
        o=rng.randrange(3)
        ls=[line('reserve',vals(rng,ty,1),m=rng.randrange(2),o=o,n=room),line('resize',vals(rng,ty,1),m=rng.randrange(2),ov=rng.randrange(2),o=o,n=size)]
        if rng.random()<.8: # everything goes at once
            kind=rng.choice(['clear','erase','resize','assign'])
            ov=rng.randrange(len(table(ty)[kind]))
            ls.append(line(kind,vals(rng,ty,1),m=rng.randrange(2),ov=ov,o=o,i=0,j=-1,n=0))
            ls.append(random_op(rng,ty,p))
        for _ in range(rng.randrange(2,5)): ls.append(random_op(rng,ty,p))
        out.append('S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(ls))
    return out
