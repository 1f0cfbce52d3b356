"""Scripts for the array/tuple driver."""
SIZE=dict(a0=0,a1=1,a3=3,a7=7,ae3=3,t0=0,t1=1,t3=3,t6=6,te1=1,al3=3,ad2=2,a70=70,a100=100,a300=300,tl3=3,t16=16,ab3=3,tb3=3)
NOIMAGE=('al3','ad2','tl3','ab3','tb3'); BLUNT=('ab3','tb3'); LONG=('a70','a100','a300')
def line(op,o=0,p=0,i=0,code=0,via=0,v=0,vals=None): return '%s %d %d %d %d %d %d'%(op,o,p,i,code,via,v)+(' | '+' '.join(map(str,vals)) if vals is not None else '')
def one(rng,e):
    via=rng.randrange(48)
    if e['op']=='fill': via=(via&~1)|e['al']
    return line(e['op'],e['a']-1,e['b']-1,e['i'],0,via,e['v'],e['vals'] if e['op'] in('create','part') else None)
def expand(rows,rng,ty,flags,prefix,limit=None):
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    return ['S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(one(rng,e) for e in r['h']+[r['e']]) for k,r in enumerate(rows)]
OPS=dict(create=5,part=1,default=1,copy=2,mvcopy=1,assign=3,mvassign=2,swap=3,write=6,bind=2,fill=2,take=1,read=5,ends=1,at=3)
def random_scripts(rng,ty,flags,count,prof,prefix,lo=8,hi=24):
    ops=dict(OPS); ops.update(prof); names=list(ops); w=list(ops.values()); out=[]; n=SIZE[ty]
    for k in range(count):
        ls=[]
        small=rng.random()<.5
        val=lambda: rng.randrange(3) if small else rng.randrange(256)
        for _ in range(rng.randrange(lo,hi)):
            op=rng.choices(names,w)[0]; i=rng.randrange(16) if n<16 or rng.random()<.3 else rng.choice([rng.randrange(n),n-1,n//2]); code=0
            if op=='at': code=rng.choice([0,1,1,2,3,4,6,6]); i=rng.choice([-2,-1,0,1,2]) if code in(1,2,3,4) else i
            ls.append(line(op,rng.randrange(3),rng.randrange(3),i,code,rng.randrange(144),val(),[val() for _ in range(n)] if op=='create' else [val() for _ in range(rng.randrange(3))] if op=='part' else None))
        out.append('S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(ls))
    return out
