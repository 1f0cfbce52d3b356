"""Scripts for the driver of optional_ref and variant_ref."""
VARIANTS=dict(v1=4,v2=2,v3=1,v4=2,v5=20)
def line(op,s=0,d=0,t=0,via=0,v=0): return '%s %d %d %d %d %d'%(op,s,d,t,via,v)
def one(rng,e,opt):
    via=rng.randrange(8)
    if not opt and e['op']=='bind': via=(via&~1)|e['as']
    return line(e['op'],e['a']-1,e['d']-1,e['t']-1,via,e['v'])
def expand(rows,rng,ty,prefix,limit=None):
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    return ['S %s%d %s\n'%(prefix,k,ty)+'\n'.join(one(rng,e,ty=='o') for e in r['h']+[r['e']]) for k,r in enumerate(rows)]
OPS=dict(bind=8,clear=2,assign=3,copy=2,swap=2,write=5,value=5,value_or=4,poke=4,empty=3)
VOPS=dict(bind=8,temp=2,assign=4,copy=3,swap=3,write=5,throw=1,result=2,poke=3)
def random_scripts(rng,ty,count,prof,prefix,lo=8,hi=24):
    ops=dict(OPS if ty=='o' else VOPS); ops.update({k:v for k,v in prof.items() if k in ops})
    names=list(ops); w=list(ops.values()); out=[]
    for k in range(count):
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join(line(rng.choices(names,w)[0],rng.randrange(4),rng.randrange(4),rng.randrange(40),rng.randrange(8),rng.randrange(1,1000)) for _ in range(rng.randrange(lo,hi))))
    return out
