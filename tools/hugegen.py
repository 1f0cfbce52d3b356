"""Scripts for the driver of huge views and containers."""
VIEWS=['rc','rk','ri','sr']; CONTS=['st','vc','vi']; FIXED=['ac','ai']; BITS=['bt']; TYPES=VIEWS+CONTS+FIXED+BITS
OPS=dict(view=dict(make=5,assign=1,first=3,last=3,prefix=3,suffix=3,sub=4,write=3,at=5,ends=2,walk=6),
         cont=dict(raw=1,write=4,at=5,ends=1,walk=5,push=3,pop=2,resize=3,reserve=1,insert=4,erase=4,move=2,view=1,shrunk=1),
         fixed=dict(write=5,at=5,ends=1,walk=6,view=1),bits=dict(write=8,at=6))
def kind(ty): return 'view' if ty in VIEWS else 'cont' if ty in CONTS else 'fixed' if ty in FIXED else 'bits'
def random_scripts(rng,ty,count,prof,prefix,lo=8,hi=22):
    ops=dict(OPS[kind(ty)]); ops.update({k:v for k,v in prof.items() if k in ops}); names=list(ops); w=list(ops.values()); out=[]
    near=lambda: (rng.choice([0,1,1,2,3,3,4,5,6,9,10]),rng.choice([-2,-1,0,1,2,rng.randrange(-40,40),rng.randrange(1000)]))
    for k in range(count):
        ls=[]; bits=kind(ty)=='bits'; few=[near() for _ in range(3)]
        pick=lambda: rng.choice(few) if rng.random()<.5 else near()
        for _ in range(rng.randrange(lo,hi)):
            op=rng.choices(names,w)[0]; c,d=pick(); c2,d2=pick()
            if op=='at' and rng.random()<.4: c=rng.choice([1,1,7,8,3]); d=rng.choice([-2,-1,0,1])
            if op in('insert','erase','resize'): d2=rng.randrange(60)
            if op in('insert','erase'): d=rng.randrange(40)
            ls.append('%s %d %d %d %d %d %d %d %d'%(op,rng.randrange(2),rng.randrange(2),c,d,c2,d2,rng.randrange(144),rng.randrange(2) if bits else rng.randrange(1,120)))
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join(ls))
    return out
