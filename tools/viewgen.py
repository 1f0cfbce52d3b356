"""Scripts for the view driver."""
ARRAYS=['ai','ab','ac']; SRC=dict(A=['ptr2','ptrn','range','view','default','ctad','rvalue'],S=['ptrn','range','view','default','cstr','sv'])
LEN=dict(A=[12,6,5,4,3,2],S=[12,11,40,8])
def line(op,s=0,d=0,m=0,i=0,n=0,code=0,via=0,v=0): return '%s %d %d %d %d %d %d %d %d'%(op,s,d,m,i,n,code,via,v)
def one(rng,e,text):
    # the model's memories are the driver's 5th and 6th (arrays) or a part of the second and third (strings)
    m=e['m']-1+(1 if text else 4)
    via=SRC['S' if text else 'A'].index(e['src']) if e['src'] else rng.randrange(8)
    if e['op']=='write': via=rng.choice([0,1,4,5,6,7])
    return line(e['op'],e['a']-1,e['d']-1,m,e['i'],e['n'],0,via,e['v'])
def expand(rows,rng,ty,prefix,limit=None):
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    t=ty=='s'
    return ['S %s%d %s\n'%(prefix,k,ty)+'\n'.join([one(rng,e,t) for e in r['h']]+[one(rng,r['e'],t)]) for k,r in enumerate(rows)]
# memories of more than 2^8 and 2^16 elements
WIDE={'1':[127,128,255,256,257,299,300,600],'2':[255,256,32767,32768,65535,65536,65537,65999]}
OPS=dict(make=8,assign=3,swap=2,first=4,last=4,sub=4,subn=4,write=5,poke=2,at=4,ends=2)
TEXT=dict(make=8,assign=2,swap=2,prefix=4,suffix=4,sub=4,subn=4,poke=3,at=4,ends=2,out=3,conv=2,lit=1)
def random_scripts(rng,ty,count,prof,prefix,lo=8,hi=24):
    out=[]; t=ty[0]=='s'; big=WIDE.get(ty[-1]); ops=dict(TEXT if t else OPS); ops.update({k:v for k,v in prof.items() if k in ops})
    names=list(ops); w=list(ops.values())
    for k in range(count):
        ls=[]
        for _ in range(rng.randrange(lo,hi)):
            op=rng.choices(names,w)[0]
            i=rng.choice([0,1,2,3,rng.randrange(1000)]); n=rng.choice([0,1,2,3,rng.randrange(1000)])
            if big and op in('first','last','sub','subn','prefix','suffix') and rng.random()<.6:   # nearly everything of the whole memory
                s=rng.randrange(4); ls.append(line('make',s,0,0 if t else rng.choice([0,1]),0,big[-1],0,0 if t else 2,0)); ls.append(line(op,s,rng.randrange(4),0,rng.choice([0,1,2,5]),big[-1]-rng.choice([0,1,5,rng.randrange(300),rng.randrange(big[-1]//4)]),0,rng.randrange(56),0)); continue
            if big: i=rng.choice([i,rng.choice(big),rng.randrange(big[-1])]); n=rng.choice([n,rng.choice(big),rng.choice(big),rng.randrange(big[-1])])
            code=0
            if op=='at':
                code=rng.choice([0,1,1,2,3,4,5,6,6,6,6]); i=rng.choice([-3,-2,-1,0,0,1,2]) if code in(1,2,3,4,5) else rng.randrange(64)
            ls.append(line(op,rng.randrange(4),rng.randrange(4),rng.randrange(12),i,n,code,rng.randrange(56),rng.randrange(256)))
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join(ls))
    return out
