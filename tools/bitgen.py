"""Scripts for the bitset driver."""
OPS=dict(create=['default','copy','int'],mvcreate=[''],assign=['copy','move'],set=['all','one','value'],reset=['all','one'],flip=['all','one'],compound=['and','or','xor'],binary=['and','or','xor'],
 shift=['left','right'],shifted=['left','right'],ref=['[]','at','[]=[]','[]=ref','[].flip','swap','fswap','at.flip','[]=c[]','refcopy'],swap=['member','friend','adl'],read=['test','cat','at','c[]','[]','~'])
OPS['not']=['']; OPS['in']=['','noskipws','failed']; OPS['out']=['']
SIZES=[0,1,2,3,4,7,8,9,15,16,17,31,32,33,63,64,65,100,128,130,256,257,300,520,1030]
HUGE=[70000]
def line(op,m=0,ov=0,o=0,p=0,t=0,i=(0,0),j=(0,0),b=0,text=()):
    return '%s %d %d %d %d %d %d %d %d %d %d'%(op,m,ov,o,p,t,i[0],i[1],j[0],j[1],b)+(' | '+' '.join(map(str,text)) if text else '')
def big(limbs):
    v=sum(x<<(16*k) for k,x in enumerate(limbs))
    return (0,v) if v<1<<62 else (2,v-(1<<64)+1) if v>=(1<<64)-(1<<20) else (4,v-(1<<63))
def one(rng,e):
    return line(e['op'],rng.randrange(2),OPS[e['op']].index(e['ov']),e['o']-1,e['p']-1,e['t']-1,big(e['i']),big(e['j']),e['b'],e['text'])
def expand(rows,rng,n,flags,prefix,limit=None,ops=None):
    rows=[r for r in rows if ops is None or r['e']['op'] in ops]
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    return ['S %s%d b%d %d\n'%(prefix,k,n,flags)+'\n'.join([one(rng,e) for e in r['h']]+[one(rng,r['e'])]) for k,r in enumerate(rows)]
DEFAULT=dict(create=4,mvcreate=1,assign=2,set=6,reset=4,flip=6,compound=5,binary=4,shift=6,shifted=5,ref=10,swap=2,read=4,out=1); DEFAULT['not']=3; DEFAULT['in']=2
def number(rng,inside=.6):
    r=rng.random()
    if r<inside: return (5,rng.randrange(1<<20))
    if r<inside+.2: return (1,rng.choice([-2,-1,0,0,1,2,7,8,9,-8,-9]))
    return rng.choice([(0,rng.randrange(70)),(2,0),(2,-rng.randrange(300)),(3,rng.randrange(-3,60)),(4,rng.randrange(-3,3))])
def text(rng,n):
    r=rng.random(); t=[]
    if rng.random()<.4: t+=[rng.choice([32,32,10,9,13,11,12]) for _ in range(rng.randrange(3))]
    k=rng.choice([n,n,n-1,n+1,n+5,0,1,n//2,2*n,rng.randrange(n+9)])
    t+=[rng.choice([48,49]) for _ in range(max(0,k))]
    if rng.random()<.6: t+=[rng.choice([50,47,32,120,45,0,255,48,49]) for _ in range(rng.randrange(1,4))]
    return [x if x<128 else x-256 for x in t]
def random_op(rng,n,prof):
    p=dict(DEFAULT); p.update(prof)
    names=[x for x in OPS if p.get(x,0)>0]
    op=rng.choices(names,[p[x] for x in names])[0]
    i=number(rng); j=number(rng,1)
    ov=rng.randrange(len(OPS[op]))
    if op in('shift','shifted'): i=rng.choice([(0,rng.choice([0,1,2,3,7,8,9,15,16,17,31,32,33])),(0,rng.randrange(n+2)),number(rng,.3)])
    if op=='create' and ov==2: i=(6,rng.randrange(1<<30)) if rng.random()<.7 else number(rng,.2)
    return line(op,rng.randrange(2),ov,rng.randrange(3),rng.randrange(3),rng.randrange(3),i,j,rng.randrange(2),text(rng,n) if op=='in' else ())
def random_scripts(rng,n,flags,count,prof,prefix,lo=10,hi=35):
    return ['S %s%d b%d %d\n'%(prefix,k,n,flags)+'\n'.join(random_op(rng,n,prof) for _ in range(rng.randrange(lo,hi))) for k in range(count)]
def huge_scripts(rng,n,count,prefix,alls=True):
    """few elements in large bitsets, so that the traces stay small"""
    prof=dict(create=2,mvcreate=1,assign=3,set=14,reset=4,flip=5,compound=4,binary=3,shift=3,shifted=2,ref=8,swap=3,read=4); out=[]
    edge=lambda: rng.choice([0,1,7,8,255,256,257,32767,32768,65535,65536,65537,n-1,n-2,n-8,n-9,rng.randrange(n)])
    for k in range(count):
        ls=[]
        for _ in range(rng.randrange(12,25)):
            op=rng.choices(list(prof),list(prof.values()))[0]; ov=rng.randrange(len(OPS[op]))
            if op in('set','flip','reset') and ov==0: ov=1
            i=(0,min(n-1,edge())) if rng.random()<.9 else (0,n)
            if op in('shift','shifted'): i=(0,rng.choice([0,1,8,9,255,256,257,300,n//2]))
            ls.append(line(op,rng.randrange(2),ov,rng.randrange(3),rng.randrange(3),rng.randrange(3),i,(0,min(n-1,edge())),rng.randrange(2)))
        out.append('S %s%d b%d 0\n'%(prefix,k,n)+'\n'.join(ls))
    if alls:
        o=rng.randrange(3)
        out.append('S %sall b%d 0\n'%(prefix,n)+'\n'.join([line('set',0,0,o),line('reset',0,1,o,i=(0,min(n-1,65536))),line('flip',0,1,o,i=(0,min(n-1,65536))),line('flip',1,0,o),line('not',1,0,o,(o+1)%3)]))
    return out
