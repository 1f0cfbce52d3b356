"""Scripts for the iterator driver."""
TYPES=['string','sref','vi','ve','vb','ar','arc','a0','a1','a3','a7']
FIXED=dict(a0=0,a1=1,a3=3,a7=7)
RO=('sref','arc')
def line(op,a,d=0,to=0,via=0,v=0): return '%s %d %d %d %d %d'%(op,a,d,to,via,v)
def one(e,pos,n):
    """a request of the model, given the positions before it"""
    a=e['a']-1; x=pos[e['a']-1]; op=e['op']
    if op=='get': return line(op,a,e['n'],0,e['via'])
    if op in('add','plus','nplus') or (op in('read','write') and e['via']==2): to=x+e['n']
    elif op in('sub','minus'): to=x-e['n']
    else: to=0
    return line(op,a,(e['d']-1)&1,to,e['via'],e['v'])
def step(e,pos,n):
    pos=list(pos); a=e['a']-1; d=e['d']-1; op=e['op']
    if op=='get': pos[a]=n if e['n'] else 0
    elif op in('inc','pinc'): pos[a]+=1
    elif op in('dec','pdec'): pos[a]-=1
    elif op=='add': pos[a]+=e['n']
    elif op=='sub': pos[a]-=e['n']
    elif op in('plus','nplus'): pos[d]=pos[a]+e['n']
    elif op=='minus': pos[d]=pos[a]-e['n']
    elif op in('conv','copy'): pos[d]=pos[a]
    elif op=='swap': pos[a],pos[d]=pos[d],pos[a]
    return pos
def expand(rows,rng,ty,n,prefix,limit=None):
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    out=[]
    for k,r in enumerate(rows):
        pos=[-1]*8; ls=[]
        for e in r['h']+[r['e']]:
            ls.append(one(e,pos,n)); pos=step(e,pos,n)
        # the model counts the positions of [] for a reverse iterator from its begin; so does the driver
        out.append('S %s%d %s %s\n'%(prefix,k,ty,' '.join(str(41+x) for x in range(n)))+'\n'.join(ls))
    return out
OPS=dict(get=3,inc=3,pinc=3,dec=3,pdec=3,add=3,sub=3,plus=3,nplus=3,minus=3,conv=3,copy=1,swap=1,base=3,read=5,write=4,algo=1)
def random_scripts(rng,ty,count,prefix):
    out=[]
    names=list(OPS); w=list(OPS.values())
    for k in range(count):
        n=FIXED.get(ty,rng.choice([0,1,2,3,5,8,22,23,40]))
        vals=[rng.randrange(1,256) for _ in range(n)]
        ls=[line('get',s,rng.randrange(2),0,rng.randrange(3)) for s in range(8) if rng.random()<.8]
        for _ in range(rng.randrange(10,30)):
            op=rng.choices(names,w)[0]
            ls.append(line(op,rng.randrange(8),rng.randrange(2),rng.randrange(1000),rng.randrange(6),rng.choice(vals) if vals and op=='algo' and rng.random()<.7 else rng.randrange(1,256)))
        out.append('S %s%d %s %s\n'%(prefix,k,ty,' '.join(map(str,vals)))+'\n'.join(ls))
    return out
