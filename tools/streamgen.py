"""Scripts for the stream driver."""
SIZES=[0,1,2,3,7,8,9,16,31,64,65,130,257,520]
OV=dict(put=['bits','string','ref'],adj=['left','right','internal'],state=['eof','fail','bad'])
def line(op,o=0,ov=0,v=0,text=()): return '%s %d %d %d'%(op,o,ov,v)+(' | '+' '.join(map(str,text)) if text else '')
def one(rng,e):
    op=e['op']; v=e['v']
    if op=='mask': v=sum({'fail':1,'bad':2}[m] for m in e['ms'])
    return line(op,e['o']-1,OV[op].index(e['ov']) if op in OV else rng.randrange(2),v,e['text'])
def expand(rows,rng,n,prefix,limit=None,ops=('put','get')):
    rows=[r for r in rows if r['e']['op'] in ops]
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    return ['S %s%d n%d\n'%(prefix,k,n)+'\n'.join([one(rng,e) for e in r['h']]+[one(rng,r['e'])]) for k,r in enumerate(rows)]
OPS=dict(put=10,get=7,width=5,fill=2,adj=2,skip=1,flags=2,feed=4,room=.5,clear=3,state=.7,mask=.6,bits=4,text=3)
def digits(rng,k): return [rng.choice([48,49]) for _ in range(k)]
def feed(rng,n):
    t=[]
    if rng.random()<.4: t+=[rng.choice([32,10,9,13,11,12]) for _ in range(rng.randrange(1,4))]
    t+=digits(rng,rng.choice([n,n,n-1 if n else 0,n+1,n//2,1,0,rng.randrange(n+5)]))
    if rng.random()<.5: t+=[rng.choice([50,47,32,10,120,45,0,255,108,76])]
    return t
def text(rng):
    k=rng.choice([0,1,2,5,21,22,23,24,30,63,64,100,rng.randrange(40)])
    return [rng.choice([97,98,48,49,32,10,0,255,128,200]) for _ in range(k)]
def random_scripts(rng,n,count,prefix,prof=None,lo=10,hi=40):
    p=dict(OPS); p.update(prof or {}); names=list(p); w=[p[x] for x in names]; out=[]
    for k in range(count):
        ls=[]
        for _ in range(rng.randrange(lo,hi)):
            op=rng.choices(names,w)[0]; o=rng.randrange(2); ov=rng.randrange(3); v=0; t=()
            if op=='width': v=rng.choice([0,1,2,n,n+1,n+3,max(0,n-1),5,24,70,rng.randrange(n+20)])
            elif op=='fill': v=rng.choice([32,48,49,42,0,255,120])
            elif op=='room': v=rng.choice([0,1,2,n,max(0,n-1),n+5,rng.randrange(100),-1,-1])
            elif op in('skip','flags','mask'): v=rng.choice([0,rng.randrange(256),1])
            elif op=='feed': t=feed(rng,n)
            elif op=='text': t=text(rng)
            elif op=='bits': d=rng.random(); t=[x for x in range(n) if rng.random()<d]
            ls.append(line(op,o,ov,v,t))
            if op=='put' and rng.random()<.35 and ov==0: ls.append(line('get',rng.randrange(2)))
        out.append('S %s%d n%d\n'%(prefix,k,n)+'\n'.join(ls))
    return out
