"""Scripts for the driver of nodes that own each other."""
K=dict(v=0,o=1,s=2)
def line(op,h=1,k=0,g=1,p=0,i=1,j=1,n=0,via=0,w=0): return '%s %d %d %d %d %d %d %d %d %d'%(op,h,k,g,p,i,j,n,via,w)
def one(rng,e): return line(e['op'],e['h'],K[e['k']],e['g'],K[e['p']],e['i'],e['j'],e['n'],rng.randrange(4),e['w'])
def expand(rows,rng,prefix,limit=None):
    rows=[r for r in rows if r['e']['op']!='nop']
    if limit and len(rows)>limit:
        hot=[r for r in rows if r['e']['op'] in('copy','move','link','splice','many','fill') and r['e']['h']!=r['e']['g']]
        rows=rng.sample(hot,min(len(hot),limit*2//3))+rng.sample(rows,limit-min(len(hot),limit*2//3))
    return ['S %s%d x\n'%(prefix,k)+'\n'.join(one(rng,e) for e in r['h']+[r['e']]) for k,r in enumerate(rows)]
DEFAULT=dict(new=16,link=14,many=3,fill=2,copy=7,move=9,swap=5,splice=3,int=2,text=2,reset=2,clear=1,erase=3,resize=2,reserve=1,shrink=1)
def random_scripts(rng,count,prefix,kinds='vos',prof=None,lo=12,hi=45):
    p=dict(DEFAULT,**(prof or {}))
    if 'v' not in kinds: p['int']=p['text']=0
    if 'o' not in kinds: p['reset']=0
    if 's' not in kinds:
        for q in('many','fill','splice','clear','erase','resize','reserve','shrink'): p[q]=0
    names=list(p); w=list(p.values()); out=[]
    for k in range(count):
        # few nodes: numbers up to m (the roots, and their first descendants), so that requests meet
        m=rng.choice([2,4,6,12])
        ops=[]
        for _ in range(rng.randrange(lo,hi)):
            op=rng.choices(names,w)[0]
            kind=K[rng.choice(kinds)]; src=K[rng.choice(kinds)]
            n=rng.choice([0,1,1,2,3,5,12]) if op in('many','fill','erase') else rng.choice([0,1,3,9,10,11,22,23,30])
            ops.append(line(op,rng.randrange(m),kind,rng.randrange(m),src,rng.randrange(12),rng.choice([0,0,1,2,rng.randrange(20)]),n,rng.randrange(4),rng.randrange(2)))
        out.append('S %s%d r\n'%(prefix,k)+'\n'.join(ops))
    return out
