"""Scripts for the driver of ptl::optional and ptl::variant."""
OPT=dict(create=['default','copy','value','value&&','args','nullopt','none','args_copy'],mvcreate=['move'],assign=['copy','value','value&&','nullopt','inner','inner&&'],mvassign=['move'],
 emplace=['args','none','copy','move','inner','inner&&'],reset=[''],swap=['member','friend','adl'],write=['*','->','value','move'],read=['value','*','value_or','value_or&&','mvalue_or','value_or_int','has_value','bool'])
VAR=dict(create=['default','copy','value','value&&','index','type','none','value&'],mvcreate=['move'],assign=['copy','value','value&&','value&','inner','inner&&'],mvassign=['move'],
 emplace=['index','type','none','copy','move'],swap=['member','friend','adl'],write=['get','get_if','move'],read=['get','get_if','holds'],visit=['one','two','three','ref','void','lambda'])
OPTIONALS=['oi','oe','ob','os','on']; VARIANTS=['v1','v2','v5','vs']; ALTS=dict(v1=1,v2=2,v5=5,vs=3,vw=130)
def table(ty): return OPT if ty[0]=='o' else VAR
def line(op,m=0,ov=0,o=0,p=0,a=1,v=0,cat=0,thr=0,f=0): return '%s %d %d %d %d %d %d %d %d %d'%(op,m,ov,o,p,a,v,cat,thr,f)
def one(rng,ty,e,fault=0):
    t=table(ty)
    return line(e['op'],rng.randrange(2),t[e['op']].index(e['ov']),e['o']-1,e['p']-1,e['a'],rng.randrange(1,120),e['cat'],e['thr'],fault)
def expand(rows,rng,ty,flags,prefix,fault=0,tail=2,limit=None,ops=None):
    rows=[r for r in rows if ops is None or r['e']['op'] in ops]
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    out=[]
    for n,row in enumerate(rows):
        ls=[one(rng,ty,e) for e in row['h']]+[one(rng,ty,row['e'],fault)]
        ls+=[random_op(rng,ty,{}) for _ in range(tail)]
        out.append('S %s%d %s %d\n'%(prefix,n,ty,flags)+'\n'.join(ls))
    return out
DEFAULT=dict(create=4,mvcreate=2,assign=8,mvassign=4,emplace=7,reset=2,swap=5,write=4,read=4,visit=4)
def random_op(rng,ty,prof,faults=(),pf=0):
    t=table(ty); p=dict(DEFAULT); p.update(prof)
    names=[n for n in t if p.get(n,0)>0]
    op=rng.choices(names,[p[n] for n in names])[0]
    return line(op,rng.randrange(2),rng.randrange(len(t[op])),rng.randrange(3),rng.randrange(3),rng.randrange(1,11),rng.randrange(1,120),rng.randrange(4),rng.choice([0,0,0,1,2]),rng.choice(faults) if faults and rng.random()<pf else 0)
def random_scripts(rng,ty,flags,count,prof,prefix,lo=8,hi=30,faults=(),pf=0):
    return ['S %s%d %s %d\n'%(prefix,k,ty,flags)+'\n'.join(random_op(rng,ty,prof,faults,pf) for _ in range(rng.randrange(lo,hi))) for k in range(count)]
