"""Scripts for the function_ref driver."""
# signature: const, nothrow, kind of argument, kind of result
SIGS=dict(n=(0,0,0,1),c=(1,0,0,1),nn=(0,1,0,1),cn=(1,1,0,1),r=(0,0,1,2),cr=(1,0,2,2),bv=(0,0,4,0),rr=(1,0,3,1),own=(0,1,5,1),two=(1,0,6,1),none=(0,0,7,1),three=(1,1,8,0),conv=(0,1,0,1),ten=(1,0,9,1),rx=(0,0,1,2),crl=(1,1,2,1))
def line(op,s=0,d=0,t=0,via=0,v=0): return '%s %d %d %d %d %d'%(op,s,d,t,via,v)
def one(rng,e):
    via=rng.randrange(8)
    if e['op']=='bind' and e['t']==4: via=(via&~2)|(2 if e['cst'] else 0)
    if e['op'] in('call','temp'): via=(via&~2)|(2 if e['w'] else 0)
    return line(e['op'],e['a']-1,e['d']-1,e['t']-1,via,e['v'])
def expand(rows,rng,ty,prefix,limit=None):
    c,x,a,r=SIGS[ty]; want=[c,x,a if a in(1,6,7) else 0,r]
    rows=[q for q in rows if q['sig']==want]
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    return ['S %s%d %s\n'%(prefix,k,ty)+'\n'.join(one(rng,e) for e in r['h']+[r['e']]+[dict(op='call',a=1,d=1,t=1,v=5,w=0),dict(op='call',a=2,d=1,t=1,v=6,w=0)]) for k,r in enumerate(rows)]
OPS=dict(bind=6,assign=3,copy=2,swap=2,call=9,temp=1)
def random_scripts(rng,ty,count,prefix,lo=8,hi=24):
    names=list(OPS); w=list(OPS.values()); out=[]
    for k in range(count):
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join(line(rng.choices(names,w)[0],rng.randrange(3),rng.randrange(3),rng.randrange(7),rng.randrange(8),rng.choice([0,1,666,rng.randrange(1000)])) for _ in range(rng.randrange(lo,hi))))
    return out
