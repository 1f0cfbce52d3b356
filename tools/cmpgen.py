"""Scripts for the driver of comparisons, hashes and output."""
KINDS=dict(text=4,oi=3,oe=3,os=3,od=3,ol=3)
MODEL=dict(text='sequence',vi='sequence',vc='sequence',ve='sequence',vb='sequence',oi='optional',oe='optional',os='optional text',var='variant',vd='sequence',vl='sequence',od='optional',ol='optional',vaf='variant')
TYPES=list(MODEL)
OPTS=('oi','oe','od','ol')
def new(rng,ty,key): return 'new %d %d | %s'%(rng.randrange(KINDS.get(ty,1)),rng.randrange(840),' '.join(map(str,key)))
CHARS=[[0,1,255],[127,128,129],[97,225,98],[0,127,255],[64,192,65],[1,2,3]]
INTS=[[-5,0,7],[0,1,2],[-2000000000,3,2000000000],[-1,0,255],[255,256,65536]]
SMALL=[[0,1,2],[3,100,200],[127,128,255]]
def letters(rng,ty):
    """an increasing map of the letters of the model to values of the type"""
    if ty in('text','os','vc'): return sorted(rng.choice(CHARS))
    if ty in('vi','oi','vd','vl','od','ol'): return sorted(rng.choice(INTS))
    return sorted(rng.choice(SMALL))
def concrete(rng,ty,keys,pre=None):
    m=letters(rng,ty)
    if ty in('var','vaf'):
        mt=sorted(rng.choice(CHARS)); mi=sorted(rng.choice(INTS)); ms=sorted(rng.choice(SMALL))
        return [[k[0]]+[(mt if k[0]==1 else mi if k[0]==0 else ms)[x] for x in k[1:]] for k in keys]
    if ty in OPTS: return [k[:1]+[m[x] for x in k[1:]] for k in keys]
    pre=[rng.choice(m) for _ in range(pre if pre is not None else rng.choice([0,0,1,3,7,8,15,19,20,21,22,23,24,30,40]+([128,200,257] if rng.random()<.3 else [])))]
    if ty=='os': return [k[:1]+pre+[m[x] for x in k[1:]] if k else k for k in keys]
    return [pre+[m[x] for x in k] for k in keys]
def expand(rows,rng,ty,prefix,limit=None,pre=None):
    rows=[r['k'] for r in rows]
    if limit and len(rows)>limit: rows=rng.sample(rows,limit)
    out=[]
    for k in range(0,len(rows),2):   # two pairs a script
        keys=concrete(rng,ty,[x for r in rows[k:k+2] for x in r],pre and rng.choice(pre))
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join([new(rng,ty,x) for x in keys]+(['out %d'%rng.randrange(4)] if ty=='text' else [])))
    return out
def random_key(rng,ty):
    m=letters(rng,ty)
    if ty in OPTS: return [] if rng.random()<.25 else [1,rng.choice(m)]
    if ty in('var','vaf'):
        a=rng.randrange(4)
        return [1]+[rng.choice([0,1,65,200,255]) for _ in range(rng.choice([0,1,2,22,23]))] if a==1 else [a,rng.choice([0,1,100,255])]
    if ty=='os' and rng.random()<.2: return []
    n=rng.choice([0,1,2,3,7,8,21,22,23,24,31,64,100]) if rng.random()<.85 else rng.choice([127,128,129,200,255,256,257,300])
    if ty in('vb',): n=min(n,8)
    return ([1] if ty=='os' else [])+[rng.choice(m) if rng.random()<.8 else rng.randrange(256) for _ in range(n)]
def random_scripts(rng,ty,count,prefix,lo=4,hi=9):
    out=[]
    for k in range(count):
        ks=[]; ls=[]
        for _ in range(rng.randrange(lo,hi)):
            key=random_key(rng,ty)
            if ks and rng.random()<.6:   # a relative of an earlier one
                key=list(rng.choice(ks)); c=rng.random()
                tag=1 if ty in OPTS+('os','var','vaf') else 0
                if c<.3: pass
                elif c<.6 and len(key)>tag: i=rng.randrange(tag,len(key)); key[i]=min(255,max(0,key[i]+rng.choice([-1,1,128,-128])))
                elif c<.8 and len(key)>tag+1 and ty not in OPTS and not (ty in('var','vaf') and key[0]!=1): key=key[:rng.randrange(tag,len(key))]
                elif ty not in OPTS and key[:1] and not (ty in('var','vaf') and key[0]!=1): key=key+[rng.choice([0,1,255])]
            ks.append(key); ls.append(new(rng,ty,key))
            if ty=='text':
                if rng.random()<.35: ls.append('sub %d %d %d %d'%(rng.randrange(4),rng.randrange(9),rng.choice([0,0,1,2,rng.randrange(400)]),rng.choice([rng.randrange(400),len(key),max(0,len(key)-1)])))
                if rng.random()<.25: ls.append('write %d %d %d'%(rng.randrange(9),rng.randrange(400),rng.choice([1,65,127,128,255])-1))
            elif rng.random()<.3:
                key=random_key(rng,ty) if rng.random()<.5 else list(rng.choice(ks))
                ls.append('set %d %d %d %d | %s'%(rng.randrange(KINDS.get(ty,1)),rng.randrange(840),rng.randrange(9),rng.randrange(2),' '.join(map(str,key))))
            if ty=='text' and rng.random()<.4: ls.append('out %d'%rng.randrange(9))
        out.append('S %s%d %s\n'%(prefix,k,ty)+'\n'.join(ls))
    return out
# common prefixes beyond 2^12 and 2^16
LONG=[1023,4095,4096,5000,32767,65535,65536,70000]
