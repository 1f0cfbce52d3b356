"""Scripts for the driver of shared objects."""
QUERIES=dict(string='size all rev at ends cmp hash out cstr sub cat view',vector='size all rev at ends cmp',strings='sizes',array='size all rev at ends cmp',
    string_ref='size all rev at ends cmp hash out sub',array_ref='size all rev at ends',bitset='set count and or xor not shl shr eq bits hash',
    optional='has get or eq null',variant='which alt if visit eq',tuple='fields eq',optional_ref='has get or',variant_ref='visit',function_ref='call')
QUERIES={k:v.split() for k,v in QUERIES.items()}
OWN={'string','vector','strings','array','bitset','optional','variant','tuple'}
TYPES=list(QUERIES)
def value(rng,ty):
    b=lambda: rng.choice([0,1,65,97,127,128,200,255,rng.randrange(256)])
    if ty in('string','string_ref'): return [b() for _ in range(rng.choice([0,1,2,5,21,22,23,24,40]))]
    if ty in('vector','array_ref'): return [b() for _ in range(rng.choice([0,1,3,8]))]
    if ty=='strings': return [rng.randrange(80) for _ in range(rng.choice([0,1,3]))]
    if ty=='array': return [b() for _ in range(5)]
    if ty=='bitset': return sorted(k for k in range(70) if rng.random()<rng.choice([.1,.5,.9]))
    if ty=='optional' : return rng.choice([[],[rng.randrange(1,40)]])
    if ty=='optional_ref': return rng.choice([[],[rng.randrange(200)]])
    if ty in('variant','variant_ref'): return [rng.randrange(2),rng.randrange(40)]
    if ty=='tuple': return [rng.randrange(200),rng.randrange(40),rng.randrange(256)]
    return [rng.randrange(1,50)]
def script(rng,ty,name,n=30):
    own=ty in OWN
    ls=['S %s %s 0'%(name,ty)]
    for ph in range(rng.choice([1,1,2])):
        prev=None
        for o in range(3):
            v=prev if prev is not None and rng.random()<.35 else value(rng,ty)
            prev=v; ls.append('set 0 %d 0 %d | %s'%(o,rng.randrange(6),' '.join(map(str,v))))
        if own and ph==0: ls+=['take %d %d 0 1'%(t,rng.randrange(3)) for t in range(3)]
        for _ in range(n):
            t=rng.randrange(3)
            if own and rng.random()<.3:
                ls.append('take %d %d 0 %d'%(t,rng.randrange(3),rng.randrange(2)) if rng.random()<.4 else 'chg %d 0 0 %d'%(t,rng.randrange(1,40)))
                continue
            use=[0,0,1,2]+([3+t] if own else [])
            ls.append('%s %d %d %d %d'%(rng.choice(QUERIES[ty]),t,rng.choice(use),rng.choice(use),rng.choice([0,1,2,3,5,7,8,22,23,30,69,70,100])))
    return '\n'.join(ls)
def scripts(rng,ty,n,prefix): return [script(rng,ty,'%s%s%d'%(prefix,ty,k)) for k in range(n)]
