"""The checks, one per property."""
import os, random, sys
import lib, engine, hugegen, seqgen, sumgen, bitgen, itergen, viewgen, streamgen, refgen, callgen, agggen, cmpgen, sharegen, treegen
from seqgen import VECTORS
TYPES=['string','vi','vc','ve','vb','vo','vn']
def build_seq(types,**k):
    units=[('seq_table.cpp','table',[])]+[('seq_mod.cpp','t%d'%TYPES.index(t),['-DSEQ_TYPE=%d'%TYPES.index(t)]) for t in types]
    return lib.build('seq',units,**k)
INV=('WithinCapacity',); PROPS=('Conservation','Frames','AliasIsCopy','Inverse')
MCX='VIEW view\nACTION_CONSTRAINT Emit\n'
def mc_seq(c,label,**k):
    consts=dict(NObj=1,MaxLen=4,MaxCap=5,Inline=2,LitLens=[0,1,2,3],Alias=False,Show=True,Ops=[]); consts.update(k)
    return c.mc('MCSeq',consts,label,invariants=INV,properties=PROPS,extra=MCX,workers=1)
SOPS=['create','assign','append','insert','replace','erase','resize','reserve','write','pop','clear','shrink']
VOPS=[o for o in SOPS if o!='replace']
TWO=['create','append','reserve','copy','mvassign','mvcreate','swap','substr','mvsubstr','concat','clear','shrink']
TWOV=[o for o in TWO if o not in('substr','mvsubstr','concat')]
def rows_for(c,ty,alias=False,two=False):
    s=ty=='string'
    if two: return mc_seq(c,'two objects',NObj=2,MaxLen=3,MaxCap=4,Inline=2 if s else 0,LitLens=[0,1,3],Ops=TWO if s else TWOV)
    return mc_seq(c,'one object'+(', aliasing' if alias else ''),MaxLen=5 if c.thorough else 4,Inline=2 if s else 0,Alias=alias,Ops=SOPS if s else VOPS)
def seq_scripts(c,ty,flags,rows,prefix,Ks,per_k,random_n,prof=None,fault=0,tail=2,**kw):
    rng=c.rng; out=[]
    for K in Ks: out+=seqgen.expand(rows,rng,ty,flags,K,'%s%d_'%(prefix,K),fault,tail,limit=per_k)
    out+=seqgen.random_scripts(rng,ty,flags,random_n,prof or {},prefix+'r',**kw)
    return out
def scale(c,q,t): return t if c.thorough else q
def seq_conform(c,ty,aspects,scripts,exe,label=''):
    c.conform(ty+label,'TrSeq',dict(Aspects=aspects),exe,scripts)

# the small-step specifications of how the library carries the operations out: they refine the abstract
# ones, and each of the plausible mistakes (bug: the invariant it breaks) is refused
SEQ_INV=('NoUB','Refines','Strong','Within','Neat','Ended','Stays')
def step_seq(c,term,**bugs):
    big=dict(MaxLen=4,MaxCap=6,MaxArg=3) if c.thorough else dict(MaxLen=3,MaxCap=5,MaxArg=2)
    c.mc('StepSeq',dict(big,Term=term,Bug='none'),'steps of '+('strings' if term else 'vectors'),invariants=SEQ_INV,properties=('Terminates',))
    for b,what in bugs.items(): c.mc_fails('StepSeq',dict(MaxLen=2,MaxCap=4,MaxArg=2,Term=term,Bug=b),what,b,invariants=(what,))
SUM_INV=('NoUB','Tagged','NoLeak','Refines','KeepsAlive','Strong','NeverThrows')
def step_sum(c,opt,**bugs):
    c.mc('StepSum',dict(Opt=opt,Bug='none'),'steps of '+('optional' if opt else 'variant'),invariants=SUM_INV,properties=('Terminates',))
    for b,what in bugs.items(): c.mc_fails('StepSum',dict(Opt=opt,Bug=b),what,b,invariants=(what,))
def step_storage(c,**bugs):
    inv=('NoUB','Told','Owned','Refines')
    c.mc('StepStorage',dict(Bug='none'),'steps of the storage of strings',invariants=inv)
    for b,what in bugs.items(): c.mc_fails('StepStorage',dict(Bug=b),what,b,invariants=(what,))
def step_bits(c,**bugs):
    inv=('Typed','Refines','Trailing','Queries')
    for n in (5,6,7,8) if c.thorough else (5,6,7): c.mc('StepBits',dict(N=n,B=3,Bug='none'),'bytes of %d bits'%n,invariants=inv)
    for b,what in bugs.items(): c.mc_fails('StepBits',dict(N=6 if b=='mask' else 7,B=3,Bug=b),what,b,invariants=(what,))

def C01(c):
    step_seq(c,True,gap='Refines')
    exe=build_seq(['string'])
    rows=rows_for(c,'string'); two=rows_for(c,'string',two=True)
    sc=seq_scripts(c,'string',0,rows,'m',[1,7,8,11,12,23],scale(c,700,20000),scale(c,2500,20000))
    sc+=seq_scripts(c,'string',0,two,'w',[1,8,11,23],scale(c,400,4000),0)
    sc+=seqgen.random_scripts(c.rng,'string',0,scale(c,60,600),dict(big=.6),'b')+seqgen.giant_scripts(c.rng,'string',0,scale(c,40,300),'G')
    seq_conform(c,'string',['content'],sc,exe)
    huge(c,['st'],scale(c,60,1500))
def C02(c):
    step_seq(c,True,gap='NoUB'); step_seq(c,False,gap='NoUB',movefirst='Refines')
    types=['string','vi','ve','vb','vc']
    exe=build_seq(types)
    for ty in types:
        rows=[r for r in rows_for(c,ty,alias=True) if r['e']['sp']]
        main=ty in('string','ve')
        sc=seq_scripts(c,ty,0,rows,'m',[1,8,11,23] if ty=='string' else [1,3,5],scale(c,1400 if main else 300,30000),scale(c,1500 if main else 400,12000),dict(alias=.8,erase=2,pop=1,read=0))+seqgen.giant_scripts(c.rng,ty,0,scale(c,16 if main else 0,100),'G',.8)
        seq_conform(c,ty,['content'],sc,exe)
    tree(c,'s',dict(splice=9,fill=6,many=6,swap=1),scale(c,250,3000))
def C03(c):
    step_seq(c,True,edge='Stays',noundo='Ended')
    exe=build_seq(['string'])
    rows=rows_for(c,'string'); two=rows_for(c,'string',two=True)
    prof=dict(reserve=8,shrink=6,alias=.15)
    sc=seq_scripts(c,'string',1,rows,'m',[1,7,8,11,12,23],scale(c,700,20000),scale(c,2500,20000),prof)
    sc+=seq_scripts(c,'string',1,two,'w',[1,8,11,23],scale(c,400,4000),0)+seqgen.giant_scripts(c.rng,'string',1,scale(c,40,300),'G')+seqgen.roomy_scripts(c.rng,'string',1,scale(c,200,2000),'R')
    seq_conform(c,'string',['buffer'],sc,exe)
    huge(c,['st'],scale(c,40,800),dict(reserve=6,resize=8))
def C04(c):
    step_seq(c,False,selfmove='Refines')
    exe=build_seq(VECTORS)
    rows=rows_for(c,'vi'); two=rows_for(c,'vi',two=True)
    for ty in VECTORS:
        sc=seq_scripts(c,ty,0,rows,'m',[1,3,5],scale(c,400,20000),scale(c,900,8000))
        sc+=seq_scripts(c,ty,0,two,'w',[1,5],scale(c,150,3000),0)+seqgen.giant_scripts(c.rng,ty,0,scale(c,16,100),'G')
        seq_conform(c,ty,['content'],sc,exe)
    huge(c,['vc','vi'],scale(c,50,1000))
    tree(c,'s',None,scale(c,160,2000))
def C05(c):
    step_seq(c,False,edge='Stays')
    exe=build_seq(VECTORS[:5])
    rows=rows_for(c,'vi'); two=rows_for(c,'vi',two=True)
    prof=dict(reserve=8,shrink=5,alias=.15)
    for ty in VECTORS[:5]:
        sc=seq_scripts(c,ty,1,rows,'m',[1,3,5],scale(c,350,20000),scale(c,700,8000),prof)
        sc+=seq_scripts(c,ty,1,two,'w',[1,5],scale(c,120,3000),0)+seqgen.giant_scripts(c.rng,ty,1,scale(c,12,100),'G')+seqgen.roomy_scripts(c.rng,ty,1,scale(c,90,900),'R')
        for k in range(scale(c,8,40)):
            n=c.rng.choice([50,100,1000,3000])
            sc.append('S g%d %s 1\n'%(k,ty)+'\n'.join([seqgen.random_op(c.rng,ty,seqgen.DEFAULT) for _ in range(3)]+[seqgen.line('grow',seqgen.vals(c.rng,ty,1),m=k%2,ov=k%3,o=k%3,n=n)]))
        seq_conform(c,ty,['buffer'],sc,exe)
    huge(c,['vc','vi'],scale(c,40,800),dict(reserve=6,resize=8))
def C08(c):
    types=['string','vi','vc','vb','ve']
    exe=build_seq(types)
    for ty in types:
        prof=dict(huge=40,big=.01)
        sc=seqgen.random_scripts(c.rng,ty,1,scale(c,900 if ty=='string' else 500,8000),prof,'h',6,20)
        seq_conform(c,ty,['content','huge','buffer'],sc,exe)
def seq_C09(c):
    types=['string','vi','ve']
    exe=build_seq(types)
    for ty in types:
        rows=rows_for(c,ty,two=True)
        prof=dict(mvassign=5,mvcreate=3,swap=6,shrink=5,alias=.2,mvsubstr=3,substr=2,concat=3)
        sc=seq_scripts(c,ty,3,rows,'w',[1,8,11,23] if ty=='string' else [1,5],scale(c,500,5000),scale(c,1200,10000),prof)
        seq_conform(c,ty,['mem'],sc,exe)

def seq_C06(c):
    exe=build_seq(['ve'])
    rows=rows_for(c,'ve'); two=rows_for(c,'ve',two=True)
    prof=dict(alias=.2,mvassign=4,swap=4,shrink=4,big=0)
    sc=seq_scripts(c,'ve',5,rows,'m',[1,3],scale(c,900,20000),scale(c,1500,8000),prof)
    sc+=seq_scripts(c,'ve',5,two,'w',[1,5],scale(c,300,3000),0)
    seq_conform(c,'ve',['life'],sc,exe)
def seq_C07(c):
    types=['string','ve','vi']
    exe=build_seq(types)
    for ty in types:
        rows=rows_for(c,ty); two=rows_for(c,ty,two=True)
        fl=7 if ty=='ve' else 3
        asp=['content','fault','mem']+(['life'] if ty=='ve' else [])+(['nul'] if ty=='string' else [])
        kinds=[1,2,3,4] if ty=='ve' else [1,3,4]
        prof=dict(alias=.25,fault=.7,faults=kinds,big=.01,sizes=[0,1,1,2,3,4,5,8,9,10,11,12] if ty=='ve' else None)
        sc=[]
        for f in kinds:
            Ks=[1,11,23] if ty=='string' else [1,5]
            for K in Ks:
                sc+=seqgen.expand(rows,c.rng,ty,fl,K,'m%d%d_'%(f,K),f,2,limit=scale(c,220 if ty!='vi' else 100,8000))
                if f!=2: sc+=seqgen.expand(two,c.rng,ty,fl,K,'w%d%d_'%(f,K),f,2,limit=scale(c,80,3000))
        sc+=seqgen.random_scripts(c.rng,ty,fl,scale(c,1200 if ty!='vi' else 400,8000),prof,'r')
        seq_conform(c,ty,asp,sc,exe)
# ---------------------------------------------------------------- optional and variant
SUMS=['oi','oe','ob','os','v1','v2','v5','vs','vw','on']
def build_sum(types,wide=0,**k):
    units=[('sum_table.cpp','table',[])]+[('sum_mod.cpp','t%d'%SUMS.index(t),['-DSUM_TYPE=%d'%SUMS.index(t)]) for t in types]
    if wide: units.append(('sum_wide.cpp','wide%d'%wide,['-DWIDE=%d'%wide,'-O0','-g0']))
    return lib.build('sum',units,**k)
def mc_sum(c,ty):
    opt=ty[0]=='o'
    return c.mc('MCSum',dict(NObj=2,Alts=1 if opt else sumgen.ALTS[ty],Opt=opt,Show=True),'optional' if opt else '%d alternatives'%sumgen.ALTS[ty],
        invariants=('OneAlternative','EmptyHasNoValue'),properties=('Frames','Neutral','VisitKeeps','Strong'),extra=MCX,workers=1)
def sum_scripts(c,ty,flags,limit,n,prof=None,ops=None,faults=(),pf=0,fault=0,key='m'):
    rows=mc_sum(c,ty)
    return sumgen.expand(rows,c.rng,ty,flags,key,fault,2,limit,ops)+(sumgen.random_scripts(c.rng,ty,flags,n,prof or {},key+'r',faults=faults,pf=pf) if n else [])
def sum_conform(c,ty,aspects,scripts,exe): c.conform(ty,'TrSum',dict(Aspects=aspects),exe,scripts)
def C12(c):
    step_sum(c,True,staletag='Tagged',keep='Tagged',self='Refines')
    exe=build_sum(sumgen.OPTIONALS)
    for ty in sumgen.OPTIONALS:
        sum_conform(c,ty,['content','access'],sum_scripts(c,ty,0,None,scale(c,500,8000)),exe)
    tree(c,'o',None,scale(c,250,3000))
def C13(c):
    step_sum(c,False,self='NoUB',tagfirst='NoUB',destroyfirst='Tagged',keep='NoUB')
    types=sumgen.VARIANTS
    exe=build_sum(types,254 if c.thorough else 130)
    for ty in types:
        sc=sum_scripts(c,ty,4,scale(c,1500,None),scale(c,400,6000),dict(visit=1),[o for o in sumgen.VAR if o!='visit'])
        for f in (1,2) if ty!='v2' else (2,):
            sc+=sumgen.expand(mc_sum(c,ty),c.rng,ty,4,'f%d_'%f,f,2,scale(c,250,4000),['create','assign','emplace'])
        sum_conform(c,ty,['content','access'],sc,exe)
    sum_conform(c,'vw',['content','access','visit'],sumgen.random_scripts(c.rng,'vw',0,scale(c,400,3000),{},'w'),exe)
    tree(c,'v',None,scale(c,250,3000))
def sum_C14(c):
    exe=build_sum(sumgen.VARIANTS)
    for ty in sumgen.VARIANTS:
        sum_conform(c,ty,['content','visit'],sum_scripts(c,ty,0,None,scale(c,300,5000),dict(visit=20),['visit']),exe)
def sum_C06(c):
    types=['oe','on','v1','v2','v5','vs']
    exe=build_sum(types)
    for ty in types:
        sc=sum_scripts(c,ty,4,scale(c,700,None),scale(c,500,8000),ops=[o for o in sumgen.DEFAULT if o not in('read','visit')])
        sum_conform(c,ty,['life'],sc,exe)
def sum_C07(c):
    types=['oe','os','v2','v5','vs']
    exe=build_sum(types)
    for ty in types:
        kinds=[k for k in (1,2,4) if (k==2 and ty!='os') or (k!=2 and ty[1]=='s')]
        sc=[]; rows=mc_sum(c,ty)
        for f in kinds: sc+=sumgen.expand(rows,c.rng,ty,6,'m%d_'%f,f,3,scale(c,600,None),['create','mvcreate','assign','mvassign','emplace','reset','swap'])
        sc+=sumgen.random_scripts(c.rng,ty,6,scale(c,500,8000),{},'r',faults=kinds,pf=.6)
        sum_conform(c,ty,['content','fault','life','mem'],sc,exe)
def sum_C09(c):
    types=['os','vs']
    exe=build_sum(types)
    for ty in types: sum_conform(c,ty,['mem'],sum_scripts(c,ty,2,scale(c,500,None),scale(c,500,6000)),exe)
def sum_C11(c):
    types=['oe','os','v2','v5','vs']
    exe=build_sum(types)
    for ty in types: sum_conform(c,ty,['content'],sum_scripts(c,ty,0,scale(c,700,None),scale(c,300,6000),dict(swap=9,mvassign=8,mvcreate=5,read=0,visit=0),['create','mvcreate','assign','mvassign','swap','write']),exe)
def sum_C21(c):
    types=['oe','ob','v2','v5']
    exe=build_sum(types)
    for ty in types: sum_conform(c,ty,['access','content'],sum_scripts(c,ty,0,None,scale(c,200,3000),dict(read=20),['read']),exe)
def C06(c):
    step_seq(c,False,leftover='Neat',over='NoUB'); step_sum(c,False,inplace='NoUB'); step_sum(c,True,destroyfirst='NoUB')
    seq_C06(c); sum_C06(c)
    tree(c,'vos',None,scale(c,300,4000))
def C07(c):
    step_seq(c,True,noundo='Ended'); step_seq(c,False,noundo='Neat',movefirst='Strong'); step_sum(c,False,destroyfirst='Strong'); step_sum(c,True,tagfirst='Tagged')
    seq_C07(c); sum_C07(c)
def seq_C11(c):
    types=['string','vi','ve']
    exe=build_seq(types)
    for ty in types:
        rows=rows_for(c,ty,two=True)
        prof=dict(create=6,mvassign=6,mvcreate=4,swap=7,assign=7,write=5)
        sc=seq_scripts(c,ty,0,rows,'w',[1,8,11,23] if ty=='string' else [1,5],scale(c,700,5000),scale(c,900,8000),prof)
        seq_conform(c,ty,['content'],sc,exe)
def seq_C21(c):
    for ty in ['string','vi','ve']:
        exe=build_seq([ty])
        sc=seqgen.random_scripts(c.rng,ty,1,scale(c,500,5000),dict(read=40,write=6),'a')
        seq_conform(c,ty,['access','content'],sc,exe)

# ---------------------------------------------------------------- bitset
def build_bits(**k): return lib.build('bits',[('bits_mod.cpp','bits',[])],**k)
def mc_bits(c,n,nobj=2,texts=2): return c.mc('MCBits',dict(N=n,NObj=nobj,Texts=texts,Show=True),'%d bits'%n,invariants=('Typed','Laws'),properties=('Frames',),extra=MCX,workers=1)
def bits_conform(c,label,aspects,scripts,exe): c.conform(label,'TrBits',dict(Aspects=aspects),exe,scripts)
def C15(c):
    step_bits(c,set='Trailing',flip='Trailing',shift='Trailing',carry='Refines',limit='Refines',mask='Queries')
    exe=build_bits(); sc=[]
    for n in (0,1,2,3) if c.thorough else (0,1,2): sc+=bitgen.expand(mc_bits(c,n,2,1),c.rng,n,0,'m%d_'%n,scale(c,1500,None))
    sc+=bitgen.expand(mc_bits(c,4,1,0),c.rng,4,0,'m4_',scale(c,1500,None))
    if c.thorough: sc+=bitgen.expand(mc_bits(c,7,1,0),c.rng,7,0,'m7_',40000)
    bits_conform(c,'small',['content'],sc,exe)
    sc=[]
    for n in bitgen.SIZES: sc+=bitgen.random_scripts(c.rng,n,0,scale(c,90 if n<100 else 50 if n<500 else 12,1200 if n<500 else 150),{},'r%d_'%n)
    for n in bitgen.HUGE+[1030]: sc+=bitgen.huge_scripts(c.rng,n,scale(c,8,60),'h%d_'%n)
    bits_conform(c,'random',['content'],sc,exe)
    huge(c,['bt'],scale(c,60,800))
def bits_C16(c):
    exe=build_bits(); sc=[]
    for n in (1,2,3): sc+=bitgen.expand(mc_bits(c,n,1,scale(c,4,6)),c.rng,n,0,'m%d_'%n,scale(c,2500,None),['in','out'])
    bits_conform(c,'small',['stream'],sc,exe)
    sc=[]
    for n in bitgen.SIZES: sc+=bitgen.random_scripts(c.rng,n,0,scale(c,40 if n<500 else 12,400 if n<500 else 60),{'in':40,'out':10},'r%d_'%n)
    bits_conform(c,'random',['stream'],sc,exe)
def bits_C21(c):
    exe=build_bits(); sc=[]
    for n in bitgen.SIZES: sc+=bitgen.random_scripts(c.rng,n,0,scale(c,30 if n<500 else 8,300 if n<500 else 40),dict(read=30,set=8,reset=8,flip=8),'a%d_'%n)
    bits_conform(c,'bitset',['access'],sc,exe)
def bits_C11(c):
    exe=build_bits(); sc=[]
    for n in bitgen.SIZES: sc+=bitgen.random_scripts(c.rng,n,0,scale(c,20,200),dict(create=8,assign=10,mvcreate=6,swap=12,read=0,**{'in':0}),'v%d_'%n)
    bits_conform(c,'bitset',['content'],sc,exe)
# ---------------------------------------------------------------- drivers of one translation unit
def both(c,label,spec,exes,scripts,aspects=('all',)):
    """half of the scripts with each build"""
    scripts=list(scripts); c.rng.shuffle(scripts)
    for k,exe in enumerate(exes): c.conform(label+(' g++',' clang++ with sanitizers')[k],spec,dict(Aspects=aspects),exe,scripts[k::2])
def C22(c):
    exes=lib.single('iter'); sc=[]
    rows={}
    for n in ((1,2,3) if c.thorough else (1,2)):
        for back in (False,True):
            rows[n,back]=c.mc('MCIter',dict(N=n,Back=back,Show=True),'%d elements%s'%(n,', reverse' if back else ''),invariants=('InRange','Laws','BaseLaw'),properties=('Writes','Keeps'),extra=MCX,workers=1)
    for ty in itergen.TYPES:
        for (n,back),rs in rows.items():
            if itergen.FIXED.get(ty,n)!=n: continue
            sc+=itergen.expand(rs,c.rng,ty,n,'m%s%d%d_'%(ty,n,back),scale(c,220,6000))
        sc+=itergen.random_scripts(c.rng,ty,scale(c,140,2500),'r%s_'%ty)
    both(c,'iterators','TrIter',exes,sc)
    huge(c,[t for t in hugegen.TYPES if t!='bt'],scale(c,20,400),dict(walk=40))
def mc_view(c,text): return c.mc('MCView',dict(Text=text,Show=True),'string_ref' if text else 'array_ref',invariants=('AllWithin','Laws'),properties=('Writes','Keeps','Seen'),extra=MCX,workers=1)
def C18(c):
    exes=lib.single('view'); sc=[]
    for text in (False,True):
        rows=mc_view(c,text)
        for ty in (['s'] if text else viewgen.ARRAYS):
            sc+=viewgen.expand(rows,c.rng,ty,'m'+ty,scale(c,2500 if text else 1200,None if text else 20000))
            sc+=viewgen.random_scripts(c.rng,ty,scale(c,600,8000),{},'r'+ty)
    for ty in ('ai1','ac1','s1'): sc+=viewgen.random_scripts(c.rng,ty,scale(c,40,500),{},'w'+ty,6,14)
    for ty in ('ai2','s2'): sc+=viewgen.random_scripts(c.rng,ty,scale(c,14,60),{},'w'+ty,5,9)
    both(c,'views','TrView',exes,sc)
    huge(c,hugegen.VIEWS,scale(c,60,1500))
def view_C21(c):
    exes=lib.single('view'); sc=[]
    for ty in viewgen.ARRAYS+['s']: sc+=viewgen.random_scripts(c.rng,ty,scale(c,200,2500),dict(at=40),'a'+ty)
    both(c,'views','TrView',exes,sc)
def view_C16(c):
    exes=lib.single('view')
    both(c,'string_ref','TrView',exes,viewgen.random_scripts(c.rng,'s',scale(c,200,2500),dict(out=30),'o'))
# ---------------------------------------------------------------- more than 2^32 elements
def mc_huge(c):
    for k in scale(c,(3,),(1,2,3,4)): c.mc('MCHuge',dict(Room=4 if c.thorough else 3,Which=k),'positions around a carry (%d)'%k,invariants=('Same','Inside','Laws'))
def huge(c,types,n,prof=None):
    mc_huge(c); sc=[]
    for ty in types: sc+=hugegen.random_scripts(c.rng,ty,n,prof or {},'h%s_'%ty)
    both(c,'more than 2^32 elements','TrHuge',lib.single('huge',('-Wl,--wrap=calloc',)),sc)
# ---------------------------------------------------------------- references
def mc_ref(c,opt,alts): return c.mc('MCRef',dict(Opt=opt,Alts=alts,Show=True),'optional_ref' if opt else 'variant_ref '+alts,invariants=('Valid',),properties=('Untouched','Bound','OneWritten','ConstKept','Shared'),extra=MCX+'CONSTRAINT Few\n',workers=1)
REFS=['o','v1','v2','v3','v4','v5']
def ref_scripts(c,types,limit,n,prof=None):
    sc=[]
    for ty in types:
        if ty!='v5' and limit: sc+=refgen.expand(mc_ref(c,ty=='o','none' if ty=='o' else ty),c.rng,ty,'m%s_'%ty,limit)
        sc+=refgen.random_scripts(c.rng,ty,n,prof or {},'r%s_'%ty)
    return sc
def C19(c):
    exes=lib.single('ref')
    both(c,'references','TrRef',exes,ref_scripts(c,REFS,scale(c,800,20000),scale(c,300,5000)),['content'])
def ref_C14(c):
    exes=lib.single('ref')
    both(c,'variant_ref','TrRef',exes,ref_scripts(c,REFS[1:],None,scale(c,250,3000),dict(throw=8,result=8,write=10)),['content'])
def ref_C21(c):
    exes=lib.single('ref')
    both(c,'references','TrRef',exes,ref_scripts(c,REFS,None,scale(c,200,2000),dict(value=25,clear=6,bind=12)),['content'])
def C20(c):
    exes=lib.single('call'); sc=[]
    rows=c.mc('MCCall',dict(Show=True),'function_ref',invariants=('ConstOnly',),properties=('Shares','Keeps','Once'),extra=MCX+'CONSTRAINT Few\n',workers=1)
    for ty in callgen.SIGS:
        sc+=callgen.expand(rows,c.rng,ty,'m%s_'%ty,scale(c,250,6000))
        sc+=callgen.random_scripts(c.rng,ty,scale(c,150,3000),'r%s_'%ty)
    both(c,'function_ref','TrCall',exes,sc)
# ---------------------------------------------------------------- nodes that own each other
def step_tree(c):
    k=dict(NR=2,NN=4 if c.thorough else 3)
    c.mc('StepTree',dict(k,Bug=''),'assignment step by step',invariants=('NoUB','Neat','Taken'),properties=('Ends',),workers=4)
    for b,what in dict(releasefirst='NoUB',selfmove='NoUB',leak='Neat').items(): c.mc_fails('StepTree',dict(k,NN=3,Bug=b),what,b,invariants=(what,))
def tree(c,kinds,prof,n,rows=0,limit=0):
    """objects kept alive by each other through variant, optional and vector"""
    exes=lib.single('tree'); sc=[]
    if rows:
        rs=c.mc('MCTree',dict(Roots=[1],Nodes=[3,4],MaxLen=2,Show=True),'objects that own each other',invariants=('Sound',),properties=('Kept','Dies','Frame','Taken'),extra='CONSTRAINT Small\n'+MCX,workers=4)
        sc+=treegen.expand(rs,c.rng,'m',limit)
    sc+=treegen.random_scripts(c.rng,n,'r',kinds,prof)
    c.rng.shuffle(sc)
    for k,exe in enumerate(exes): c.conform('objects that own each other'+(' g++',' clang++ with sanitizers')[k],'TrTree',dict(Aspects=['all'],Roots=[1,2]),exe,sc[k::2])
# ---------------------------------------------------------------- array and tuple

AGGS=list(agggen.SIZE)
def mc_agg(c,n): return c.mc('MCAgg',dict(N=n,Show=True),'%d elements'%n,invariants=('Sized','Total','Injective'),properties=('Frames','OneElement','Swapped'),extra=MCX,workers=1)
def agg_scripts(c,flags,limit,n,prof=None,types=AGGS):
    sc=[]; rows={}
    for ty in types:
        k=agggen.SIZE[ty]
        if limit and k in(0,1,3):
            if k not in rows: rows[k]=mc_agg(c,k)
            sc+=agggen.expand(rows[k],c.rng,ty,flags,'m%s_'%ty,limit)
        sc+=agggen.random_scripts(c.rng,ty,flags,max(12,n//8) if ty in agggen.LONG else n,prof or {},'r%s_'%ty)
    return sc
def agg(c,label,aspects,*a,**k): both(c,label,'TrAgg',lib.single('agg'),agg_scripts(c,*a,**k),aspects)
def C23(c): agg(c,'array and tuple',['content'],0,scale(c,500,20000),scale(c,200,4000)); huge(c,hugegen.FIXED,scale(c,40,600))
def agg_C11(c): agg(c,'array and tuple',['content'],0,scale(c,150,5000),scale(c,120,2000),dict(copy=6,mvcopy=5,assign=8,mvassign=6,swap=9,take=3,read=1))
def agg_C21(c): agg(c,'array',['content'],0,None,scale(c,150,2000),dict(at=30),types=[t for t in AGGS if t[0]=='a'])
def agg_C17(c): agg(c,'array and tuple',['compare'],0,scale(c,150,5000),scale(c,200,3000),dict(create=12,write=8,assign=5,take=0),types=[t for t in AGGS if t not in agggen.BLUNT])
# ---------------------------------------------------------------- comparisons
def cmp_C17(c):
    exes=lib.single('cmp'); rows={}; sc=[]
    for ty,kind in cmpgen.MODEL.items():
        if kind not in rows: rows[kind]=c.mc('MCCmp',dict(Kind=kind,Letters=3,MaxLen=3 if kind=='sequence' else 2,Show=True),kind,invariants=('Laws',),extra='ACTION_CONSTRAINT Emit\n',workers=1)
        for k in range(scale(c,1,12)): sc+=cmpgen.expand(rows[kind],c.rng,ty,'m%s%d_'%(ty,k),scale(c,1600 if ty=='text' else 500,None))
        sc+=cmpgen.random_scripts(c.rng,ty,scale(c,500 if ty=='text' else 200,5000),'r%s_'%ty)
        if ty in('text','vi','vc','os'): sc+=cmpgen.expand(rows[kind],c.rng,ty,'g%s_'%ty,scale(c,40 if ty=='text' else 16,200),cmpgen.LONG)
    both(c,'comparisons','TrCmp',exes,sc,['order'])
def cmp_C16(c): both(c,'texts','TrCmp',lib.single('cmp'),cmpgen.random_scripts(c.rng,'text',scale(c,400,4000),'o'),['output'])
# ---------------------------------------------------------------- binary layout
def sprinkle(rng,scripts,make,p=.18):
    """requests executed by a peer that knows only the layout, in between the library's"""
    out=[]
    for s in scripts:
        ls=s.split('\n'); r=[ls[0]]
        for x in ls[1:]:
            if x and rng.random()<p: r.append(make())
            if x: r.append(x)
        out.append('\n'.join(r+[make()] if rng.random()<.3 else r))
    return out
def C10(c):
    rng=c.rng
    c.mc('MCLayout',dict(Size=3),'encodings',invariants=('RoundTrip','Injective','Separate'))
    exe=build_seq(['string','vi','vc','vb','vo'])
    for ty in ['string','vi','vc','vb','vo']:
        s=ty=='string'
        rows=rows_for(c,ty); two=rows_for(c,ty,two=True)
        sc=seq_scripts(c,ty,11,rows,'m',[1,8,11,23] if s else [1,5],scale(c,250 if s else 120,4000),scale(c,500 if s else 200,4000))
        sc+=seq_scripts(c,ty,11,two,'w',[1,11,23] if s else [1,5],scale(c,120 if s else 60,1500),0)
        make=lambda: seqgen.line('foreign',seqgen.vals(rng,ty,rng.choice([1,2,3,8])),ov=rng.randrange(2),o=rng.randrange(3),i=rng.choice([0,0,1,5,30]),n=rng.choice([-1,0,1,2,7,21,22,22,23,24,40,69]))
        seq_conform(c,ty,['content','image','mem'],sprinkle(rng,sc,make),exe)
    types=['oi','ob','os','v1','v2','v5','vs']
    exe=build_sum(types,254 if c.thorough else 130)
    for ty in types+['vw']:
        fl=10 if ty[1]=='s' else 8
        sc=sum_scripts(c,ty,fl,scale(c,300,None),scale(c,200,4000)) if ty!='vw' else sumgen.random_scripts(rng,'vw',8,scale(c,150,2000),dict(visit=1),'w')
        make=lambda: sumgen.line('foreign',0,0,rng.randrange(3),0,rng.randrange(0,11),rng.randrange(1,120),rng.randrange(2),rng.randrange(30))
        sum_conform(c,ty,['content','access','image']+(['mem'] if fl==10 else []),sprinkle(rng,sc,make),exe)
    exe=build_bits(); sc=[]
    for n in bitgen.SIZES:
        make=lambda: bitgen.line('foreign',o=rng.randrange(3),text=[k for k in range(n) if rng.random()<.4])
        sc+=sprinkle(rng,bitgen.random_scripts(rng,n,8,scale(c,25,300),{},'l%d_'%n),make)
    bits_conform(c,'bitset',['content','image'],sc,exe)
    sc=[]
    for ty in [t for t in AGGS if t not in agggen.NOIMAGE]:
        make=lambda: agggen.line('foreign',rng.randrange(3),vals=[rng.randrange(256) for _ in range(agggen.SIZE[ty])])
        sc+=sprinkle(rng,agg_scripts(c,8,scale(c,150,4000),scale(c,150,2000),types=[ty]),make)
    both(c,'array and tuple','TrAgg',lib.single('agg'),sc,['content','image'])
    sc=[]
    for ty in viewgen.ARRAYS+['s']:
        make=lambda: viewgen.line('make',rng.randrange(4),0,rng.randrange(12),rng.randrange(40),rng.randrange(40),0,6 if ty=='s' else 7)
        sc+=sprinkle(rng,viewgen.random_scripts(rng,ty,scale(c,150,2000),{},'l'+ty),make,.3)
    both(c,'views','TrView',lib.single('view'),sc,['image'])
    sc=[]
    for ty in REFS:
        make=lambda: refgen.line('bind',rng.randrange(4),0,rng.randrange(40),8,0)
        sc+=sprinkle(rng,refgen.random_scripts(rng,ty,scale(c,150,2000),{},'l'+ty),make,.3)
    both(c,'references','TrRef',lib.single('ref'),sc,['content','image'])
    sc=[]
    for ty in callgen.SIGS:
        make=lambda: callgen.line(*rng.choice([('bind',rng.randrange(3),0,2,8),('call',rng.randrange(3),0,0,8,rng.choice([1,666,rng.randrange(1000)]))]))
        sc+=sprinkle(rng,callgen.random_scripts(rng,ty,scale(c,60,1000),'l%s_'%ty),make,.3)
    both(c,'function_ref','TrCall',lib.single('call'),sc,['all','image'])
# ---------------------------------------------------------------- independence
def C24(c):
    os.environ['PTL_HIDDEN']='1'      # the ordinary builds watch every variable the library's headers define
    rng=c.rng
    c.mc('MCShare',dict(Threads=[1,2,3],Rounds=3 if c.thorough else 2,Scratch='none'),'no hidden state',invariants=('Sequential','SharedKept'),properties=('OnlyOwn',))
    for how in ('static','const','shared'): c.mc_fails('MCShare',dict(Threads=[1,2],Rounds=2,Scratch=how),'Sequential','hidden state: '+how,invariants=('Sequential',))
    fams='iter view ref call agg cmp share'.split()
    lib.together(*[lambda f=f: lib.threads(f) for f in fams],*[lambda f=f: lib.single(f) for f in fams],
        *[lambda b=b,a=a,t=t: b(*a,threads=t) for t in (True,False) for b,a in ((build_seq,(['string','vi','ve'],)),(build_sum,(['oi','oe','os','v2','v5','vs'],)),(build_bits,()))])
    share=[x for ty in sharegen.TYPES for x in sharegen.scripts(rng,ty,scale(c,60,800),'s')]
    c.conform('shared objects, race detector','TrShare',dict(Aspects=['all']),lib.threads('share'),share,shards=4)
    c.conform('shared objects','TrShare',dict(Aspects=['all']),lib.single('share')[0],share[::2],shards=4)
    def two(label,spec,aspects,threaded,plain,scripts):
        scripts=list(scripts); rng.shuffle(scripts)
        c.conform(label+' in threads','Tr'+spec,dict(Aspects=aspects),threaded,scripts,shards=4)
        c.conform(label+' watching statics','Tr'+spec,dict(Aspects=aspects),plain,scripts[::3],shards=4)
    types=['string','vi','ve']
    t,p=build_seq(types,threads=True),build_seq(types)
    for ty in types: two(ty,'Seq',['content'],t,p,seqgen.random_scripts(rng,ty,0,scale(c,500,6000),dict(big=.02),'t')+[x for r in [rows_for(c,ty)] for x in seqgen.expand(r,rng,ty,0,11 if ty=='string' else 3,'e',0,2,limit=scale(c,300,5000))])
    types=['oi','oe','os','v2','v5','vs']
    t,p=build_sum(types,threads=True),build_sum(types)
    for ty in types: two(ty,'Sum',['content','access','visit'] if ty[0]=='v' else ['content','access'],t,p,sumgen.random_scripts(rng,ty,0,scale(c,250,4000),{},'t'))
    t,p=build_bits(threads=True),build_bits()
    two('bitset','Bits',['content','stream','access'],t,p,[x for n in bitgen.SIZES for x in bitgen.random_scripts(rng,n,0,scale(c,20,250),{},'t%d_'%n)])
    for fam,spec,aspects,sc in (
        ('iter','Iter',['all'],[x for ty in itergen.TYPES for x in itergen.random_scripts(rng,ty,scale(c,50,1000),'t%s_'%ty)]),
        ('view','View',['all'],[x for ty in viewgen.ARRAYS+['s'] for x in viewgen.random_scripts(rng,ty,scale(c,120,2000),{},'t'+ty)]),
        ('ref','Ref',['content'],[x for ty in REFS for x in refgen.random_scripts(rng,ty,scale(c,100,1500),{},'t%s_'%ty)]),
        ('call','Call',['all'],[x for ty in callgen.SIGS for x in callgen.random_scripts(rng,ty,scale(c,50,1000),'t%s_'%ty)]),
        ('agg','Agg',['content','compare'],agg_scripts(c,0,None,scale(c,70,1000),types=[t for t in AGGS if t not in agggen.BLUNT])),
        ('cmp','Cmp',['all'],[x for ty in cmpgen.TYPES for x in cmpgen.random_scripts(rng,ty,scale(c,50,800),'t%s_'%ty)])):
        two(fam,spec,aspects,lib.threads(fam),lib.single(fam)[0],sc)
def C17(c): cmp_C17(c); agg_C17(c)
def C14(c): sum_C14(c); ref_C14(c)
def stream_C16(c):
    """one stream with all its formatting and error states, used for output and input"""
    exes=lib.single('stream'); sc=[]
    for n,o,ml,mw in scale(c,[(1,1,3,2)],[(1,1,3,2),(2,1,3,2),(1,2,2,1)]):
        c.mc('MCStream',dict(N=n,NObj=o,MaxLen=ml,MaxWidth=mw,Show=False),'%d bits, %d objects, %d characters'%(n,o,ml),invariants=('RoundTrip','Order','Unread','Whole'),properties=('Blocks','Once'),extra='VIEW view\nCONSTRAINT Few\n')
    for n,mw in scale(c,[(1,2)],[(1,2),(2,2)]):
        rows=c.mc('MCStream',dict(N=n,NObj=1,MaxLen=1,MaxWidth=mw,Show=True),'requests',extra=MCX+'CONSTRAINT Few\n',workers=1)
        sc+=streamgen.expand(rows,c.rng,n,'m%d_'%n,scale(c,2000,20000))
    for n in streamgen.SIZES: sc+=streamgen.random_scripts(c.rng,n,scale(c,60,900),'r%d_'%n)
    both(c,'one stream','TrStream',exes,sc)
def C16(c): bits_C16(c); view_C16(c); cmp_C16(c); stream_C16(c)
def C09(c):
    step_storage(c,ownmodule='Owned',notaken='Owned',keepdel='Owned',freefirst='NoUB',nodel='Told')
    seq_C09(c); sum_C09(c)
def C11(c):
    step_storage(c,order='NoUB'); step_sum(c,False,self='NoUB'); step_sum(c,True,self='Refines')
    seq_C11(c); sum_C11(c); bits_C11(c); agg_C11(c)
    step_tree(c); tree(c,'vos',dict(move=14,copy=12,swap=8),scale(c,300,4000),1,scale(c,700,20000))
def C21(c): seq_C21(c); sum_C21(c); bits_C21(c); view_C21(c); ref_C21(c); agg_C21(c); huge(c,hugegen.TYPES,scale(c,16,300),dict(at=40))

ALL={k:v for k,v in globals().items() if k[0]=='C' and k[1:].isdigit()}
if __name__=='__main__':
    p=sys.argv[1]
    sys.exit(engine.main(p,ALL[p]))
