import sys,random
sys.path.insert(0,'/verif')
from vt import term as T
R=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
N=int(sys.argv[2]) if len(sys.argv)>2 else 20000
ENVS=6
def sv(x,w): return x-(1<<w) if x>>(w-1)&1 else x
def rnd(w):
    k=R.randrange(5)
    if k==0: return R.randrange(1<<w)
    if k==1: return R.choice([0,1,(1<<w)-1,1<<(w-1),(1<<w-1)-1,2%(1<<w)])
    if k==2: return (1<<R.randrange(w))
    if k==3: return ((1<<R.randrange(w+1))-1)
    return R.randrange(1<<min(w,4))
def run():
    T.reset();T._refresh_consts()
    envs=[{} for _ in range(ENVS)]
    pool=[]
    def add(t,vals):
        pool.append((t,[v&((1<<t.w)-1) for v in vals]))
        t2,vs=pool[-1]
        for e,v in zip(envs,vs):
            g=T.evalc(t2,e)
            assert g==v,(T.show(t2,8),e,hex(v),hex(g))
            assert t2.lb<=v<=t2.ub,(T.show(t2),v,t2.lb,t2.ub)
            assert v&t2.kz==0,(T.show(t2,9),v,t2.kz)
    ws=[1,2,4,8,8,16]
    for i in range(4):
        w=R.choice(ws); n='v%d'%i
        ub=None;lb=0
        if R.random()<.3 and w>1: ub=R.randrange(1<<w); lb=R.randrange(ub+1)
        vals=[]
        for e in envs:
            x=rnd(w)
            if ub is not None and not lb<=x<=ub: x=R.randint(lb,ub)
            e[n]=x; vals.append(x)
        add(T.var(n,w,ub,lb),vals)
    for i in range(2):
        w=R.choice(ws);c=rnd(w);add(T.const(c,w),[c]*ENVS)
    for step in range(25):
        op=R.choice("add sub mul udiv urem and or xor not ite eq ult slt shl lshr ashr concat extract sext zext ctlz cttz ctpop sdiv srem rotl trunc const bswap".split())
        a,av=R.choice(pool); w=a.w
        same=[p for p in pool if p[0].w==w]
        b,bv=R.choice(same)
        if op=='const':
            c=rnd(w);add(T.const(c,w),[c]*ENVS);continue
        m=(1<<w)-1
        z=list(zip(av,bv))
        if op=='add': add(T.add(a,b),[x+y for x,y in z])
        elif op=='sub': add(T.sub(a,b),[x-y for x,y in z])
        elif op=='mul': add(T.mul(a,b),[x*y for x,y in z])
        elif op=='udiv': add(T.udiv(a,b),[x//y if y else m for x,y in z])
        elif op=='urem': add(T.urem(a,b),[x%y if y else x for x,y in z])
        elif op=='and': add(T.band(a,b),[x&y for x,y in z])
        elif op=='or': add(T.bor(a,b),[x|y for x,y in z])
        elif op=='xor': add(T.bxor(a,b),[x^y for x,y in z])
        elif op=='not': add(T.bnot(a),[~x for x in av])
        elif op=='eq': add(T.eq(a,b),[int(x==y) for x,y in z])
        elif op=='ult': add(T.ult(a,b),[int(x<y) for x,y in z])
        elif op=='slt': add(T.slt(a,b),[int(sv(x,w)<sv(y,w)) for x,y in z])
        elif op=='shl': add(T.shl(a,b),[x<<y if y<w else 0 for x,y in z])
        elif op=='lshr': add(T.lshr(a,b),[x>>y if y<w else 0 for x,y in z])
        elif op=='ashr': add(T.ashr(a,b),[sv(x,w)>>min(y,w) for x,y in z])
        elif op=='rotl' :
            if w in (2,4,8,16): add(T.rotl(a,b),[(x<<(y%w)|x>>(w-y%w)) for x,y in z])
        elif op=='concat':
            b,bv=R.choice(pool)
            if a.w+b.w<=40: add(T.concat(a,b),[x<<b.w|y for x,y in zip(av,bv)])
        elif op=='extract':
            lo=R.randrange(w);hi=R.randrange(lo,w); add(T.extract(hi,lo,a),[x>>lo for x in av])
        elif op=='trunc':
            k=R.randrange(1,w+1);add(T.trunc(a,k),av)
        elif op=='zext': add(T.zext(a,w+R.choice([0,1,3,8])) if w<24 else a,av)
        elif op=='sext':
            if w<24:
                k=w+R.choice([0,1,3,8]);add(T.sext(a,k),[sv(x,w) for x in av])
        elif op=='ite':
            cs=[p for p in pool if p[0].w==1]
            if cs:
                c,cv=R.choice(cs);add(T.ite(c,a,b),[x if k else y for k,(x,y) in zip(cv,z)])
        elif op=='ctlz': add(T.ctlz(a),[w-x.bit_length() for x in av]) if (w&(w-1))==0 and w>=2 else 0
        elif op=='cttz': add(T.cttz(a),[(x&-x).bit_length()-1 if x else w for x in av]) if w>=2 else 0
        elif op=='ctpop': add(T.ctpop(a),[bin(x).count('1') for x in av])
        elif op=='bswap': 
            if w==16: add(T.bswap(a),[(x>>8)|(x<<8) for x in av])
        elif op in('sdiv','srem'):
            def q(x,y):
                x,y=sv(x,w),sv(y,w); k=abs(x)//abs(y); k=k if (x<0)==(y<0) else -k
                return k if op=='sdiv' else x-k*y
            if all(y for y in bv): add((T.sdiv if op=='sdiv' else T.srem)(a,b),[q(x,y) for x,y in z])
    # subst round trip
    t,v=R.choice(pool)
    e=0
    m={x.id:T.const(envs[e][x.v[0]],x.w) for x in T.vars_of([t])}
    r=T.subst([t],m)[0]
    assert r.op=='c' and r.v==v[e],(T.show(t,8),r)
for k in range(N): run()
print("ok",N)
