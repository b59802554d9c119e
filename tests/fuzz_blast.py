import sys,random
sys.path.insert(0,'/verif')
from vt import term as T, smt
R=random.Random(int(sys.argv[1]))
# random terms, check value equality under both back ends
def gen(vs,d):
    if d==0: 
        x=R.choice(vs); return x if R.random()<.8 else T.const(R.randrange(1<<x.w),x.w)
    op=R.choice(['add','sub','mul','udiv','urem','and','or','xor','shl','lshr','ashr','ctlz','cttz','ctpop','ite','slt','ult','eq'])
    a=gen(vs,d-1);b=gen(vs,d-1)
    if op in('ctlz','cttz','ctpop'): return getattr(T,op)(a)
    if op=='ite': return T.ite(T.bit(gen(vs,d-1),R.randrange(a.w)),a,b)
    if op in('slt','ult','eq'): return T.zext(getattr(T,op)(a,b),a.w)
    return {'and':T.band,'or':T.bor,'xor':T.bxor}.get(op) and {'and':T.band,'or':T.bor,'xor':T.bxor}[op](a,b) or getattr(T,op)(a,b)
for it in range(int(sys.argv[2])):
    T.reset();T._refresh_consts()
    w=R.choice([4,6,8])
    vs=[T.var('x',w),T.var('y',w)]
    t=gen(vs,3)
    env={'x':R.randrange(1<<w),'y':R.randrange(1<<w)}
    v=T.evalc(t,env)
    conds=[T.eq(vs[0],T.const(env['x'],w)),T.eq(vs[1],T.const(env['y'],w))]
    for val,exp in((v,'sat'),(v^R.randrange(1,1<<w),'unsat')):
        c=conds+[T.mk('eq',1,(t,T.const(val,w))) if t.op!='c' else T.eq(t,T.const(val,w))]
        r1=smt.solve_z3(c,20)[0]; r2=smt.solve_sat(c,20)[0]
        assert r1==exp and r2==exp,(T.show(t),env,v,val,r1,r2)
print('ok')
