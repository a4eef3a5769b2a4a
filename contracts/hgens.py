"""HyperbolicTree::initialize_prngs: n generators, the i-th from its own block of numbers drawn from one generator with the given seed"""
from contracts.htree import *
from contracts.htree import _ptr
def init_prngs(c):
    m=c.load(htu(),hkeep); q=HT+"initialize_prngs"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); T=HTree(c,E,m,st); n,seed,f=z3.Ints("n seed f"); z=z3.IntVal(0)
    S=const(m,"state_size") if "verif_state_size" in getattr(m,"globals",{}) else None
    st.pc+=[n>=1,n<(1<<31)-1,seed>=0,seed<(1<<32),f>=0]; st.g.update(wrote=z,fresh=z,made=z,S=z3.Int("block"))
    ret=E.new_obj(st,"result"); noop=lambda e,s,a,i:UNDEF; rt.random(E)
    def setg(eng,s,**kw):
        for k,v in kw.items(): s.g[k]=v if isinstance(v,z3.ExprRef) else z3.IntVal(v); eng.note_write(("g",k))
    def vec(eng,s,a,i):
        if len(a)==1 or not isinstance(a[1],I): return UNDEF
        if a[0].r is ret: raise Unsupported("result constructed with a size")
        ln=toZ(eng.wrapu(s,a[1])); r=eng.new_arr(s,"seeds",4,{0:("int",32)},ln); s.tags["seeds"]=r; s.tags["len"]=ln; r.hooks[("w",0)]=[w]
        for o,v in((0,0),(8,4*ln),(16,4*ln)): eng.store(s,eng.padd(a[0],o),P(r,z3.simplify(toZ(v))),_ptr())
        return UNDEF
    def w(eng,s,j,v):
        eng.oblige(s,"every seed is a fresh number of the master generator",s.g["fresh"]==1,"post"); setg(eng,s,fresh=0,wrote=z3.simplify(s.g["wrote"]+z3.If(toZ(j)==f,1,0)))
    def ctor(eng,s,a,i):
        eng.oblige(s,"the master generator is seeded with the given seed and nothing else",toZ(eng.wrapu(s,a[1]))==seed,"post"); s.tags["master"]=(a[0].r.id,str(a[0].o)); return UNDEF
    def dist(eng,s,a,i):
        if not(isinstance(a[1],P) and s.tags.get("master")==(a[1].r.id,str(a[1].o))): raise Unsupported("another generator")
        setg(eng,s,fresh=1); return I(32,z3.Int(eng.name("draw")),0,(1<<32)-1)
    def seq(eng,s,a,i):
        b,e_=a[1],a[2]; r=s.tags["seeds"]
        if not(isinstance(b,P) and isinstance(e_,P) and b.r is r and e_.r is r): raise Unsupported("seed_seq over another range")
        bo,eo=toZ(b.o),toZ(e_.o); k=s.g["made"]; ln=eo-bo
        eng.oblige(s,"the numbers for a generator lie within the seeds",z3.And(bo>=0,eo<=4*s.tags["len"],bo<eo),"bounds")
        eng.oblige(s,"generator number k is built from the k-th block of seeds: no two generators share seeds",z3.And(bo==k*ln,eo==(k+1)*ln),"post")
        eng.oblige(s,"all seeds were drawn before they are used",z3.Implies(z3.And(bo<=4*f,4*f<eo),s.g["wrote"]==1),"post")
        s.tags["ss"]=(a[0].r.id,str(a[0].o)); return UNDEF
    def emplace(eng,s,a,i):
        if not(a[0].r is ret and isinstance(a[1],P) and s.tags.get("ss")==(a[1].r.id,str(a[1].o))): raise Unsupported("emplace_back of another generator")
        setg(eng,s,made=z3.simplify(s.g["made"]+1)); return UNDEF
    def reserve(eng,s,a,i): return UNDEF
    E.C={**{k:v for k,v in E.C.items() if k.startswith("std::random")},"std::vector::vector":vec,"std::vector::~vector":noop,"std::vector::reserve":reserve,"std::vector::emplace_back":emplace,"std::seed_seq::seed_seq":seq,"std::seed_seq::~seed_seq":noop,
        "std::mersenne_twister_engine::mersenne_twister_engine":ctor,"std::uniform_int_distribution::operator()":dist}
    def tpl(L):
        out=[("written so far",lambda M:M.st.g["wrote"]==M.entry.g["wrote"]+z3.If(f<M.K,1,0)),("nothing written",lambda M:M.st.g["wrote"]==M.entry.g["wrote"]),("nothing pending",lambda M:M.st.g["fresh"]==0),("generators made",lambda M:M.st.g["made"]==M.entry.g["made"]+M.K)]
        for i_,get in enumerate(L.ints()): out.append((f"loop variable {i_} counts",lambda M,get=get:toZ(get(M.st).t)==toZ(get(M.entry).t)+M.K))
        return out
    E.templates=tpl
    out=E.run_fn(F,[P(ret,0),P(T.this,0),I(64,n,0,(1<<31)-1),I(32,seed,0,(1<<32)-1)],st); c.cover(q,"returns",[z3.BoolVal(bool(out))])
    for s,v in out: c.cover(q,"a path to the end",s.pc); E.oblige(s,"exactly n random number generators are made",s.g["made"]==n,assume=False)
    c.discharge(E,dict(n=n,seed=seed))
