"""generators of weights, positions, radii and angles: every entry is written exactly once from a fresh random number of its own thread"""
from contracts._gsrc import *
G="girgs::"; H="hypergirgs::"
D8=None
def dty():
    t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8; return t
class Draws:
    """classes: {name: (lo,hi,F)}: numbers uniform in [lo,hi); an entry of output `name` must be F(number)"""
    def __init__(T,E,st,classes,n,seed,dims=None):
        T.E=E; T.cl=classes; T.n=n; T.seed=seed; T.dims=dims; z=z3.IntVal(0); T.f=z3.Int("f"); T.fd=z3.Int("fd"); T.vecs=[]; T.seeds=[]; T.tid=z3.Int("omp_tid"); T.draws_of={}; T.sched=[]
        st.pc+=[0<=T.f,T.f<n]
        for k in classes: st.g.update({"u_"+k:z3.Real("u0_"+k),"fresh_"+k:z,"cnt_"+k:z})
        T.names={}
        rt.omp(E); rt.random(E)
        E.C.update({"std::vector::vector":T.vec,"std::vector::~vector":lambda e,s,a,i:UNDEF,"std::mersenne_twister_engine::mersenne_twister_engine":T.ctor,"std::mersenne_twister_engine::seed":T.ctor,"std::mersenne_twister_engine::operator()":T.skip,"std::mersenne_twister_engine::discard":T.skip,"std::uniform_real_distribution::operator()":T.draw,"nextafter":T.nextafter})
        E.C["std::random_device::operator()"]=T.entropy
        for nm in("__kmpc_for_static_init_4","__kmpc_for_static_init_8","__kmpc_for_static_init_4u","__kmpc_for_static_init_8u"):
            E.C[nm]=lambda e,s,a,i:T.static(e,s,a)
        E.templates=T.tpl
    def static(T,e,s,a):
        k=conc(simp(toZ(a[2].t))); e.oblige(s,"entries are assigned to threads by a static schedule (the same assignment in every run)",z3.BoolVal(k in(33,34)),"post"); return UNDEF
    def entropy(T,e,s,a,i):
        e.oblige(s,"entropy is only used for negative seeds",T.seed<0,"post"); return I(32,z3.Int(e.name("entropy")),0,(1<<32)-1)
    def nextafter(T,e,s,a,i):
        x,y=toR(a[0].t),toR(a[1].t); r=z3.Real(e.name("next")); s.pc+=[z3.Implies(x<y,z3.And(r>x,r<=x+z3.RealVal("1/1000000000000")*z3.If(x>1,x,1))),z3.Implies(x>y,z3.And(r<x,r>=x-z3.RealVal("1/1000000000000")*z3.If(x>1,x,1))),z3.Implies(x==y,r==x)]; return R(r)
    def vec(T,e,s,a,i):
        v=a[0]; o=toZ(v.o)
        def put(reg,ln,stride):
            for off,val in((0,P(reg,0)),(8,P(reg,z3.simplify(stride*toZ(ln)))),(16,P(reg,z3.simplify(stride*toZ(ln))))): e.store(s,e.padd(v,off),val,_pty())
        if len(a)>1 and isinstance(a[1],I):
            ln=e.wraps(s,a[1])
            if len(a)>=3 and isinstance(a[2],P) and a[2].r is not None and (0,8) in s.mem.get(a[2].r.id,{}) and isinstance(s.mem[a[2].r.id][(0,8)],P):   # vector(n, row)
                row=s.mem[a[2].r.id][(0,8)]; rl=s.mem[row.r.id]["len"]; rows={}
                def view(eng,st,idx):
                    k=z3.simplify(toZ(idx)); ks=k.sexpr()
                    if ks not in rows:
                        r=Region("row[%s]"%ks,"arr",8,{0:("real",64)},"row",k); r.hooks[("w",0)]=[lambda en,s_,j,val:T.wrote(en,s_,"P",k,j,val)]; rows[ks]=r
                    r=rows[ks]
                    if r.id not in st.mem: st.mem[r.id]={0:z3.Array("row_"+ks,IS(),RS()),"len":rl}
                    return P(r,0)
                end=lambda eng,st,idx:(lambda q_:P(q_.r,z3.simplify(8*toZ(rl))))(view(eng,st,idx)); reg=e.new_arr(s,"positions",24,{0:("fn",view),8:("fn",end)},ln); put(reg,ln,24); s.tags["out"]=s.tags.get("out",())+((reg.id,"P"),); return UNDEF
            reg=e.new_arr(s,"vec",8,{0:("real",64)},ln); put(reg,ln,8); reg.hooks[("w",0)]=[lambda en,s_,j,val,rid=reg.id:T.wrote(en,s_,rid,j,None,val)]
            return UNDEF
        if len(a)>1 and isinstance(a[1],P) and a[1].r is not None:    # copy/move
            for off in(0,8,16): e.store(s,e.padd(v,off),e.load(s,e.padd(a[1],off),_pty()),_pty())
            return UNDEF
        raise Unsupported("vector constructor")
    def wrote(T,e,s,who,idx,jdx,val):
        """entry idx (,jdx) of an output is written: with a number drawn for it; the class is the one of the number"""
        idx=toZ(idx); x=toR(val.t); ks=[k for k in T.cl]
        if isinstance(who,int):
            k=s.tags.get(("class",who))
            if k is None:
                for k in ks:
                    if e.provable(s,z3.And(s.g["fresh_"+k]==1,x==T.cl[k][2](s.g["u_"+k]))): s.tags[("class",who)]=k; T.names[who]=k; break
                else: k=T.names.get(who,ks[0])
        else: k=who
        e.oblige(s,f"an entry of {T.cl[k][3]} is written from a fresh random number",s.g["fresh_"+k]==1,"post"); e.oblige(s,f"an entry of {T.cl[k][3]} is the documented transform of its random number",x==T.cl[k][2](s.g["u_"+k]),"post")
        hit=idx==T.f
        if jdx is not None: hit=z3.And(hit,toZ(jdx)==T.fd)
        s.g["fresh_"+k]=z3.IntVal(0); s.g["cnt_"+k]=z3.simplify(s.g["cnt_"+k]+z3.If(hit,1,0))
        for g in("fresh_","cnt_"): e.note_write(("g",g+k))
    def ctor(T,e,s,a,i):
        t=toZ(e.wrapu(s,a[1])) if len(a)>1 else z3.IntVal(5489); s.tags[("gen",a[0].r.id,str(a[0].o))]=t; s.tags.pop(("seedok",a[0].r.id,str(a[0].o)),None); T.seeds.append((list(s.pc),t)); return UNDEF
    def checkseed(T,e,s,t):
        """for non-negative seeds the generator's seed is a function of seed and thread that separates threads and seeds"""
        vs={str(v) for v in fv(t)}
        e.oblige(s,"for a non-negative seed the generator's seed depends on nothing but the seed, the thread number and the sizes",z3.Or(T.seed<0,z3.BoolVal(not any(x.startswith("entropy") or x.startswith("omp_gtid") for x in vs))),"post")
        t2,s2=z3.Ints("tid2 seed2"); mx=z3.Int("omp_threads")
        e.oblige(s,"different threads use different generator seeds",z3.Implies(z3.And(T.seed>=0,T.seed+mx<(1<<31),t2>=0,t2<mx,t2!=T.tid),z3.substitute(t,(T.tid,t2))!=t),"post",assume=False)
        e.oblige(s,"changing the seed changes the generator's seed",z3.Implies(z3.And(T.seed>=0,T.seed+mx<(1<<31),s2>=0,s2+mx<(1<<31),s2!=T.seed),z3.substitute(t,(T.seed,s2))!=t),"post",assume=False)
    def own(T,e,s,p):
        if not isinstance(p,P) or p.r is None or ("gen",p.r.id,str(p.o)) not in s.tags: raise Unsupported("a random number generator that was not constructed here")
        if ("seedok",p.r.id,str(p.o)) not in s.tags: T.checkseed(e,s,s.tags[("gen",p.r.id,str(p.o))]); s.tags[("seedok",p.r.id,str(p.o))]=1    # the seed in force when numbers are taken from it
    def skip(T,e,s,a,i): T.own(e,s,a[0]); return I(64,z3.Int(e.name("bits")),0,(1<<64)-1)
    def draw(T,e,s,a,i):
        T.own(e,s,a[1]); lo,hi=[toR(e.load(s,e.padd(a[0],o),dty()).t) for o in(0,8)]
        for k,(L,Hh,F,nm) in T.cl.items():
            if e.provable(s,T.interval(L,Hh,lo,hi)): break
        else:
            k=list(T.cl)[0]; L,Hh=T.cl[k][:2]
        e.oblige(s,f"the random number is uniform over the interval of the distribution ({T.cl[k][3]})",T.interval(T.cl[k][0],T.cl[k][1],lo,hi),"pre")
        u=z3.Real(e.name("u")); s.pc+=[u>=lo,u<=hi if False else u<hi]; s.g["u_"+k]=u; s.g["fresh_"+k]=z3.IntVal(1)
        for g in("u_","fresh_"): e.note_write(("g",g+k))
        return R(u)
    def interval(T,L,Hh,lo,hi): return z3.And(L(lo) if callable(L) else lo==L,hi==Hh)
    def tpl(T,L):
        out=[]
        for k in T.cl:
            out.append((f"{k}: written at most for handled entries",lambda M,k=k:M.st.g["cnt_"+k]==M.entry.g["cnt_"+k]))
            for i_,get in enumerate(L.ints()):
                out.append((f"{k}: entry f written once it was handled ({i_})",lambda M,k=k,get=get:M.st.g["cnt_"+k]==M.entry.g["cnt_"+k]+z3.If(z3.And(toZ(get(M.entry).t)<=T.f,T.f<toZ(get(M.st).t)),1,0)))
                if T.dims is not None:
                    out.append((f"{k}: coordinate fd written once it was handled ({i_})",lambda M,k=k,get=get:M.st.g["cnt_"+k]==M.entry.g["cnt_"+k]+z3.If(z3.And(T.row(M)==T.f,toZ(get(M.entry).t)<=T.fd,T.fd<toZ(get(M.st).t)),1,0)))
            for p_,v in L.phis(P):       # a loop over a row with pointers
                if T.dims is None or v.r is None or v.r.fam!="row": continue
                at=lambda S,i=p_.id:toZ(S.env[i].o); rw=toZ(v.r.key)
                out.append((f"{k}: coordinate fd written once it was handled (pointer {p_.id})",lambda M,k=k,at=at,rw=rw:M.st.g["cnt_"+k]==M.entry.g["cnt_"+k]+z3.If(z3.And(rw==T.f,at(M.entry)<=8*T.fd,8*T.fd<at(M.st)),1,0)))
        for i_,get in enumerate(L.ints()): out.append((f"loop variable {i_} not negative",lambda M,get=get:toZ(get(M.st).t)>=0))
        return out
    def row(T,M):
        for (F,h,K,entry) in M.outer[::-1]:
            for p_ in F.blocks[h].phis:
                v=M.st.env.get(p_.id)
                if isinstance(v,I) and v.w==32: return toZ(v.t)
        return z3.IntVal(-1)
def fv(t,acc=None,seen=None):
    acc=[] if acc is None else acc; seen=set() if seen is None else seen
    if t.get_id() in seen: return acc
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED: acc.append(t)
    for c in t.children(): fv(c,acc,seen)
    return acc
def _pty():
    t=llvmc.Ty(); t.kind="ptr"; t.size=8; t.w=64; return t
def finish(c,E,T,out,q,tag):
    c.cover(q,tag,[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,tag+": a path to the end",s.pc)
        for k in T.cl: E.oblige(s,f"every entry of {T.cl[k][3]} is written exactly once ({tag})",s.g["cnt_"+k]==1,assume=False)
    c.discharge(E,dict(n=T.n,seed=T.seed,f=T.f,threads=z3.Int("omp_threads")))
def length(E,T,out,name,check):
    for s,v in out: check(s)
def gen(c,which):
    m=c.load(tu_g(),keepfn); q=G+which; F=c.fn(m,q); E=Engine(m,name=q); st=State(); n,seed,dim=z3.Ints("n seed dimension"); ple=z3.Real("ple"); pw=rfun("pow",2); par=z3.Bool("parallel")
    st.pc+=[n>=2,n<(1<<31)-16384,seed>=-(1<<31),seed<(1<<31)-(1<<20),ple>1]
    rt.libm(E,lambda *a:None); sret=E.new_obj(st,"result")
    if which=="generateWeights":
        cc=pw(z3.ToReal(n)/2,1-ple)
        cl={"W":(z3.RealVal(0),z3.RealVal(1),lambda u:pw((cc-1)*u+1,1/(1-ple)),"the weights")}
        T=Draws(E,st,cl,n,seed); args=[P(sret,0),I(32,n,0,(1<<31)-1),R(ple),I(32,seed,-(1<<31),(1<<31)-1),B(par)]
    else:
        cl={"P":(z3.RealVal(0),z3.RealVal(1),lambda u:u,"the coordinates")}
        T=Draws(E,st,cl,n,seed,dims=dim); st.pc+=[dim>=1,dim<=1000,0<=T.fd,T.fd<dim]; args=[P(sret,0),I(32,n,0,(1<<31)-1),I(32,dim,1,1000),I(32,seed,-(1<<31),(1<<31)-1),B(par)]
    out=E.run_fn(F,args,st)
    for s,v in out:
        b,e_=[E.load(s,P(sret,o),_pty()) for o in(0,8)]
        sz=24 if which!="generateWeights" else 8
        E.oblige(s,"the result has n entries",z3.And(z3.BoolVal(b.r is not None and b.r is e_.r),toZ(e_.o)-toZ(b.o)==sz*n),assume=False)
        if which!="generateWeights": 
            row=b.r.fields[0][1](E,s,T.f); E.oblige(s,"every entry has the given dimension",toZ(s.mem[row.r.id]["len"])==dim,assume=False)
    finish(c,E,T,out,q,which)
def hyp(c,radii,angles):
    m=c.load(tu_h(),keepfn); which="sampleRadiiAndAnglesHelper"; q=H+which
    fs=[f for f in m.funcs.values() if not f.decl and sym.base_name(f.dname)==q and "omp_outlined" not in f.name and f"Helper<{str(radii).lower()}, {str(angles).lower()}>" in f.dname]
    if len(fs)!=1: raise LookupError(f"{len(fs)} functions {q}<{radii},{angles}>")
    F=m.body(fs[0]); E=Engine(m,name=q); st=State(); n,seed=z3.Ints("n seed"); alpha,Rr=z3.Reals("alpha R"); par=z3.Bool("parallel"); ch=rfun("cosh",1); ac=rfun("acosh",1)
    st.pc+=[n>=1,n<(1<<31)-16384,seed>=-(1<<31),seed<(1<<31)-(1<<20),alpha>0,Rr>0]
    def mf(eng,s,name,xs,r):
        if name=="cosh": s.pc+=[r>=1,z3.Implies(xs[0]>0,r>1),ac(r)==z3.If(xs[0]>=0,xs[0],-xs[0])]
    rt.libm(E,mf); sret=E.new_obj(st,"result")
    cl={}
    if radii: cl["R"]=(lambda lo:z3.And(lo>=1,lo<=1+z3.RealVal("1/1000000000000")),ch(alpha*Rr),lambda u:ac(u)/alpha,"the radii")
    if angles: cl["A"]=(z3.RealVal(0),toZ(2*PI_D),lambda u:u,"the angles")
    T=Draws(E,st,cl,n,seed); args=[P(sret,0),I(32,n,0,(1<<31)-1),R(alpha),R(Rr),I(32,seed,-(1<<31),(1<<31)-1),B(par)]
    out=E.run_fn(F,args,st)
    for s,v in out:
        for off,k in((0,"R"),(24,"A")):
            if k not in cl: continue
            b,e_=[E.load(s,P(sret,off+o),_pty()) for o in(0,8)]
            E.oblige(s,f"{cl[k][3]} are the {'first' if k=='R' else 'second'} result and have n entries",z3.And(z3.BoolVal(b.r is not None and b.r is e_.r and T.names.get(b.r.id)==k),toZ(e_.o)-toZ(b.o)==8*n),assume=False)
    finish(c,E,T,out,q,f"radii={radii} angles={angles}")
