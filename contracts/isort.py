"""intsort: IntSortImpl's constructor, sort (for any number of threads), move_to_queues and the wrappers.

Two arbitrary elements X<Y (named by their place in the input) are tracked; KEY is an arbitrary function with values up to
the maximum.  Counting functions: with m(j) the digit of the j-th element, CC(q,j) = elements before j with digit q, L(q) =
elements with a digit below q."""
from vlib.prove import *
from vlib import rt
from contracts.gtree import const
N_="intsort::IntSortInternal::"; CL=N_+"IntSortImpl"
MEM=("msb_radix","msb_shift","lsb_remaining_width","no_iters","adaptive_width","adaptive_no_queues")
TU='''#include <limits>
#include <array>
#include <vector>
#include <memory>
#include <tuple>
#include <algorithm>
#include <type_traits>
#include <cassert>
#include <numeric>
#include <omp.h>
#define private public
#include <%s/IntSort.h>
#undef private
#define COMMA ,
struct Elem { unsigned long v; };
extern "C" unsigned verif_key(unsigned long);
struct KeyOf { unsigned operator()(const Elem& e) const { return verif_key(e.v); } };
template void intsort::intsort<Elem,KeyOf,unsigned>(std::vector<Elem>&,KeyOf,unsigned);
template void intsort::intsort<std::vector<Elem>::iterator,KeyOf,unsigned>(std::vector<Elem>::iterator,std::vector<Elem>::iterator,KeyOf,unsigned);
'''
UPT='template void intsort::intsort<Elem,KeyOf,unsigned>(std::unique_ptr<Elem[]>&,const size_t,KeyOf,unsigned);\n'
def tu(which,up=False): return (UPT if up else '').join([TU%("girgs" if which=="g" else "hypergirgs"),"".join(f"extern const unsigned long verif_off_{m}=__builtin_offsetof(intsort::IntSortInternal::IntSortImpl<Elem COMMA unsigned COMMA KeyOf COMMA 8>,{m});\n" for m in MEM)])
def keep(n,d):
    b=sym.base_name(d)
    if ".omp_outlined" in n: return True
    if re.match(r"intsort::intsort$|intsort::IntSortInternal::IntSortImpl::(IntSortImpl|sort|move_to_queues)$|intsort::IntSortInternal::(ilog2|idiv_ceil)$",b): return True
    return bool(re.match(r"std::vector::(vector|~vector|swap)$|std::copy$",b))
UF=z3.Function
def IS(): return z3.IntSort()
KEY=UF("KEY",IS(),IS())
def arr_ty():
    t=llvmc.Ty(); t.kind="int"; t.w=64; t.size=8; return t
def pty():
    t=llvmc.Ty(); t.kind="ptr"; t.w=64; t.size=8; return t
def which_files():
    """the two copies of the header; one proof decides both when their text is the same"""
    a,b=[open(os.path.join(REPO,f"source/{x}/include/{x}/IntSort.h")).read().replace("\r","") for x in("girgs","hypergirgs")]
    return ["g"] if a==b else ["g","h"]
# ---------------------------------------------------------------- counting
class Count:
    """counting functions of a sequence of n elements with digits dig(j) below nq"""
    def __init__(T,name,dig,n,nq): T.dig=dig; T.n=n; T.nq=nq; T.C=UF("C_"+name,IS(),IS(),IS()); T.L=UF("L_"+name,IS(),IS()); T.js=[]; T.qs=[]
    def dest(T,j): return T.L(T.dig(j))+T.C(T.dig(j),j)
    def base(T): z=z3.IntVal(0); return [T.L(z)==0,T.L(z3.IntVal(T.nq) if isinstance(T.nq,int) else T.nq)==T.n]
    def at(T,q): z=z3.IntVal(0); return [T.C(q,z)==0,z3.Implies(z3.And(q>=0,q<T.nq),T.L(q+1)==T.L(q)+T.C(q,T.n)),T.C(q,T.n)>=0,T.C(q,T.n)<=T.n,z3.Implies(z3.And(q>=0,q<=T.nq),z3.And(T.L(q)>=0,T.L(q)<=T.n))]
    def step(T,q,j): return [z3.Implies(z3.And(0<=j,j<T.n),T.C(q,j+1)==T.C(q,j)+z3.If(T.dig(j)==q,1,0)),*T.mono(q,j,T.n),*T.mono(q,j+1,T.n),*T.mono(q,z3.IntVal(0),j)]
    def mono(T,q,a,b): return [z3.Implies(z3.And(0<=a,a<=b,b<=T.n),T.C(q,a)<=T.C(q,b))]
    def lmono(T,q,r): return [z3.Implies(z3.And(0<=q,q<=r,r<=T.nq),T.L(q)<=T.L(r))]
    def pair(T,a,b):
        """everything needed to order the places of two elements"""
        f=[]; da,db=T.dig(a),T.dig(b)
        for x,y,dx,dy in((a,b,da,db),(b,a,db,da)): f+=T.mono(dx,x+1,y)+T.mono(dx,x,y)+T.step(dx,x)+T.step(dx,y)+T.lmono(dx+1,dy)+T.lmono(dx+1,z3.IntVal(T.nq) if isinstance(T.nq,int) else T.nq)+T.at(dx)+T.lmono(z3.IntVal(0),dx)+[z3.Implies(z3.And(x>=0,x<T.n),z3.And(dx>=0,dx<T.nq))]
        return f
Q=Schema.Q
# ---------------------------------------------------------------- constructor
def construct(E,st,F,b):
    """runs the constructor for a maximum key with b bits; returns the object"""
    o=E.new_obj(st,"sorter"); mk=z3.Int("max_key"); st.pc+=[mk>=(1<<(b-1) if b else 0),mk<(1<<b)]
    ks=[I(32,mk,0,(1<<32)-1) if ty.kind=="int" else P(o,0) for _,ty in F.params]
    u=E.unroll_all; E.unroll_all=True; out=E.run_fn(F,ks,st); E.unroll_all=u
    if len(out)!=1: raise Unsupported(f"{len(out)} outcomes of the constructor for {b} bits")
    s=out[0][0]; m=s.mem[o.id]
    for k,v in list(m.items()):
        if isinstance(v,I) and not isinstance(v.t,int):
            c=conc(z3.simplify(toZ(v.t)))
            if c is None and v.t is not mk:
                S=z3.Solver(); S.add(*[x for x in s.pc if x is not True]); 
                if S.check()==z3.sat:
                    c=S.model().eval(toZ(v.t),model_completion=True).as_long()
                    if not E.provable(s,toZ(v.t)==c): c=None
            if c is not None: m[k]=I(v.w,c)
    return s,o,mk
def ctor(c,which,bits):
    """the constructor: what the digits cover, for every number of key bits"""
    m=c.load(tu(which),keep); F=c.fn(m,CL+"::IntSortImpl")
    for b in bits:
        E=Engine(m,name=CL+"::IntSortImpl"); st=State(); rt.omp(E); s,o,mk=construct(E,st,F,b); c.cover(CL,f"{b} bits",s.pc); c.discharge(E,dict(bits=b,max_key=mk))
# ---------------------------------------------------------------- move_to_queues
def mtq(c,which,b,it,count):
    m=c.load(tu(which),keep); q=CL+"::move_to_queues"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); rt.omp(E)
    cm=Engine(m,name=CL+"::IntSortImpl"); rt.omp(cm); s0,o,mk=construct(E,st,c.fn(m,CL+"::IntSortImpl"),b); st=s0; nq=fld(m,s0,o,"adaptive_no_queues"); aw=fld(m,s0,o,"adaptive_width")
    lo,lo2,s=z3.Ints("lo lo2 s"); n=z3.Int("n"); st.pc+=[0<=lo,0<=lo2,s>=1,lo+s<=n,lo2+s<=n,n<(1<<40)]
    A=E.new_arr(st,"input",8,{0:("int",64)},n); B=E.new_arr(st,"output",8,{0:("int",64)},n); A.readonly=True; IN=st.mem[A.id][0]
    D=lambda j,i=it: (KEY(z3.Select(IN,lo+j))/(1<<(i*aw)))%nq
    T=Count("it",lambda j:D(j),s,nq); T2=Count("next",lambda j:D(j,it+1),s,nq); a,b2=z3.Ints("a b"); st.pc+=[0<=a,a<b2,b2<s]+T.base()+T2.base()+T.pair(a,b2)
    cnt=E.new_obj(st,"counters"); cnt.subs.append((0,8,256)); c0=z3.Array("counters0",IS(),IS()); st.mem[cnt.id][("A",0)]=(("int",64),c0)
    st.tags["schemas"]=((c0,lambda i:z3.And(z3.Implies(z3.And(0<=i,i<nq),z3.Select(c0,i)==T.C(i,s)),*T.at(i),*T.lmono(i+1,z3.IntVal(nq)))),)
    st.pc+=T.at(Q)+T2.at(Q)+T.lmono(Q,z3.IntVal(nq))+[z3.Implies(z3.And(0<=Q,Q<nq),z3.Select(c0,Q)==T.C(Q,s))]
    def key(eng,s_,x,i): k=toZ(eng.wrapu(s_,x[0])); r=KEY(k); s_.pc+=[r>=0,r<=mk]; return I(32,r,0,(1<<32)-1)
    def rd(eng,s_,idx,v):
        j=z3.simplify(toZ(idx)-lo)
        for TT,d in((T,D(j)),(T2,D(j,it+1))): s_.pc+=TT.step(d,j)+TT.step(Q,j)+TT.at(d)
        for x in(a,b2): s_.pc+=T.pair(x,j)
    A.hooks[0]=[rd]
    def wr(eng,s_,idx,val): eng.oblige(s_,"elements are moved to places of the output segment only",z3.And(toZ(idx)>=lo2,toZ(idx)<lo2+s),"frame")
    B.hooks[("w",0)]=[wr]
    E.C["verif_key"]=key; E.cut_const=4
    def tpl(L):
        out=[]; ks=[k for k in L.ctx["mods"] if k[0]!="g" and isinstance(k[1],tuple) and k[1][0]=="A"]
        for k in ks:
            def g(M,k=k): return M.st.mem[k[0]][k[1]][1]
            inq=lambda i:z3.And(i>=0,i<nq)
            out.append(("zeroed so far",Schema(g,lambda M,i,g=g:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(g(M),i)==0))))
            for e in(0,1,-1): out.append((f"prefix sums so far ({e})",Schema(g,lambda M,i,g=g,e=e:z3.Implies(z3.And(inq(i),i<=M.K+e),z3.Select(g(M),i)==T.L(i)))))
            out.append(("next free place of every queue",Schema(g,lambda M,i,g=g:z3.Implies(inq(i),z3.Select(g(M),i)==T.L(i)+T.C(i,M.K)))))
            out.append(("digits of the next round counted",Schema(g,lambda M,i,g=g:z3.Implies(inq(i),z3.Select(g(M),i)==T2.C(i,M.K)))))
            out.append(("counters as received",Schema(g,lambda M,i,g=g:z3.Implies(inq(i),z3.Select(g(M),i)==T.C(i,s)))))
        for p,v in L.phis(I):
            for e in(0,1,-1): out.append((f"running sum {p.id}",lambda M,p=p,e=e:toZ(M.st.env[p.id].t)==T.L(z3.simplify(M.K+e))))
        if (B.id,0) in L.ctx["mods"]:
            for x in(a,b2): out.append(("element moved",lambda M,x=x:z3.Implies(M.K>x,z3.Select(M.st.mem[B.id][0],lo2+T.dest(x))==z3.Select(IN,lo+x))))
        out.append(("elements of the segment",lambda M:M.K<=s))
        for e in(2,1,0): out.append((f"queues (-{e})",lambda M,e=e:M.K<=nq-e))
        return out
    E.templates=tpl; out0=st.mem[B.id][0]
    args=[P(o,0),P(A,z3.simplify(8*lo)),P(A,z3.simplify(8*lo+8*s)),P(B,z3.simplify(8*lo2)),P(cnt,0),I(32,it),B_(count)]
    args=args[:len(F.params)]
    for x,y in((a,b2),): pass
    res=E.run_fn(F,args,st); c.cover(q,"runs",[z3.BoolVal(bool(res))]); da,db=T.dig(a),T.dig(b2)
    for s_,v in res:
        c.cover(q,"a path to the end",s_.pc); ob=s_.mem[B.id][0]; s_.pc+=T.pair(a,b2)
        for x in(a,b2): E.oblige(s_,"every element is moved to its place in the output",z3.Select(ob,lo2+T.dest(x))==z3.Select(IN,lo+x),assume=False)
        E.oblige(s_,"places are in the segment",z3.And(0<=T.dest(a),T.dest(a)<s,0<=T.dest(b2),T.dest(b2)<s),assume=False)
        E.oblige(s_,"different elements get different places, ordered by digit, equal digits in their previous order",z3.And(T.dest(a)!=T.dest(b2),(T.dest(a)<T.dest(b2))==(da<=db)),assume=False)
        if count:
            ca=s_.mem[cnt.id][("A",0)][1]; E.instantiate(s_,ca,Q); s_.pc+=T2.at(Q)
            E.oblige(s_,"the digits of the next round are counted",z3.Implies(z3.And(Q>=0,Q<nq),z3.Select(ca,Q)==T2.C(Q,s)),assume=False)
    c.discharge(E,dict(bits=b,iteration=it))
def B_(x): return B(bool(x))
def fld(m,st,o,name):
    """member of the sorter, in declaration order"""
    off=const(m,'off_'+name); k=[x for x in st.mem[o.id] if x[0]==off]
    if not k: raise Unsupported("member "+name)
    v=st.mem[o.id][k[0]]; cv=conc(toZ(v.t))
    if cv is None: raise Unsupported(f"{name} is not determined by the number of key bits")
    return cv
# ---------------------------------------------------------------- sort
def ceil_div(c,which):
    """idiv_ceil, for every divisor: the result is the quotient rounded up"""
    m=c.load(tu(which),keep); q=N_+"idiv_ceil"; fs=[f for f in m.funcs.values() if not f.decl and sym.base_name(f.dname)==q]
    if not fs: raise LookupError("idiv_ceil")
    for f in fs:
        E=Engine(m,name=q); st=State(); a,d=z3.Ints("a d"); F=m.body(f); w=F.params[1][1].w; st.pc+=[a>=0,a<(1<<40),d>=1,d<=(1<<17)]
        for s,v in E.run_fn(F,[I(F.params[0][1].w,a,0,1<<40),I(w,d,1,1<<17)],st):
            r=toZ(E.wrapu(s,v)); E.oblige(s,"the quotient rounded up",z3.And(r*d>=a,r*d<a+d,r>=0),assume=False)
        c.discharge(E,dict(a=a,d=d))
    p,n,k,t=z3.Ints("p n c t"); H=[p>=1,p<=(1<<17),n>=(p-1)*(1<<17)+1,k*p>=n,k>=0]
    c.lemma("chunks","a product grows with its factor",[k>=0,t<=p-1],k*((p-1)-t)>=0); c.lemma("chunks","a product grows with its factor 2",[k>=0,t<=p-2],k*((p-2)-t)>=0)
    c.lemma("chunks","a chunk has at least as many elements as there are threads",H+[(p-1)*((1<<17)-p)>=0,z3.Implies(k<=p-1,k*p<=(p-1)*p)],k>=p)
    c.lemma("chunks","hint 1",[p>=1,p<=(1<<17)],(p-1)*((1<<17)-p)>=0); c.lemma("chunks","hint 2",[p>=1,k>=0,k<=p-1],((p-1)-k)*p>=0)
def ceil_spec(E,p=None,tid=None):
    def h(e,s,a,i):
        x,d=toZ(e.wrapu(s,a[0])),a[1]; d=toZ(e.wraps(s,d)); e.oblige(s,"idiv_ceil: divisor positive",z3.And(d>=1,d<=(1<<17),x<(1<<40)),"pre"); k=z3.Int(e.name("c")); s.pc+=[k>=0,k<=x]
        dc=conc(z3.simplify(d))
        if dc is not None: s.pc+=[k*dc>=x,k*dc<x+dc]
        else:
            kd=MUL(k,d); s.pc+=[kd>=x,kd<x+d]
            if p is not None and z3.simplify(d).eq(p): kt=MUL(k,tid); s.pc+=[kt>=0,kt<=kd-k,z3.Implies(tid==p-1,kt==kd-k),z3.Implies(tid<=p-2,kt<=kd-2*k),MUL(k,tid+1)==kt+k,MUL(k,z3.IntVal(0))==0,z3.Implies(kd>=(p-1)*(1<<17)+1,k>=p)]
            s.tags["cs"]=s.tags.get("cs",())+(k,)
        return I(i.ty.w,k,0,(1<<40)-1)
    E.C[N_+"idiv_ceil"]=h
MUL=UF("product",IS(),IS(),IS())
def mulhook(a,b):
    """products of two variables: linear in the second factor, otherwise uninterpreted"""
    if not(z3.is_const(a) and str(a).startswith("c!")): a,b=b,a
    if not(z3.is_const(a) and str(a).startswith("c!")): return a*b
    b=z3.simplify(b,som=True); out=[]
    for t in(b.children() if z3.is_add(b) else [b]):
        if z3.is_int_value(t): out.append(a*t)
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.num_args()==2: out.append(t.arg(0)*MUL(a,t.arg(1)))
        else: out.append(MUL(a,t))
    return z3.simplify(z3.Sum(out))
class Sort:
    def __init__(T,c,which,b):
        T.c=c; T.b=b; m=T.m=c.load(tu(which),keep); q=T.q=CL+"::sort"; F=c.fn(m,q); E=T.E=Engine(m,name=q); st=State(); rt.omp(E)
        T.p,T.tid=z3.Ints("team tid"); st,T.o,T.mk=construct(E,st,c.fn(m,CL+"::IntSortImpl"),b)
        for k in MEM: setattr(T,k,fld(m,st,T.o,k))
        n=T.n=z3.Int("n"); st.pc+=[n>=0,n<(1<<40)]; T.A=E.new_arr(st,"input",8,{0:("int",64)},n); T.B=E.new_arr(st,"buffer",8,{0:("int",64)},n)
        T.X,T.Y=z3.Ints("X Y"); st.pc+=[0<=T.X,T.X<T.Y,T.Y<n]; T.IN=st.mem[T.A.id][0]; st.tags["schemas"]=((T.IN,lambda i:z3.Select(T.IN,i)==i),)
        for x in(T.X,T.Y): st.pc+=[KEY(x)>=0,KEY(x)<=T.mk,z3.Select(T.IN,x)==x]
        v=z3.Int("any_key"); E.oblige(st,"the leading digit of every key is a queue number",z3.Implies(z3.And(v>=0,v<=T.mk),v/(1<<T.msb_shift)<256),assume=False)
        T.D=lambda z:KEY(z)/(1<<T.msb_shift); T.T=Count("msd",T.D,n,256); st.pc+=T.T.base()+T.T.pair(T.X,T.Y)
        T.BT=UF("BT",IS(),IS()); T.C_=UF("C_",IS(),IS(),IS()); T.cds={}; T.TC=None; st.tags["bar"]=0; st.g.update(pX=T.X,pY=T.Y)
        omap={z3.simplify(T.X).get_id():T.X}
        E.C.update({"verif_key":T.key,"__kmpc_push_num_threads":T.push,"__kmpc_fork_call":T.fork,"__kmpc_barrier":T.barrier,"omp_get_num_threads":lambda e,s,a,i:I(32,T.p,1,1<<17),"omp_get_thread_num":lambda e,s,a,i:I(32,T.tid,0,(1<<17)-1),
            "std::vector::vector":T.ctor,"std::vector::~vector":lambda e,s,a,i:UNDEF,"std::copy":T.copy,CL+"::move_to_queues":T.mtq,"__kmpc_for_static_init_4":T.winit,"__kmpc_for_static_init_8":T.winit,"__kmpc_for_static_init_4u":T.winit,"__kmpc_for_static_init_8u":T.winit})
        ceil_spec(E,T.p,T.tid); T.A.hooks[0]=[T.rdA]; T.B.hooks[0]=[T.rdB]; T.B.hooks[("w",0)]=[T.wrB]; T.A.hooks[("w",0)]=[T.wrA]; E.templates=T.tpl; E.cut_const=4; E.init_arrays=True; E.incremental=True; E.fast_discovery=True; E.mulhook=mulhook; T.st=st; T.F=F; T.nseg=0
    # ---- contracts of what sort uses
    def key(T,e,s,x,i): k=toZ(e.wrapu(s,x[0])); r=KEY(k); s.pc+=[r>=0,r<=T.mk]; return I(32,r,0,(1<<32)-1)
    def push(T,e,s,a,i): s.tags["nt"]=toZ(e.wraps(s,a[2])); return UNDEF
    def ctor(T,e,s,a,i):
        mm=re.match(r"std::vector<std::array<unsigned long, (\d+)u?l>",i.fn.dname)
        if not mm or len(a)<2: raise Unsupported("vector constructor "+i.fn.dname[:80])
        T.W=int(mm.group(1)); k=toZ(e.wraps(s,a[1])); e.oblige(s,"number of counter rows",k>=1,"pre"); T.rows=k; T.TC=e.new_arr(s,"thread counters",8,{0:("int",64)},T.W*k)
        T.TC.hooks[("w",0)]=[lambda e,s,ix,v:e.oblige(s,"a thread only writes its own counters",z3.And(toZ(ix)>=T.W*T.tid,toZ(ix)<T.W*T.tid+T.W),"frame")]
        for off,v in((0,0),(8,8*T.W*k),(16,8*T.W*k)): e.store(s,e.padd(a[0],off),P(T.TC,z3.simplify(toZ(v)) if not isinstance(v,int) else v),pty())
        return UNDEF
    def fork(T,e,s,a,i):
        g=e.new_obj(s,"gtid"); s.mem[g.id][(0,4)]=I(32,z3.Int("gtid"),0,1<<20); nt=s.tags.get("nt",e.omp_T); s.pc+=[T.p>=1,T.p<=nt,T.p<=(1<<17),T.tid>=0,T.tid<T.p]
        e.oblige(s,"the number of threads is positive",nt>=1,"pre")
        e.assumed.add("OpenMP: a team has between 1 and num_threads threads, threads pass a barrier together, every iteration of a worksharing loop runs on exactly one thread"); out=[]
        for x in a[3:]:
            if isinstance(x,P) and x.r is not None and x.r.kind=="obj" and any(b==0 and k>=257 for b,sd,k in x.r.subs): s.tags["sp"]=x.r.id; s.tags["sp0"]=s.mem[x.r.id][("A",0)][1]
        for s2,v in e.run_fn(a[2].f,[P(g,0),P(g,0)]+a[3:],s): T.join(e,s2); out.append((s2,UNDEF))
        return out
    def bm(T,s,t): b0=s.tags["b0"]; return z3.If(t==T.p,T.n,z3.substitute(b0,(T.tid,t)))
    def chunks(T,e,s):
        if s.tags.get("chunks"): return
        if "b0" not in s.tags: raise Unsupported("no loop over a chunk of the input")
        s.tags["chunks"]=True; z=z3.IntVal(0); b0=s.tags["b0"]
        e.oblige(s,"the chunks of the threads are consecutive and cover the input",z3.And(T.bm(s,z)==0,0<=b0,b0<=T.bm(s,T.tid+1),T.bm(s,T.tid+1)<=T.n))
    def barrier(T,e,s,a,i):
        n=s.tags["bar"]; s.tags["bar"]=n+1
        if n==0:
            T.chunks(e,s); tc=s.mem[T.TC.id][0]; e.instantiate(s,tc,T.W*T.tid+Q); s.pc+=T.T.at(Q)
            e.oblige(s,"every thread counts the digits of its chunk",z3.Implies(z3.And(Q>=0,Q<256),z3.Select(tc,T.W*T.tid+Q)==T.T.C(Q,T.bm(s,T.tid+1))-T.T.C(Q,s.tags["b0"])))
            N=z3.Array(e.name("counters"),IS(),IS()); s.mem[T.TC.id][0]=N; e.note_write((T.TC.id,0)); s.tags["schemas"]+=((N,lambda ix:T.row(N,ix)),)
        elif n==1: T.scattered(e,s)
        return UNDEF
    def row(T,N,ix):
        t,q=ix/T.W,ix%T.W; C,BT=T.T.C,T.BT; z=z3.IntVal(0)
        return z3.And(z3.Implies(z3.And(t>=0,t<T.p,q<256),z3.And(z3.Select(N,ix)==C(q,BT(t+1))-C(q,BT(t)),0<=BT(t),BT(t)<=BT(t+1),BT(t+1)<=T.n)),*T.T.at(q),*T.T.mono(q,BT(t),BT(t+1)),*T.T.mono(q,BT(t+1),T.n),*T.T.mono(q,z,BT(t)))
    def digits(T,k):
        """a key is put together from the digits of the rounds and the first digit"""
        a=lambda i:k/(1<<(i*T.adaptive_width)); w=T.no_iters*T.adaptive_width-T.msb_shift; nq=T.adaptive_no_queues
        return [a(i)==a(i+1)*nq+a(i)%nq for i in range(T.no_iters)]+[a(T.no_iters)==(k/(1<<T.msb_shift))/(1<<w)]+[x for i in range(T.no_iters) for x in(a(i)%nq>=0,a(i)%nq<nq)] if T.lsb_remaining_width and w>=0 else []
    def settle(T,s):
        if not s.tags.get("settled"): s.tags["settled"]=True; s.pc+=T.digits(KEY(T.X))+T.digits(KEY(T.Y)); s.g["pX"]=T.T.dest(T.X); s.g["pY"]=T.T.dest(T.Y)
    def scattered(T,e,s):
        """end of the scatter phase: every thread has placed its elements; afterwards all elements are placed"""
        T.chunks(e,s); b=s.mem[T.B.id][0]; b0,x=s.tags["b0"],T.bm(s,T.tid+1); N=z3.Array(e.name("buffer"),IS(),IS())
        for z in(T.X,T.Y): e.oblige(s,"every thread places the elements of its chunk in the buffer",z3.Implies(z3.And(b0<=z,z<x),z3.Select(b,T.T.dest(z))==z))
        for z in(T.X,T.Y): s.pc.append(z3.Select(N,T.T.dest(z))==z)
        s.mem[T.B.id][0]=N; e.note_write((T.B.id,0)); sp=T.splitter(s)
        if sp is not None:
            o,arr=sp; e.instantiate(s,arr,Q); s.pc+=T.T.at(Q); s0=s.tags["sp0"]
            e.oblige(s,"the splitters are the segment boundaries",z3.Implies(z3.And(Q>=0,Q<=256,z3.Or(T.tid==0,z3.Select(arr,Q)!=z3.Select(s0,Q))),z3.Select(arr,Q)==T.T.L(Q)))
            S=z3.Array(e.name("splitter"),IS(),IS()); s.mem[o][("A",0)]=(s.mem[o][("A",0)][0],S); e.note_write((o,("A",0))); s.tags["schemas"]+=((S,lambda i:z3.And(z3.Implies(z3.And(i>=0,i<=256),z3.Select(S,i)==T.T.L(i)),*T.T.at(i))),)
        T.settle(s)
    def splitter(T,s):
        o=s.tags.get("sp"); return (o,s.mem[o][("A",0)][1]) if o else None
    def join(T,e,s):
        if s.tags["bar"]<2 and not e.provable(s,T.p==1): T.scattered(e,s)
        else: T.chunks(e,s); T.settle(s)
    def winit(T,e,s,a,i): T.settle(s); return UNDEF
    def copy(T,e,s,a,i):
        f,l,d=a
        if not(f.r is l.r and f.r.kind=="obj" and d.r.kind=="obj" and conc(toZ(f.o))==0 and conc(toZ(d.o))==0 and conc(toZ(l.o))): raise Unsupported("copy")
        k=conc(toZ(l.o))//8; src=s.mem[f.r.id][("A",0)][1]; kd,old=s.mem[d.r.id][("A",0)]; N=z3.Array(e.name("copy"),IS(),IS())
        e.oblige(s,"copy within bounds",z3.BoolVal(all(any(b==0 and k<=cnt for b,sd,cnt in r.subs) for r in(f.r,d.r))),"bounds")
        s.tags["schemas"]+=((N,lambda j:z3.And(z3.If(z3.And(j>=0,j<k),z3.Select(N,j)==z3.Select(src,j),z3.Select(N,j)==z3.Select(old,j)),*T.T.at(j)),src,old),); s.mem[d.r.id][("A",0)]=(kd,N); e.note_write((d.r.id,("A",0))); return P(d.r,8*k)
    # ---- counting in segments
    def cd(T,arr,lo,it):
        lo=z3.simplify(toZ(lo)); k=(arr.get_id(),lo.sexpr(),it)
        if k not in T.cds: T.cds[k]=(len(T.cds),arr,lo,it,UF(f"CD{len(T.cds)}",IS(),IS(),IS()))
        return T.cds[k]
    def dg(T,z,it): return (KEY(z)/(1<<(it*T.adaptive_width)))%T.adaptive_no_queues
    def rdA(T,e,s,ix,v):
        ix=toZ(ix); arr=s.mem[T.A.id][0]
        if arr.eq(T.IN):
            b0=s.tags.get("b0")
            for q in(T.D(ix),Q,*((Q-T.W*T.tid,) if T.TC is not None else ())): s.pc+=T.T.step(q,ix)+T.T.at(q)+([] if b0 is None else T.T.mono(q,z3.IntVal(0),b0)+T.T.mono(q,b0,ix))
            for x in(T.X,T.Y): s.pc+=T.T.pair(x,ix)
        T.rd(s,arr,ix)
    def rdB(T,e,s,ix,v): T.rd(s,s.mem[T.B.id][0],toZ(ix))
    def rd(T,s,arr,ix):
        for _,a,lo,it,C in list(T.cds.values()):
            if a.eq(arr):
                j=z3.simplify(ix-lo); d=T.dg(z3.Select(arr,ix),it)
                for q in(d,Q): s.pc+=[z3.Implies(j>=0,z3.And(C(q,j)>=0,C(q,j)<=j,C(q,j+1)==C(q,j)+z3.If(d==q,1,0)))]
    def wrB(T,e,s,ix,v):
        if s.tags["bar"]<2 and "b0" in s.tags:
            j=toZ(e.wrapu(s,v)) if isinstance(v,I) else toZ(v); e.oblige(s,"a thread moves its own elements to their places",z3.And(s.tags["b0"]<=j,j<T.bm(s,T.tid+1),toZ(ix)==T.T.dest(j)),"frame")
        else: e.oblige(s,"the buffer is only written by the scatter phase and by move_to_queues",z3.BoolVal(False),"frame")
    def wrA(T,e,s,ix,v): e.oblige(s,"the input is only written by move_to_queues",z3.BoolVal(False),"frame")
    def mtq(T,e,s,a,i):
        """contract proved in the jobs 'move_to_queues'"""
        T.nseg+=1; o_,b,l,d,cn,it,*cf=a; it=conc(toZ(e.wraps(s,it))); cf=cf[0] if cf else B(False); cf=cf.t if isinstance(cf.t,bool) else tryconc(cf.t)
        if it is None or cf is None: raise Unsupported("iteration not constant")
        if not(o_.r is T.o and b.r in(T.A,T.B) and d.r in(T.A,T.B) and b.r is l.r): raise Unsupported("move_to_queues on something else")
        lo,le,lo2=[z3.simplify(toZ(e.split_off(s,x.r,x.o,0)[0])) for x in(b,l,d)]; ln=z3.simplify(le-lo); seg=e.loop_stack[0][2] if e.loop_stack else z3.IntVal(0); L=T.T.L; nq=T.adaptive_no_queues
        e.oblige(s,"move_to_queues moves between the input and the buffer",z3.BoolVal(b.r is not d.r),"pre")
        e.oblige(s,"a round moves the elements of its own segment within the segment",z3.And(ln>=1,L(seg)<=lo,le<=L(seg+1),L(seg)<=lo2,lo2+ln<=L(seg+1),L(seg)>=0,L(seg+1)<=T.n),"pre")
        e.oblige(s,"the input is not overwritten while other threads may still read it",z3.BoolVal(True) if s.tags["bar"]>=2 else T.p==1,"pre")
        ina,outa=s.mem[b.r.id][0],s.mem[d.r.id][0]; ci=T.cd(ina,lo,it); cid=cn.r.id; kd,ca=s.mem[cid][("A",0)]; e.instantiate(s,ca,Q)
        e.oblige(s,f"move_to_queues receives the digit counts of round {it}",z3.Implies(z3.And(Q>=0,Q<nq),z3.Select(ca,Q)==ci[4](Q,ln)),"pre")
        e.oblige(s,"the round exists",z3.BoolVal(0<=it<T.no_iters and (not cf or it+1<T.no_iters)),"pre")
        N=z3.Array(e.name("moved"),IS(),IS()); DST=UF(e.name("dst"),IS(),IS()); P_=[s.g["pX"],s.g["pY"]]; new=[]; ins=[]
        for z,pz in zip((T.X,T.Y),P_):
            w=z3.And(lo<=pz,pz<le,z3.Select(ina,pz)==z); v=lo2+DST(pz-lo); np_=z3.Int(e.name("place")); ins.append(z3.And(lo<=pz,pz<le)); new.append(np_)
            s.pc+=[np_==z3.If(w,v,pz),z3.Implies(w,z3.And(DST(pz-lo)>=0,DST(pz-lo)<ln,z3.Select(N,v)==z)),z3.Implies(z3.Not(z3.And(lo2<=pz,pz<lo2+ln)),z3.Select(N,pz)==z3.Select(outa,pz))]
        (x,y),(px,py)=(T.X,T.Y),P_; dx,dy=T.dg(z3.Select(ina,px),it),T.dg(z3.Select(ina,py),it); vx,vy=DST(px-lo),DST(py-lo); both=z3.And(*ins)
        s.pc+=[z3.Implies(z3.And(both,px<py),z3.And(vx!=vy,(vx<vy)==(dx<=dy))),z3.Implies(z3.And(both,py<px),z3.And(vx!=vy,(vy<vx)==(dy<=dx)))]
        s.g["pX"],s.g["pY"]=new; s.mem[d.r.id][0]=N; M2=z3.Array(e.name("counters"),IS(),IS()); s.mem[cid][("A",0)]=(kd,M2)
        for k in((d.r.id,0),(cid,("A",0)),("g","pX"),("g","pY")): e.note_write(k)
        if cf:
            c2=T.cd(N,lo2,it+1); s.tags["schemas"]+=((M2,lambda q:z3.Implies(z3.And(q>=0,q<nq),z3.Select(M2,q)==c2[4](q,ln))),); e.assumed.add("the number of elements with a digit does not depend on the order in which they are counted")
        return UNDEF
    # ---- loop invariants
    def tpl(T,L):
        out=[]; C,LL,BT,n=T.T.C,T.T.L,T.BT,T.n; mods=L.ctx["mods"]; ax=lambda f:out.append(("counting",lambda M:(M.st.pc.extend(f(M)),True)[1]))
        arrs=[k for k in mods if k[0]!="g" and isinstance(k[1],tuple) and k[1][0]=="A"]; gA=lambda k:(lambda M:M.st.mem[k[0]][k[1]][1]); tc=T.TC is not None and (T.TC.id,0) in mods; gT=lambda M:M.st.mem[T.TC.id][0]
        Bm=(T.B.id,0) in mods; own=T.W*T.tid if T.TC is not None else None
        for p,v in L.phis(P):
            e0=L.phi0(p); st0=z3.simplify(toZ(e0.o)/8 if not isinstance(e0.o,int) else z3.IntVal(e0.o//8))
            try: st0=z3.simplify(toZ(L.eng.split_off(L.entry,v.r,e0.o,0)[0])) if v.r is not None and v.r.kind=="arr" else st0
            except Unsupported: pass
            if v.r is T.TC and T.TC is not None:
                out.append(("zeroed so far",Schema(gT,lambda M,i:z3.Implies(z3.And(i>=st0,i<st0+M.K),z3.Select(gT(M),i)==0)))); out.append(("row",lambda M:M.K<=T.W)); continue
            if v.r is not None and v.r.kind=="obj":
                for k in arrs:
                    if k[0]==v.r.id: out.append(("zeroed so far",Schema(gA(k),lambda M,i,k=k:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(gA(k)(M),i)==0)))); out.append(("queues",lambda M:M.K<=T.adaptive_no_queues))
                continue
            if v.r is T.A and (tc or Bm) and not L.entry.tags.get("settled"):
                if "b0" not in L.entry.tags:
                    L.entry.tags["b0"]=st0; s=L.entry; s.pc+=[BT(z3.IntVal(0))==T.bm(s,z3.IntVal(0)),BT(T.p)==n,BT(T.tid)==st0,BT(T.tid+1)==T.bm(s,T.tid+1)]
                b0=L.entry.tags["b0"]; ax(lambda M:T.T.at(Q)+T.T.mono(Q,st0,st0+M.K)+T.T.mono(Q,st0+M.K,n)+T.T.mono(Q,z3.IntVal(0),st0))
                if tc: out.append(("counted so far",Schema(gT,lambda M,i:z3.And(z3.Implies(z3.And(i>=own,i<own+256),z3.Select(gT(M),i)==C(i-own,st0+M.K)-C(i-own,st0)),*T.T.mono(i-own,st0,st0+M.K),*T.T.at(i-own),*T.T.mono(i-own,st0+M.K,n),*T.T.mono(i-own,z3.IntVal(0),st0)) if False else z3.Implies(z3.And(i>=own,i<own+256),z3.Select(gT(M),i)==C(i-own,st0+M.K)-C(i-own,st0)))))
                if Bm:
                    for k in arrs: out.append(("next free place of every queue",Schema(gA(k),lambda M,i,k=k:z3.Implies(z3.And(i>=0,i<256),z3.Select(gA(k)(M),i)==LL(i)+C(i,st0+M.K)))))
                    for z in(T.X,T.Y): out.append(("placed so far",lambda M,z=z:z3.Implies(z3.And(st0<=z,z<st0+M.K),z3.Select(M.st.mem[T.B.id][0],T.T.dest(z))==z)))
                out.append(("within the chunk",lambda M:st0+M.K<=T.bm(L.entry,T.tid+1)))
            elif v.r in(T.A,T.B) and arrs:
                arr=L.entry.mem[v.r.id][0]; cd=T.cd(arr,st0,0)[4]; L.entry.pc+=[cd(Q,z3.IntVal(0))==0]
                for k in arrs: out.append(("digits counted so far",Schema(gA(k),lambda M,q,k=k:z3.And(z3.Implies(z3.And(q>=0,q<T.adaptive_no_queues),z3.Select(gA(k)(M),q)==cd(q,M.K))))))
        ip=[x for x in L.phis(I) if L.eng.affine_delta(L.F,x[0],L.h) is None]
        if L.entry.tags.get("settled"):
            F=T.fin()
            def fin(M): return M.st.mem[(T.B if F else T.A).id][0]
            gz=(("pX",T.X),("pY",T.Y)); g=lambda M,k:M.st.g[k]
            if not L.outer:
                ax(lambda M:sum([T.T.at(q)+T.T.lmono(q,q+1)+T.T.lmono(q+1,z3.IntVal(256))+T.T.lmono(z3.IntVal(0),q)+T.T.lmono(T.D(z),q)+T.T.lmono(q+1,T.D(z))+T.T.lmono(T.D(z)+1,q) for q in(M.K,) for z in(T.X,T.Y)],[]))
                for k,z in gz:
                    out+=[("not yet sorted",lambda M,k=k,z=z:z3.Implies(T.D(z)>=M.K,z3.And(g(M,k)==T.T.dest(z),z3.Select(M.st.mem[T.B.id][0],g(M,k))==z))),
                        ("sorted",lambda M,k=k,z=z:z3.Implies(T.D(z)<M.K,z3.Select(fin(M),g(M,k))==z)),
                        ("in its segment",lambda M,k=k,z=z:z3.And(LL(T.D(z))<=g(M,k),g(M,k)<LL(T.D(z)+1)))]
                out.append(("sorted by key, equal keys in their previous order",lambda M:z3.Implies(z3.And(T.D(T.X)<M.K,T.D(T.X)==T.D(T.Y)),z3.And(g(M,"pX")!=g(M,"pY"),(g(M,"pX")<g(M,"pY"))==(KEY(T.X)<=KEY(T.Y))))))
                out.append(("segments",lambda M:M.K<=T.msb_radix))
        elif ip:
            if L.outer:
                q=L.outer[-1][2]; ax(lambda M:T.T.at(q)+T.T.mono(q,z3.IntVal(0),BT(M.K))+T.T.mono(q,BT(M.K),n)+T.T.mono(q,BT(T.tid),n)+T.T.mono(q,z3.IntVal(0),BT(T.tid)))
                for p,v in ip:
                    e=lambda M,p=p:toZ(M.st.env[p.id].t)
                    out+=[(f"elements before {p.id}",lambda M,e=e:e(M)==LL(q)+C(q,BT(M.K))),(f"own first place {p.id}",lambda M,e=e:z3.Implies(M.K>T.tid,e(M)==LL(q)+C(q,BT(T.tid))))]
                out.append(("threads",lambda M:M.K<=T.p))
            else:
                ax(lambda M:T.T.at(M.K)+T.T.mono(M.K,BT(T.tid),n)+T.T.mono(M.K,z3.IntVal(0),BT(T.tid)))
                for p,v in ip: out.append((f"elements with a smaller digit {p.id}",lambda M,p=p:toZ(M.st.env[p.id].t)==LL(M.K)))
                for k in arrs: out.append(("own first place of every queue",Schema(gA(k),lambda M,i,k=k:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(gA(k)(M),i)==LL(i)+C(i,BT(T.tid))))))
                out.append(("digits",lambda M:M.K<=256))
        return out
    def fin(T): return T.no_iters%2==0
    def run(T):
        E,st=T.E,T.st; ret=E.run_fn(T.F,[P(T.o,0),P(T.A,0),P(T.B,0),I(64,T.n,0,(1<<40)-1)],st); T.c.cover(T.q,"runs",[z3.BoolVal(bool(ret))])
        k=z3.Int("k")
        for i,g in enumerate(T.digits(k)): T.c.lemma(T.q,f"digits of a key {i}",[k>=0,k<(1<<32)],g)
        for s,v in ret:
            T.c.cover(T.q,"a path to the end",s.pc); f=v.t if isinstance(v.t,bool) else tryconc(v.t)
            if f is None: raise Unsupported("result not constant")
            arr=s.mem[(T.B if f else T.A).id][0]; px,py=s.g["pX"],s.g["pY"]; s.pc+=T.T.pair(T.X,T.Y)
            for z,pz in((T.X,px),(T.Y,py)): E.instantiate(s,arr,pz); E.oblige(s,"every element is in the sorted sequence",z3.And(0<=pz,pz<T.n,z3.Select(arr,pz)==z),assume=False)
            E.oblige(s,"different elements are in different places, ordered by key, equal keys in their previous order",z3.And(px!=py,(px<py)==(KEY(T.X)<=KEY(T.Y))),assume=False)
        T.c.discharge(E,dict(bits=T.b,threads=T.p,n=T.n,max_key=T.mk))
def sort(c,which,b): Sort(c,which,b).run()
def rounds(c,which,b):
    """move_to_queues, for every round of a sorter for keys with b bits"""
    m=c.load(tu(which),keep); E=Engine(m,name=CL+"::IntSortImpl"); rt.omp(E); s,o,mk=construct(E,State(),c.fn(m,CL+"::IntSortImpl"),b); k=fld(m,s,o,"no_iters")
    for it in range(k): mtq(c,which,b,it,it+1<k)
def wrapper(c,which,kind):
    """intsort: sorts the given sequence as a whole and leaves the result in it"""
    m=c.load(tu(which,kind=="unique_ptr"),keep); q="intsort::intsort"; fs=[f for f in m.funcs.values() if not f.decl and sym.base_name(f.dname)==q and ("vector" if "(std::vector<Elem, std::allocator<Elem> >&" in f.dname else "unique_ptr" if "(std::unique_ptr<" in f.dname else "iterator")==kind]
    if len(fs)!=1: raise LookupError(f"{len(fs)} functions intsort ({kind})")
    F=m.body(fs[0]); E=Engine(m,name=q); st=State(); rt.omp(E); n=z3.Int("n"); mk=z3.Int("max_key"); st.pc+=[n>=0,n<(1<<40),mk>=0,mk<(1<<32)]
    A=E.new_arr(st,"input",8,{0:("int",64)},n); vec=E.new_obj(st,"input vector"); end=z3.simplify(8*n)
    for off,v in((0,P(A,0)),(8,P(A,end)),(16,P(A,z3.Int("capacity")))): st.mem[vec.id][(off,8)]=v
    def ctor(e,s,a,i):
        if len(a)==1: raise Unsupported("empty vector")
        k=z3.simplify(toZ(e.wrapu(s,a[1]))); r=e.new_arr(s,"buffer",8,{0:("int",64)},k)
        for off,v in((0,0),(8,8*k),(16,8*k)): e.store(s,e.padd(a[0],off),P(r,z3.simplify(toZ(v)) if not isinstance(v,int) else v),pty())
        return UNDEF
    def make(e,s,a,i):
        k=[x for x in a if isinstance(x,I)]; e.oblige(s,"the sorter gets the maximum key given",toZ(e.wrapu(s,k[0]))==mk if len(k)==1 else z3.BoolVal(False),"pre"); s.tags["sorter"]=a[0].r.id; return UNDEF
    def run(e,s,a,i):
        o,b,d,k=a; k=toZ(e.wrapu(s,k)); e.oblige(s,"the sorter is constructed",z3.BoolVal(s.tags.get("sorter")==o.r.id),"pre")
        e.oblige(s,"the whole input is sorted, with a buffer of at least that size",z3.And(z3.BoolVal(b.r is A and d.r is not None and d.r.kind=="arr" and d.r is not A),toZ(b.o)==0,toZ(d.o)==0,k==n,s.mem[d.r.id]["len"]>=n) if d.r is not None and d.r.kind=="arr" else n==0,"pre")
        if "at" in s.tags: raise Unsupported("sorted twice")
        out=[]
        for r in(True,False): s2=s.copy(); s2.tags["at"]=(d.r if r else A); s2.tags["buf"]=d.r; out.append((s2,B(r)))
        return out
    def copy(e,s,a,i):
        f,l,d=a
        if not(f.r is l.r): raise Unsupported("copy")
        e.oblige(s,"the whole result is copied back",z3.And(z3.BoolVal(f.r is s.tags.get("buf") and d.r is A),toZ(f.o)==0,toZ(l.o)==8*n,toZ(d.o)==0),"pre")
        if s.tags.get("at") is f.r: s.tags["at"]=d.r
        else: s.tags["at"]=None
        return P(d.r,end)
    E.C.update({"std::vector::vector":ctor,"std::vector::~vector":lambda e,s,a,i:UNDEF,CL+"::IntSortImpl":make,CL+"::sort":run,"std::copy":copy})
    if kind=="unique_ptr":
        st.mem[vec.id]={(0,8):P(A,0)}
        def new(e,s,a,i): b=toZ(e.wrapu(s,a[0])); r=e.new_arr(s,"buffer",8,{0:("int",64)},z3.simplify(b/8)); return P(r,0)
        E.C.update({"operator new[]":new,"operator delete[]":lambda e,s,a,i:UNDEF,"new[]":new,"delete[]":lambda e,s,a,i:UNDEF})
    args=[P(vec,0),I(64,n,0,1<<40)] if kind=="unique_ptr" else [P(vec,0)] if kind=="vector" else [P(A,0),P(A,end)]; args+=[I(32,mk,0,(1<<32)-1)]; np=len(F.params)
    if np!=len(args): raise Unsupported(f"intsort has {np} parameters in the extracted code")
    res=E.run_fn(F,args,st); c.cover(q,"runs",[z3.BoolVal(len(res)>=1)])
    for s,_ in res:
        p=s.mem[vec.id][(0,8)] if kind=="vector" else P(A,0); e=s.mem[vec.id][(8,8)] if kind=="vector" else P(A,end)
        if kind=="unique_ptr": p=s.mem[vec.id][(0,8)]; e=P(p.r,z3.simplify(8*s.mem[p.r.id]["len"]))
        at=s.tags.get("at","none")
        E.oblige(s,"afterwards the sequence given holds the sorted elements",z3.Or(n<2,z3.BoolVal(p.r is at and at is not None)),assume=False)
        E.oblige(s,"it has the same length",z3.And(toZ(p.o)==0,toZ(e.o)==8*n,z3.BoolVal(e.r is p.r)),assume=False)
    c.discharge(E,dict(n=n,max_key=mk))
