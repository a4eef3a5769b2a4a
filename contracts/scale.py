"""weight scaling (WeightScaling.cpp, scaleWeights): what is searched on is the exact expected average degree, and the search ends at a solution.

ws is the descending permutation of the weights.  A pair i,j has X(i,j) = 2^D s ws_i ws_j / W under scaling s; it is an edge with probability
    threshold model   min(1,X)                                  finite alpha   1 if X>=1, else (alpha X - X^alpha)/(alpha-1)
and n times the average degree is the sum over all ordered pairs i!=j.  Row sums over j are spec functions of the row, T* the sums over the rows from i on."""
from contracts._gsrc import *
from contracts.gdraw import _pty,dty,keepfn
from vlib.alg import Alg
Q=Schema.Q
def tu(): return '#include "%s/source/girgs/source/WeightScaling.cpp"\n'%REPO
def keep(n,d):
    b=sym.base_name(d)
    return "omp_outlined" in n or "omp.reduction" in n or b.startswith("girgs::") or "_M_invoke" in n or "_M_manager" in n or b in("std::vector::vector","std::vector::~vector","std::sort","std::stable_sort","std::partition","std::stable_partition","std::lower_bound","std::upper_bound","std::partition_point")
F1=lambda nm,*a:UF(nm,IS(),RS())
DBLMIN=z3.RealVal(Fraction(2)**-1022); DBLMAX=z3.RealVal((Fraction(2)-Fraction(2)**-52)*Fraction(2)**1023)
class Scale:
    def __init__(T,c,D,alpha=None):
        """alpha None: threshold model"""
        T.c=c; T.D=D; T.al=alpha; T.n=z3.Int("n"); T.ws=z3.Array("ws",IS(),RS()); T.w=None; T.W,T.SQ=z3.Reals("W SQ"); T.q=z3.Real("q"); T.am=z3.Int("argmax")
        T.PS,T.PQ,T.OS,T.OQ=F1("PS"),F1("PQ"),F1("OS"),F1("OQ"); T.SS,T.SQ_=F1("SS"),F1("SQ"); T.X=UF("X",IS(),IS(),RS()); T.k=None; T.pw=rfun("pow",2)
        if alpha is None: T.rows=[("TE","RE")]
        else: T.PA,T.PB=F1("PA"),F1("PB"); T.SA,T.SB=F1("SA"),F1("SB"); T.rows=[("TN","RN"),("TW","RW"),("TA","RA")]; T.wa=z3.Array("wa",IS(),RS())
        T.inf_=False
    # ---- facts at an index (all are definitions, or consequences of ws being a descending sequence of positive numbers)
    def at(T,i):
        """facts about position i of ws"""
        w=z3.Select(T.ws,i); ins=z3.And(i>=0,i<T.n); w0=z3.Select(T.ws,z3.IntVal(0))
        r=[w0>0,z3.Implies(ins,z3.And(w>0,w<=w0,T.PS(i+1)==T.PS(i)+w,T.PQ(i+1)==T.PQ(i)+w*w)),T.PS(z3.IntVal(0))==0,T.PQ(z3.IntVal(0))==0,T.SS(i)+T.PS(i)==T.PS(T.n),T.SQ_(i)+T.PQ(i)==T.PQ(T.n),T.SS(i+1)+T.PS(i+1)==T.PS(T.n)]
        if T.al is not None: a=z3.Select(T.wa,i); r+=[z3.Implies(ins,z3.And(a>0,T.PA(i+1)==T.PA(i)+a,T.PB(i+1)==T.PB(i)+a*a)),T.PA(z3.IntVal(0))==0,T.PB(z3.IntVal(0))==0,T.SA(i)+T.PA(i)==T.PA(T.n),T.SB(i)+T.PB(i)==T.PB(T.n),T.SA(i+1)+T.PA(i+1)==T.PA(T.n)]
        return r
    def oat(T,i):
        """facts about position i of the weights as given"""
        w=z3.Select(T.w,i); ins=z3.And(i>=0,i<T.n)
        return [z3.Implies(ins,z3.And(w>0,w<=z3.Select(T.ws,0),T.OS(i+1)==T.OS(i)+w,T.OQ(i+1)==T.OQ(i)+w*w)),T.OS(z3.IntVal(0))==0,T.OQ(z3.IntVal(0))==0,0<=T.am,T.am<T.n,z3.Implies(i==T.am,w==z3.Select(T.ws,0))]
    def xat(T,i,j):
        """X(i,j): definition; monotone in both"""
        a,b,w0=z3.Select(T.ws,i),z3.Select(T.ws,j),z3.Select(T.ws,0); z=z3.IntVal(0)
        return [z3.Implies(z3.And(i>=0,i<T.n,j>=0,j<T.n),z3.And(T.X(i,j)*T.W==T.q*a*b,T.X(i,j)>0,T.X(i,j)<=T.X(z,j),T.X(i,j)==T.X(j,i)))]
    def dist(T,t,u):
        """products of sums, multiplied out"""
        d=z3.simplify(u-1); w,a=z3.Select(T.ws,d),z3.Select(T.wa,d); ins=z3.And(1<=u,u<=T.n)
        return [z3.Implies(ins,z3.And(T.SS(t)*T.PS(u)==T.SS(t)*(T.PS(d)+w),T.SA(t)*T.PA(u)==T.SA(t)*(T.PA(d)+a))),z3.Implies(u==0,z3.And(T.SS(t)*T.PS(u)==0,T.SA(t)*T.PA(u)==0)),T.SS(t)*(T.SS(u)+T.PS(u))==T.SS(t)*T.PS(T.n),T.SA(t)*(T.SA(u)+T.PA(u))==T.SA(t)*T.PA(T.n)]+[f for k in(u,d) for f in [z3.Implies(z3.And(0<=k,k<T.n),z3.And(z3.Select(T.ws,k)*(T.SS(t)+T.PS(t))==z3.Select(T.ws,k)*T.PS(T.n),z3.Select(T.wa,k)*(T.SA(t)+T.PA(t))==z3.Select(T.wa,k)*T.PA(T.n)))]]
    def xmono(T,i,j,i2):
        """a row above: ws[i2] >= ws[i] for i2<=i"""
        return z3.Implies(z3.And(i2>=0,i2<=i,i<T.n,j>=0,j<T.n),T.X(i,j)<=T.X(i2,j))
    def full(T,i,m):
        """[0,m) are the vertices whose pair with i has X>=1 (ties may be on either side in the threshold model)"""
        one=z3.RealVal(1); last=z3.Or(m==T.n,T.X(i,m)<=1 if T.al is None else T.X(i,m)<1)
        return z3.And(0<=i,i<T.n,0<=m,m<=T.n,z3.Or(m==0,T.X(i,m-1)>=1),last)
    def row(T,i,m):
        """closed form of the row sums of i (lemma 'row sums', by induction)"""
        w=z3.Select(T.ws,i); N_=T.n
        if T.al is None: return z3.Implies(T.full(i,m),z3.And(z3.Implies(i<m,F1("RE")(i)==T.q*(w/T.W)*T.PS(m)-z3.ToReal(m)-(T.q*(w/T.W)*w-1)),z3.Implies(i>=m,F1("RE")(i)==T.q*(w/T.W)*T.PS(m)-z3.ToReal(m))))
        a=z3.Select(T.wa,i)
        return z3.Implies(T.full(i,m),z3.And(F1("RN")(i)==z3.ToReal(m)-z3.If(i<m,z3.RealVal(1),z3.RealVal(0)),z3.Implies(i<m,z3.And(F1("RW")(i)==w*T.SS(m),F1("RA")(i)==a*T.SA(m))),z3.Implies(i>=m,z3.And(F1("RW")(i)==w*T.SS(m)-w*w,F1("RA")(i)==a*T.SA(m)-a*a))))
    def tot(T,i):
        return [z3.Implies(z3.And(i>=0,i<T.n),F1(t)(i)==F1(t)(i+1)+F1(r)(i)) for t,r in T.rows]+[F1(t)(T.n)==0 for t,r in T.rows]
    def rest(T,k):
        """rows from k on, where even the heaviest vertex has X<=1 with k (lemma 'remaining rows', by induction)"""
        pre=z3.And(0<=k,k<=T.n,z3.Or(k==T.n,T.X(z3.IntVal(0),k)<=1 if T.al is None else T.X(z3.IntVal(0),k)<1))
        if T.al is None: return z3.Implies(pre,F1("TE")(k)==0)
        s=lambda f:f(T.n)-f(k)
        return z3.Implies(pre,z3.And(F1("TN")(k)==0,F1("TW")(k)==T.PS(T.n)*T.SS(k)-T.SQ_(k),F1("TA")(k)==T.PA(T.n)*T.SA(k)-T.SB(k)))
    def degree_n(T):
        """n times the expected average degree"""
        z=z3.IntVal(0)
        if T.al is None: return T.q*(T.W-T.SQ/T.W)-F1("TE")(z)
        return F1("TN")(z)+(T.al*(T.q/T.W)*F1("TW")(z)-T.f2*F1("TA")(z))/(T.al-1)
    # ---- lemmas
    def lemmas(T):
        c=T.c; i,m,j=z3.Ints("i m j"); n=T.n; base=[n>=1,T.W>0,T.q>0,T.W==T.PS(n)]; R2=lambda nm:UF(nm,IS(),IS(),RS()); x=T.X(i,j)
        S0=lambda m:T.at(m)+T.at(i)+T.xat(i,m)
        if T.al is None:
            ER,RD=R2("ER"),R2("RD"); w=z3.Select(T.ws,i)
            # ER(i,m) = sum over j<m, j!=i of max(0,X-1);  RD(i,m) of min(1,X)
            d=lambda m:[ER(i,m+1)==ER(i,m)+z3.If(m==i,0,z3.If(T.X(i,m)>1,T.X(i,m)-1,0)),RD(i,m+1)==RD(i,m)+z3.If(m==i,0,z3.If(T.X(i,m)>1,1,T.X(i,m)))]
            cl=lambda m:ER(i,m)*T.W==T.q*w*T.PS(m)-T.W*z3.ToReal(m)-z3.If(i<m,T.q*w*w-T.W,0)
            ins=[0<=i,i<n,0<=m,m<n]
            c.lemma("row sums","no vertex",base+S0(z3.IntVal(0))+[0<=i,i<n,ER(i,0)==0],cl(z3.IntVal(0)))
            c.lemma("row sums","one more vertex with X>=1",base+ins+S0(m)+d(m)+[cl(m),T.X(i,m)>=1],cl(m+1))
            c.lemma("row sums","one more vertex with X<=1 adds nothing",base+ins+S0(m)+d(m)+[T.X(i,m)<=1],ER(i,m+1)==ER(i,m))
            c.lemma("row sums","closed form",base+[cl(m)],ER(i,m)==T.q*(w/T.W)*T.PS(m)-z3.ToReal(m)-z3.If(i<m,T.q*(w/T.W)*w-1,0))
            e=lambda m:(RD(i,m)+ER(i,m))*T.W==T.q*w*(T.PS(m)-z3.If(i<m,w,0))
            c.lemma("min(1,X) = X - max(0,X-1)","no vertex",base+S0(z3.IntVal(0))+[0<=i,i<n,ER(i,0)==0,RD(i,0)==0],e(z3.IntVal(0)))
            c.lemma("min(1,X) = X - max(0,X-1)","one more vertex",base+ins+S0(m)+d(m)+[e(m)],e(m+1))
            TD,TE,RE,RDn=F1("TD"),F1("TE"),F1("RE"),F1("RDn")
            tt=lambda i:T.W*(TD(i)+TE(i))==T.q*((T.PS(n)-T.PS(i))*T.PS(n)-(T.PQ(n)-T.PQ(i)))
            c.lemma("sum of all rows","no row",base+[TD(n)==0,TE(n)==0],tt(n))
            c.lemma("sum of all rows","one more row",base+[0<=i,i<n]+T.at(i)+[tt(i+1),TD(i)==TD(i+1)+RDn(i),TE(i)==TE(i+1)+RE(i),(RDn(i)+RE(i))*T.W==T.q*w*(T.PS(n)-w)],tt(i))
            c.lemma("sum of all rows","the degree",base+T.at(z3.IntVal(0))+[tt(z3.IntVal(0)),T.SQ==T.PQ(n)],TD(0)==T.degree_n())
            k=i
            c.lemma("remaining rows","no row",base+[TE(n)==0],TE(n)==0)
            pre=T.X(0,k)<=1
            c.lemma("remaining rows","one more row",base+[0<=k,k<n,T.W>0,pre]+T.at(k)+T.at(k+1)+T.xat(z3.IntVal(0),k)+T.xat(k,z3.IntVal(0))+[z3.Implies(k+1<n,z3.Select(T.ws,k+1)<=z3.Select(T.ws,k))]+T.xat(z3.IntVal(0),k+1)+[z3.Implies(z3.Or(k+1==n,T.X(0,k+1)<=1),TE(k+1)==0),TE(k)==TE(k+1)+RE(k),T.row(k,z3.IntVal(0))],TE(k)==0)
        else:
            a=T.al; w,v=z3.Select(T.ws,i),z3.Select(T.wa,i); f2=T.f2; base+=[a>0,a!=1,f2>0]
            RN,RW,RA,RD=R2("RN2"),R2("RW2"),R2("RA2"),R2("RD2"); ins=[0<=i,i<n,0<=m,m<n]; y=lambda j:f2*v*z3.Select(T.wa,j)
            d=lambda m:[RN(i,m+1)==RN(i,m)+z3.If(m==i,0,z3.If(T.X(i,m)>=1,1,0)),RW(i,m+1)==RW(i,m)+z3.If(z3.Or(m==i,T.X(i,m)>=1),0,w*z3.Select(T.ws,m)),RA(i,m+1)==RA(i,m)+z3.If(z3.Or(m==i,T.X(i,m)>=1),0,v*z3.Select(T.wa,m)),
                RD(i,m+1)==RD(i,m)+z3.If(m==i,0,z3.If(T.X(i,m)>=1,1,(a*T.X(i,m)-y(m))/(a-1)))]
            z=z3.IntVal(0); cl=lambda m:z3.And(RN(i,m)==z3.ToReal(m)-z3.If(i<m,1,0),RW(i,m)==0,RA(i,m)==0)
            m0=z3.Int("m0"); cl2=lambda m:z3.And(RN(i,m)==z3.ToReal(m0)-z3.If(i<m0,1,0),RW(i,m)==w*(T.PS(m)-T.PS(m0)-z3.If(z3.And(m0<=i,i<m),w,0)),RA(i,m)==v*(T.PA(m)-T.PA(m0)-z3.If(z3.And(m0<=i,i<m),v,0)))
            c.lemma("row sums","no vertex",base+[RN(i,0)==0,RW(i,0)==0,RA(i,0)==0,0<=i],cl(z)); c.lemma("row sums","one more vertex with X>=1",base+ins+S0(m)+d(m)+[cl(m),T.X(i,m)>=1],cl(m+1))
            c.lemma("row sums","the first vertex with X<1",base+[cl(m0)],cl2(m0)); c.lemma("row sums","one more vertex with X<1",base+ins+[m0<=m,m0>=0]+S0(m)+d(m)+[cl2(m),T.X(i,m)<1],cl2(m+1))
            e=lambda m:RD(i,m)*(a-1)==RN(i,m)*(a-1)+a*(T.q/T.W)*RW(i,m)-f2*RA(i,m)
            c.lemma("probabilities","no vertex",base+[RN(i,0)==0,RW(i,0)==0,RA(i,0)==0,RD(i,0)==0],e(z)); c.lemma("probabilities","one more vertex",base+ins+S0(m)+d(m)+[e(m)],e(m+1))
            c.lemma("probabilities","X^alpha = f2 (ws_i ws_j)^alpha",base+[z3.Real("qa")>0,f2*z3.Real("Wa")==z3.Real("qa"),z3.Real("Wa")>0,z3.Real("xa")*z3.Real("Wa")==z3.Real("qa")*v*z3.Select(T.wa,m)],z3.Real("xa")==y(m))
            TD,TN,TW,TA,RDn,RN1,RW1,RA1=[F1(k) for k in("TD","TN","TW","TA","RDn","RN","RW","RA")]
            tt=lambda i:TD(i)*(a-1)==TN(i)*(a-1)+a*(T.q/T.W)*TW(i)-f2*TA(i)
            c.lemma("sum of all rows","no row",base+[t(n)==0 for t in(TD,TN,TW,TA)],tt(n)); c.lemma("sum of all rows","one more row",base+[0<=i,i<n,tt(i+1),TD(i)==TD(i+1)+RDn(i),RDn(i)*(a-1)==RN1(i)*(a-1)+a*(T.q/T.W)*RW1(i)-f2*RA1(i)]+T.tot(i),tt(i))
            c.lemma("sum of all rows","the degree",base+[tt(z)],TD(0)==T.degree_n())
            s=lambda f,k:f(n)-f(k); k=i; rr=lambda k:z3.And(TN(k)==0,TW(k)==T.PS(n)*T.SS(k)-T.SQ_(k),TA(k)==T.PA(n)*T.SA(k)-T.SB(k))
            c.lemma("remaining rows","no row",base+T.at(n)+[t(n)==0 for t in(TN,TW,TA)],rr(n))
            c.lemma("remaining rows","one more row",base+[0<=k,k<n,T.X(0,k)<1]+T.at(k)+T.at(k+1)+[z3.Implies(k+1<n,z3.Select(T.ws,k+1)<=z3.Select(T.ws,k))]+T.xat(z,k)+T.xat(k,z)+T.xat(z,k+1)+[z3.Implies(z3.Or(k+1==n,T.X(0,k+1)<1),rr(k+1)),T.row(k,z)]+T.tot(k)+T.at(z),rr(k))
        if True:
            a_,b_,c_=z3.Reals("a b c"); i2=z3.Int("i2"); wi=lambda i:z3.Select(T.ws,i)
            c.lemma("X","monotone and symmetric",base+[T.X(i,j)*T.W==T.q*wi(i)*wi(j),T.X(i2,j)*T.W==T.q*wi(i2)*wi(j),T.X(j,i)*T.W==T.q*wi(j)*wi(i),wi(j)>0,wi(i)>0,wi(i2)>=wi(i)],z3.And(T.X(i,j)<=T.X(i2,j),T.X(i,j)==T.X(j,i),T.X(i,j)>0))

# ---- the functions
def reals(L):
    """the loop's real variables: phis and local cells"""
    out=[lambda S,i=p.id:S.env[i] for p,v in L.phis(R)]
    for key in sorted((k for k in L.ctx.get("mods",()) if k[0]!="g" and isinstance(k[1],tuple) and isinstance(k[1][0],int)),key=str):
        if isinstance(L.entry.mem.get(key[0],{}).get(key[1]),R) and L.eng.is_local(key[0]): out.append(lambda S,k=key:S.mem[k[0]][k[1]])
    return out
def pos(v):
    """position in a vector of doubles: index or iterator"""
    return z3.simplify(toZ(v.o)/8 if isinstance(v,P) else toZ(v.t))
def indexing(F):
    """values that an address or a comparison of addresses depends on"""
    if hasattr(F,"indexing"): return F.indexing
    defs={n.id:n for B_ in F.blocks for n in B_.phis+B_.insts}; todo=[o for n in defs.values() if n.op=="gep" for o in n.ops[1:]]; out=set()
    while todo:
        o=todo.pop()
        if not isinstance(o,sym.Ref) or o.id in out: continue
        out.add(o.id); n=defs.get(o.id)
        if n is not None and n.op in("add","sub","sext","zext","trunc","phi","select","mul","shl","or","and"): todo+=n.ops
    F.indexing=out; return out
def places(F,h,st):
    out=[]; ixs=indexing(F)
    for p in F.blocks[h].phis:
        v=st.env.get(p.id)
        if isinstance(v,I) and v.w in(32,64) and p.id in ixs: out.append(p.id)
        elif isinstance(v,P) and v.r is not None and v.r.kind=="arr" and v.r.stride==8: out.append(p.id)
    return out
def idx8(o):
    """byte offset -> index, without a division where possible"""
    o=z3.simplify(toZ(o),som=True); q=z3.simplify(o/8)
    terms=o.children() if z3.is_add(o) else [o]; out=[]
    for t in terms:
        if z3.is_int_value(t) and t.as_long()%8==0: out.append(z3.IntVal(t.as_long()//8))
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long()%8==0:
            r=t.children()[1:]; r=r[0] if len(r)==1 else z3.Product(*r); out.append((t.arg(0).as_long()//8)*r)
        else: return q
    return z3.simplify(z3.Sum(*out)) if len(out)>1 else out[0]
def posn(v): return idx8(v.o) if isinstance(v,P) else toZ(v.t)
class Run(Scale):
    """symbolic execution of one estimator with everything inlined, vectors and the standard algorithms by contract"""
    def setup(T,m,which):
        c=T.c; q="girgs::"+which; T.F=c.fn(m,q); E=T.E=Engine(m,name=q); st=State(); n=T.n; T.which=which
        st.pc+=[n>=1,n<(1<<31)-16384,T.W>0,T.W==T.PS(n),T.SQ==T.PQ(n),T.W==T.OS(n),T.SQ==T.OQ(n)]; st0=T.at(z3.IntVal(0))
        wr=E.new_arr(st,"weights",8,{0:("real",64)},n); wr.readonly=True; wr.bounds=True; T.w=st.mem[wr.id][0]; wr.hooks[0]=[lambda e,s,i,v:s.pc.extend(T.N(T.oat(toZ(i))))]
        T.wr=wr; vec=E.new_obj(st,"weights vector",{(0,8):P(wr,0),(8,8):P(wr,8*n),(16,8):P(wr,8*n)}); vec.readonly=True
        rt.omp(E); rt.libm(E); E.C["pow"]=E.C["std::pow"]=T.pow; T.A=E.alg=Alg(E,[z3.Real("c"),T.W,z3.ToReal(n),z3.Real("found")],T.al); [T.A.define(x,T.A.poly(y)) for x,y in((T.PS(n),T.W),(T.OS(n),T.W),(T.PQ(n),T.SQ),(T.OQ(n),T.SQ))]; T.A.named=[T.W,T.SQ]; T.A.raised=lambda x: z3.Select(T.wa,x.arg(1)) if T.al is not None and z3.is_select(x) and x.arg(0).eq(T.ws) else None; noop=lambda e,s,a,i:UNDEF
        E.C.update({"std::vector::vector":T.vector,"std::vector::~vector":noop,"operator new":lambda e,s,a,i:P(e.new_obj(s,"closure"),0),"operator delete":noop,"new":lambda e,s,a,i:P(e.new_obj(s,"closure"),0),"delete":noop,"std::sort":T.sort,"std::stable_sort":T.sort,"std::partition":T.partition,"std::stable_partition":T.partition,"std::lower_bound":T.bound,"std::upper_bound":T.bound,"std::partition_point":T.bound,"girgs::exponentialSearch":T.search,"__kmpc_fork_call":T.fork,"__kmpc_reduce_nowait":T.reduce,"__kmpc_reduce":T.reduce,"__kmpc_end_reduce_nowait":noop,"__kmpc_end_reduce":noop,"__assert_fail":T.no,"std::__throw_bad_function_call":T.no})
        for nm in("__kmpc_for_static_init_4","__kmpc_for_static_init_8","__kmpc_for_static_init_4u","__kmpc_for_static_init_8u"): E.C[nm]=T.static
        E.lib["*"]=[(r"std::_Function_handler.*_M_manager$",noop),(r"std::_Function_base::_Base_manager.*",noop)]
        st.pc+=T.N(st0); E.incremental=True; E.fast_discovery=True; E.templates=T.tpl; T.deg=z3.Real("desiredAvgDegree"); T.searched=False
        return st,[P(vec,0),R(T.deg),I(32,T.D)]+([R(T.al)] if T.al is not None else [])
    def N(T,fs): return [T.A.norm(f) for f in fs]
    def norm(T,f): return T.A.norm(f)
    def pow(T,e,s,a,i):
        x,y=toR(a[0].t),toR(a[1].t); r=T.A.power(s,x,y)
        return R(r if r is not None else T.pw(x,y))
    def algebra(T,c):
        """c: the argument of the function searched on"""
        A=T.A; D=z3.RealVal(T.D); two=z3.RealVal(2); al=T.al
        if al is None: q=A.power(None,2*c,D); f2=None
        else: q=A.times(None,z3.RealVal(2**T.D),A.power(None,c,1/al)); f2=A.over(None,A.times(None,c,A.power(None,two,A.times(None,al,D))),A.power(None,T.W,al)); A.define(T.f2,A.poly(f2))
        A.define(T.q,A.poly(q)); A.rename["X"]=lambda i,j:T.q*z3.Select(T.ws,i)*z3.Select(T.ws,j)/T.W
    def th0(T,st):
        w0=z3.Select(T.ws,0); return T.A.over(st,T.W,T.A.times(st,T.q,w0))
    def no(T,e,s,a,i): e.oblige(s,"no failure is reported",z3.BoolVal(False)); raise Dead()
    cz=None
    def vector(T,e,s,a,i):
        v=a[0]; n=None; init=None
        if len(a)>1 and isinstance(a[1],I):
            n=e.wraps(s,a[1]); init=z3.RealVal(0)
            if len(a)>3: init=toR(e.load(s,a[2],dty()).t)
        elif len(a)>1 and isinstance(a[1],P) and a[1].r is not None and len(a)<4:
            b,en=[e.load(s,e.padd(a[1],o),_pty()) for o in(0,8)]
            if "&&" in i.fn.dname:
                for o in(0,8,16): e.store(s,e.padd(v,o),e.load(s,e.padd(a[1],o),_pty()),_pty()); e.store(s,e.padd(a[1],o),NULL,_pty())
                return UNDEF
            n=posn(en)-posn(b); src=s.mem[b.r.id][0]; r=e.new_arr(s,"vector",8,{0:("real",64)},n,init={0:src})
            if conc(z3.simplify(posn(b)))!=0: raise Unsupported("copy of a part")
        elif len(a)>1 and isinstance(a[1],P) and a[1].r is not None and isinstance(a[2],P):     # a range
            b,en=a[1],a[2]; n=posn(en)-posn(b); r=e.new_arr(s,"vector",8,{0:("real",64)},n,init={0:s.mem[b.r.id][0]})
            if conc(z3.simplify(posn(b)))!=0: raise Unsupported("copy of a part")
        elif len(a)==1: n=z3.IntVal(0); init=z3.RealVal(0)
        else: raise Unsupported("vector constructor")
        n=z3.simplify(toZ(n))
        if init is not None: r=e.new_arr(s,"vector",8,{0:("real",64)},n,init={0:z3.K(IS(),init)})
        r.bounds=True; r.hooks[0]=[T.rd]; r.hooks[("w",0)]=[T.wrt]; T.mine.append(r)
        for o,x in((0,0),(8,z3.simplify(8*n)),(16,z3.simplify(8*n))): e.store(s,e.padd(v,o),P(r,x),_pty())
        return UNDEF
    def rd(T,e,s,i,v):
        i=toZ(i); s.pc+=T.N(T.at(i)+T.oat(i))
        for (A,lo,hi,kind) in s.tags.get("slices",()):
            if z3.is_select(v.t) and v.t.arg(0).eq(A): s.pc.append(z3.Implies(z3.And(lo<=i,i<hi),v.t==z3.Select(T.ws,i) if kind=="sorted" else z3.And(v.t<=z3.Select(T.ws,lo),v.t>0)))
    def wrt(T,e,s,i,v): s.pc+=T.N(T.at(toZ(i))+T.oat(toZ(i)))
    # ---- contents that are permutations of ws, slice by slice
    def slices(T,s,r):
        A=s.mem[r.id][0]
        if A.eq(T.w): return [(z3.IntVal(0),T.n,"perm")]
        if A.eq(T.ws): return [(z3.IntVal(0),T.n,"sorted")]
        return [(lo,hi,k) for (B_,lo,hi,k) in s.tags.get("slices",()) if B_.eq(A)]
    def put(T,e,s,r,sl):
        if len(sl)==1 and sl[0][2]=="sorted" and e.provable(s,z3.And(sl[0][0]==0,sl[0][1]==T.n)): s.mem[r.id][0]=T.ws
        else:
            A=z3.Array(e.name("content"),IS(),RS()); s.mem[r.id][0]=A; s.tags["slices"]=tuple(x for x in s.tags.get("slices",()))+tuple((A,lo,hi,k) for lo,hi,k in sl)
        e.note_write((r.id,0))
    def range_(T,e,s,a,what):
        if not(isinstance(a[0],P) and isinstance(a[1],P) and a[0].r is a[1].r and a[0].r in T.mine): raise Unsupported(what+" of something else")
        return a[0].r,posn(a[0]),posn(a[1])
    def closure(T,e,i,v):
        """-> evaluator of the comparison passed to a standard algorithm"""
        todo=[i.fn]; seen=set()
        while todo:
            f=todo.pop(0)
            if f.name in seen or f.decl: continue
            seen.add(f.name)
            if f.dname.startswith("girgs::") and f.dname.split("(")[0]!="" and "operator()" in f.dname:
                def call(s,*xs,f=f):
                    p=v
                    if not isinstance(v,P): p=P(e.new_obj(s,"closure",{(0,8):v} if v is not None else {}),0)
                    F=e.mod.body(f); args=[p]+[R(x) for x in xs]
                    if len(F.params)==len(args)-1: args=args[1:]
                    for t in range(len(F.params)):
                        if F.params[t][1].kind=="ptr" and isinstance(args[t],R): args[t]=P(e.new_obj(s,"argument",{(0,8):args[t]}),0)
                    out=e.run_fn(F,args,s)
                    if len(out)!=1: raise Unsupported("comparison with cases")
                    b=out[0][1]; return toZ(b.t) if isinstance(b,B) else toZ(b.t)!=0
                return call
            e.mod.body(f)
            for b in f.blocks:
                for n in b.insts:
                    if n.op in("call","invoke") and n.fn is not None: todo.append(n.fn)
        m=i.fn.dname
        if "std::greater<" in m: return lambda s,x,y:x>y
        if "std::less<" in m or "lambda" not in m and "$_" not in m: return lambda s,x,y:x<y
        raise Unsupported("comparison")
    def sort(T,e,s,a,i):
        r,lo,hi=T.range_(e,s,a,"sort"); less=T.closure(e,i,a[2] if len(a)>2 else None); x,y=z3.Reals("x y"); sl=T.slices(s,r)
        e.oblige(s,"the weights are sorted in descending order",z3.simplify(z3.And(less(s,x,y)==(x>y))),"pre",assume=False)
        for k,(l,h,kind) in enumerate(sl):
            if e.provable(s,z3.And(l==lo,h==hi)): break
        else: e.oblige(s,"a range that is a permutation of a slice of the sorted weights is sorted",z3.BoolVal(False)); raise Dead()
        sl[k]=(l,h,"sorted"); T.put(e,s,r,sl); return UNDEF
    def partition(T,e,s,a,i):
        r,lo,hi=T.range_(e,s,a,"partition"); pred=T.closure(e,i,a[2] if len(a)>2 else None); x,y=z3.Reals("x y"); sl=T.slices(s,r)
        P_=lambda t:pred(s.copy(),t)
        e.oblige(s,"the largest weights are moved to the front",z3.Implies(z3.And(x<=y,P_(x)),P_(y)),"pre",assume=False)
        for k,(l,h,kind) in enumerate(sl):
            if e.provable(s,z3.And(l==lo,h==hi)): break
        else: e.oblige(s,"a range that is a permutation of a slice of the sorted weights is partitioned",z3.BoolVal(False)); raise Dead()
        mid=z3.Int(e.name("mid")); w=lambda t:z3.Select(T.ws,t)
        s.pc+=[lo<=mid,mid<=hi,z3.Implies(mid>lo,P_(w(mid-1))),z3.Implies(mid<hi,z3.Not(P_(w(mid))))]+T.N(T.at(mid)+T.at(mid-1)+T.xs(mid,mid-1))
        sl[k:k+1]=[(l,mid,"perm"),(mid,h,"perm")]; T.put(e,s,r,sl); return P(r,8*mid)
    def bound(T,e,s,a,i):
        r,lo,hi=T.range_(e,s,a,"binary search"); nm=sym.base_name(i.fn.dname); sl=T.slices(s,r); x,y=z3.Reals("x y")
        comp=T.closure(e,i,a[3] if len(a)>3 else (a[2] if nm.endswith("point") and len(a)>2 else None))
        if nm.endswith("point"): P_=lambda t:comp(s.copy(),t)
        else:
            v=toR(e.load(s,a[2],dty()).t); P_=(lambda t:comp(s.copy(),t,v)) if "lower" in nm else (lambda t:z3.Not(comp(s.copy(),v,t)))
        e.oblige(s,"the binary search fits the descending order",z3.Implies(z3.And(x<=y,P_(x)),P_(y)),"pre",assume=False)
        for (l,h,kind) in sl:
            if kind=="sorted" and e.provable(s,z3.Or(lo==hi,z3.And(l<=lo,hi<=h))): break
        else: e.oblige(s,"the binary search is on a sorted range",z3.BoolVal(False)); raise Dead()
        mid=z3.Int(e.name("mid")); w=lambda t:z3.Select(T.ws,t)
        s.pc+=[lo<=mid,mid<=hi,z3.Implies(mid>lo,P_(w(mid-1))),z3.Implies(mid<hi,z3.Not(P_(w(mid))))]+T.N(T.at(mid)+T.at(mid-1)+T.xs(mid,mid-1)); return P(r,8*mid)
    # ---- parallel loops: any chunk of the iterations on one thread; the chunks of all threads together are all iterations
    def static(T,e,s,a,i):
        if i.args and len(a)<9: raise Unsupported("static schedule")
        w=4 if i.fn.name.endswith(("4","4u")) else 8; ty=rt.ity(8*w); lo,hi=[toZ(e.wraps(s,e.load(s,a[k],ty))) for k in(4,5)]
        e.oblige(s,"the parallel loop is over all vertices",z3.And(lo==0,hi==T.n-1,toZ(a[7].t)==1),"pre"); lb,ub=z3.Ints(e.name("lb")+" "+e.name("ub")); s.pc+=[0<=lb,lb<=T.n,lb-1<=ub,ub<T.n]
        for k,t in((4,lb),(5,ub)): e.store(s,a[k],I(8*w,t,-1,(1<<31)-1),ty)
        s.tags["chunk"]=(lb,ub); return UNDEF
    def reduce(T,e,s,a,i): return I(32,1)
    def fork(T,e,s,a,i):
        fn=a[2]; n=T.n
        if not isinstance(fn,FN): raise Unsupported("fork_call of an unknown function")
        before=s.copy(); g=e.new_obj(s,"gtid"); s.mem[g.id][(0,4)]=I(32,z3.Int("omp_tid"),0,(1<<20)-1); ww=lambda t:z3.Select(T.ws,t); J=z3.Int("any_index")
        outs=e.run_fn(fn.f,[P(g,0),P(g,0)]+a[3:],s); res=before
        e.assumed.add("OpenMP executes every iteration of a worksharing loop exactly once, on some thread of the team; a reduction combines the threads' values with the operation of its clause")
        if e.discovering: return [(o,UNDEF) for o,_ in outs]
        if not outs: raise Dead()
        done={}
        for o,_ in outs:
            if "chunk" not in o.tags: e.oblige(o,"the vertices are shared out among the threads",z3.BoolVal(False)); raise Dead()
            lb,ub=o.tags["chunk"]; o.pc+=T.N(T.oat(lb)+T.oat(T.am)+T.at(J)+T.oat(J)+T.at(z3.IntVal(0)))
            for rid,cells in before.mem.items():
                for k,v in cells.items():
                    v1=o.mem[rid].get(k)
                    if isinstance(v,z3.ExprRef) and v1 is not None and not v1.eq(v):
                        e.instantiate(o,v1,J); e.instantiate(o,v,J)
                        x=z3.Select(v1,J); cand=[("w",z3.Select(T.w,J),T.w)]+([("wa",z3.Select(T.wa,J),T.wa)] if T.al is not None else [])
                        for nm,val,arr in cand:
                            if e.provable(o,z3.Implies(z3.And(0<=J,J<n),x==z3.If(z3.And(lb<=J,J<=ub),val,z3.Select(v,J)))): break
                        e.oblige(o,f"every iteration writes its own entry ({nm})",z3.Implies(z3.And(0<=J,J<n),x==z3.If(z3.And(lb<=J,J<=ub),val,z3.Select(v,J))),assume=False)
                        if done.setdefault((rid,k),nm)!=nm: raise Unsupported("results differ"); 
                        res.mem[rid][k]=arr; e.note_write((rid,k)); T.content[(rid,k)]=arr
                    elif isinstance(v,R) and isinstance(v1,R) and not toR(v1.t).eq(toR(v.t)):
                        a0,a1=toR(v.t),toR(v1.t); goal=None
                        for nm,f in(("W",T.OS),("sq",T.OQ)):
                            gl=a1==a0+f(ub+1)-f(lb)
                            if e.provable(o,gl): goal=gl; new=a0+f(n); break
                        else:
                            nm="max"; goal=z3.And(a1>=a0,z3.Implies(a0<=ww(0),a1<=ww(0)),z3.Implies(z3.And(lb<=T.am,T.am<=ub,a0<=ww(0)),a1==ww(0))); new=z3.Real(e.name("max")); T.newmax=(new,a0)
                            if not e.provable(o,goal): goal=a1==a0+T.OS(ub+1)-T.OS(lb); nm="W"; new=a0+T.OS(n)
                        e.oblige(o,f"a thread contributes its part of the sum or maximum ({nm})",goal,assume=False)
                        if (rid,k) in done:
                            if done[(rid,k)]!=nm: raise Unsupported("results differ")
                        else:
                            done[(rid,k)]=nm; res.mem[rid][k]=R(new)
                            if nm=="max": res.pc+=[z3.Implies(a0<=ww(0),new==ww(0))]+T.N(T.at(z3.IntVal(0)))
                            else: res.pc+=T.N(T.oat(z3.IntVal(0)))
                        e.note_write((rid,k))
                    elif v1 is not v and not isinstance(v,(R,z3.ExprRef)) and str(v1)!=str(v): raise Unsupported(f"a parallel loop changes {rid} {k}")
        return [(res,UNDEF)]
    # ---- the search
    def search(T,e,s,a,i):
        n=T.n; toR_=lambda v:toR(v.t); E=e; T.searched=True
        e.oblige(s,"the search is for the desired degree",toR_(a[1])==T.deg,"pre"); e.oblige(s,"the search is at least as accurate as 0.02",z3.And(toR_(a[2])>0,toR_(a[2])<=z3.RealVal("0.0200000001")),"pre"); e.oblige(s,"the search starts with a positive interval",z3.And(toR_(a[3])>0,toR_(a[4])>0),"pre")
        inv=e.load(s,e.padd(a[0],24),_pty())
        if not isinstance(inv,FN): raise Unsupported("the function searched on")
        c=z3.Real("c"); t=s.copy(); t.pc.append(c>0); T.cz=c; D=z3.RealVal(T.D); P2=z3.RealVal(2**T.D)
        T.algebra(c); t.pc+=T.N([T.q>0]+T.at(z3.IntVal(0))); th=T.thterm=T.th0(t); t.pc+=T.N(T.xs(z3.IntVal(0))); t.pc+=[th>DBLMIN,th<DBLMAX]
        # state that calls of f share: the lazily sorted weights
        lazies=[]
        for rid,cells in t.mem.items():
            v0,v1,v2=[cells.get(k) for k in((0,8),(8,8),(16,8))]
            if isinstance(v0,P) and isinstance(v1,P) and isinstance(v2,R) and v1.r in T.mine and v0.r is not None and v0.r.kind=="obj": lazies.append((rid,v1.r,v0))
        if len(lazies)>1: raise Unsupported("several lazily sorted vectors")
        def linv(st,rid,r,v0,name):
            cells=st.mem[rid]; se,ml=cells[(8,8)],toR(cells[(16,8)].t); sl=T.slices(st,r)
            if not(se.r is r and sl and isinstance(cells[(0,8)],P) and cells[(0,8)].r is v0.r): e.oblige(st,f"lazy sorting: the vector is a permutation of the weights {name}",z3.BoolVal(False)); raise Dead()
            k=posn(se); e.oblige(st,f"lazy sorting: the end of the sorted part is in the vector {name}",z3.And(0<=k,k<=n),assume=True); st.pc+=T.N(T.at(k)+T.xs(k))
            e.oblige(st,f"lazy sorting: the weights behind the sorted part are smaller than the bound {name}",z3.Implies(k<n,z3.Select(T.ws,k)<ml),assume=False)
            ok=[z3.Or(lo>=k,z3.And(z3.BoolVal(kind=="sorted"),hi<=k),lo==hi) for lo,hi,kind in sl]
            e.oblige(st,f"lazy sorting: the front part is sorted {name}",z3.And(*ok),assume=False)
        for rid,r,v0 in lazies:
            t.pc.append(z3.Select(T.ws,0)<DBLMAX); linv(t,rid,r,v0,"at the start")
            se=z3.Int("sorted_end"); ml=z3.Real("m_lower"); t.mem[rid][(8,8)]=P(r,8*se); t.mem[rid][(16,8)]=R(ml); t.pc+=[0<=se,se<=n,z3.Implies(se<n,z3.Select(T.ws,se)<ml)]+T.N(T.at(se)+T.xs(se)); T.put(e,t,r,[(z3.IntVal(0),se,"sorted"),(se,n,"perm")])
        start=t.copy(); arg=e.new_obj(t,"argument",{(0,8):R(c)}); known=set(start.mem)
        outs=e.run_fn(inv.f,[a[0],P(arg,0)],t); T.c.cover(e.fn_name,"the function searched on",[z3.BoolVal(bool(outs))])
        for o,v in outs:
            T.c.cover(e.fn_name,"a path of the function searched on",o.pc)
            e.oblige(o,"the function searched on is the exact expected average degree",T.norm(toR(v.t)*z3.ToReal(n)==T.degree_n()),assume=False)
            for rid,r,v0 in lazies: linv(o,rid,r,v0,"afterwards")
            lz={x[0] for x in lazies}; arrs={x[1].id for x in lazies}
            for rid in known:
                for k,v0 in start.mem[rid].items():
                    v1=o.mem[rid].get(k); same=v1 is v0 or (isinstance(v0,z3.ExprRef) and isinstance(v1,z3.ExprRef) and v0.eq(v1)) or str(v0)==str(v1)
                    if not same and not(rid in lz and k in((8,8),(16,8))) and rid not in arrs: e.oblige(o,"evaluating the degree changes nothing else",z3.BoolVal(False),"frame")
        T.cz=None; r=T.found=z3.Real("found"); s.pc.append(r>0)
        for rid,rr,v0 in lazies: s.mem[rid][(16,8)]=R(z3.Real("m_lower_end"))
        return R(r)
    def xs(T,*js):
        """which of the pairs with the heaviest vertex have X>=1"""
        if T.cz is None: return []
        th=T.thterm; z=z3.IntVal(0)
        return [f for j in js for f in [z3.Implies(z3.And(0<=j,j<T.n),z3.And((z3.Select(T.ws,j)>=th)==(T.X(z,j)>=1),(z3.Select(T.ws,j)>th)==(T.X(z,j)>1)))]+T.xat(z,j)]
    # ---- invariants
    def facts(T,M,F,h):
        st=M.st
        ix=[];
        def add(t):
            t=z3.simplify(toZ(t))
            if not any(t.eq(x) for x in ix): ix.append(t)
        for (F_,h_,stt) in [(F,h,st),(F,h,M.entry)]+[(x[0],x[1],st) for x in M.outer if x[0] is F]:
            for p in places(F_,h_,stt): add(posn(stt.env[p])+T.shift.get((F_.name,p),0))
        base=list(ix); key=(h,T.cz is None)+tuple(sorted(t.get_id() for t in base)); T.held+=base
        if key in st.tags.get('scale_facts',()): return
        for t in base: add(t-1)
        out=[]
        for t in ix: out+=T.at(t)+T.oat(t)+T.tot(t)
        if T.cz is not None:
            for t in base: out.append(T.rest(t))
            if T.al is not None: out+=[f for t in base for u in base for f in T.dist(t,u)]
            for u in ix+[z3.IntVal(0)]: out+=T.xat(z3.IntVal(0),u)+T.xat(u,z3.IntVal(0))
            for t in base:
                for u in base:
                    out.append(T.row(t,u)); sd=z3.simplify; out.append(T.xmono(t,sd(u-1),sd(t-1))); out.append(T.xmono(sd(t+1),sd(u-1),t)); out.append(T.xmono(t,u,z3.IntVal(0)))
        st.pc+=[f for f in (z3.simplify(g) for g in T.N(out)) if not z3.is_true(f)]; st.tags["scale_facts"]=st.tags.get("scale_facts",frozenset())|{key}
    def tpl(T,L):
        out=[]; F,h=L.F,L.h; ps=places(F,h,L.entry); n=T.n; ww=lambda t:z3.Select(T.ws,t)
        for p in ps:    # a loop that counts down from ..-1 is at the position after its variable
            o=z3.simplify(posn(L.entry.env[p]))
            if z3.is_int_value(o) and o.as_long()==-1 or z3.is_add(o) and z3.is_int_value(o.arg(0)) and o.arg(0).as_long()==-1: T.shift[(F.name,p)]=1
        sh=lambda p:T.shift.get((F.name,p),0)
        def t(name,f,req=False): out.append((name,lambda M:(T.facts(M,F,h),T.norm(f(M)))[1]))
        at=lambda M,p:posn(M.st.env[p])+sh(p); at0=lambda M,p:posn(M.entry.env[p])+sh(p)
        rs=[(f"real {j}",(lambda S,g=g:toR(g(S).t))) for j,g in enumerate(reals(L))]+[(f"count {j}",(lambda S,g=g:z3.ToReal(toZ(g(S).t)))) for j,g in enumerate(L.ints())]
        fs=[("PS",T.PS),("PQ",T.PQ)]+([("OS",T.OS),("OQ",T.OQ)] if T.cz is None else [])+([("PA",T.PA),("PB",T.PB)] if T.al is not None else [])
        for p in ps:
            t(f"{p} in range",lambda M,p=p:z3.And(at(M,p)>=-1,at(M,p)<=n)); t(f"{p} from 0 to n",lambda M,p=p:z3.And(at(M,p)>=0,at(M,p)<=n))
            t(f"{p} not above its start",lambda M,p=p:at(M,p)<=at0(M,p))
            for p2 in ps:
                if p2!=p: t(f"{p} not above the start of {p2}",lambda M,p=p,p2=p2:at(M,p)<=at0(M,p2))
            for (F_,h_,K_,en) in L.outer:
                if F_ is F:
                    for p2 in places(F_,h_,en): t(f"{p} not above the outer start of {p2}",lambda M,p=p,p2=p2,en=en:at(M,p)<=posn(en.env[p2])+sh(p2))
        for nm,g in rs:
            isr=nm.startswith("real")
            for p in ps:
                if isr:
                    for fn,f in fs: t(f"{nm}: sum of {fn} over {p}",lambda M,g=g,p=p,f=f:g(M.st)-g(M.entry)==f(at(M,p))-f(at0(M,p))); t(f"{nm}: sum of {fn} down {p}",lambda M,g=g,p=p,f=f:g(M.st)-g(M.entry)==f(at0(M,p))-f(at(M,p)))
                    if T.cz is None: t(f"{nm}: maximum over {p}",lambda M,g=g,p=p:z3.And(g(M.st)<=ww(0),z3.Implies(z3.And(at0(M,p)<=T.am,T.am<at(M,p)),g(M.st)==ww(0))))
                if T.cz is not None:
                    for tt,_ in T.rows: t(f"{nm}: rows {tt} from {p}",lambda M,g=g,p=p,tt=tt:g(M.st)-g(M.entry)==F1(tt)(at(M,p))-F1(tt)(at0(M,p)))
                    if T.al is not None and isr:
                        for tt,f,sf in(("TW",T.PS,T.SS),("TA",T.PA,T.SA)): t(f"{nm}: rows {tt} from {p} with the partners outside the club",lambda M,g=g,p=p,tt=tt,f=f,sf=sf:g(M.st)-g(M.entry)==F1(tt)(at(M,p))-F1(tt)(at0(M,p))+sf(at0(M,p))*(f(at0(M,p))-f(at(M,p))))
        if T.cz is not None:
            rows=[("0",lambda M:z3.IntVal(0))]
            for (F_,h_) in [(F,h)]+[(x[0],x[1]) for x in L.outer if x[0] is F]:
                for p in places(F_,h_,L.st):
                    for d in(0,-1): rows.append((f"{p}{d:+}",lambda M,p=p,d=d+T.shift.get((F.name,p),0):posn(M.st.env[p])+d))
            for m in ps:
                for rn,row in rows: t(f"below {m} all pairs with row {rn} saturate",lambda M,m=m,row=row:z3.Or(at(M,m)==0,z3.And(0<=row(M),row(M)<n,T.X(row(M),at(M,m)-1)>=1)))
        for key in sorted((k for k in L.ctx["mods"] if k[0]!="g" and k[1]==0),key=str):
            r=L.eng.reg_names.get(key[0])
            if r is None or r.kind!="arr": continue
            ga=lambda M,k=key:M.st.mem[k[0]][k[1]]; g0=lambda M,k=key:M.entry.mem[k[0]][k[1]]
            for p in ps:
                for fn,f in fs:
                    def sch(f,p,ga):
                        out.append((f"sums {fn} from {p} on",Schema(ga,lambda M,i:(T.facts(M,F,h),z3.Implies(z3.And(at(M,p)<=i,i<=n),z3.Select(ga(M),i)==f(n)-f(i)))[1])))
                    sch(f,p,ga)
                def sch2(p,ga,g0):
                    val=[("w",lambda i:z3.Select(T.w,i)),("ws",lambda i:z3.Select(T.ws,i))]+([("wa",lambda i:z3.Select(T.wa,i))] if T.al is not None else [])
                    for nm,v in val: out.append((f"{nm} written up to {p}",Schema(ga,lambda M,i,v=v:(T.facts(M,F,h),z3.Implies(z3.And(0<=i,i<n),z3.Select(ga(M),i)==z3.If(z3.And(at0(M,p)<=i,i<at(M,p)),v(i),z3.Select(g0(M),i))))[1])))
                sch2(p,ga,g0)
        return out
def estimate(c,which,D):
    al=z3.Real("alpha") if which=="estimateWeightScaling" else None
    T=Run(c,D,al); T.mine=[]; T.content={}; T.held=[]; T.shift={}
    if al is not None: T.f2=z3.Real("f2")
    m=c.load(tu(),keep); st,args=T.setup(m,which); E=T.E
    if al is not None: st.pc+=[al>0,al!=1]
    T.lemmas(); out=E.run_fn(T.F,args,st); c.cover("girgs::"+which,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover("girgs::"+which,"a path to the end",s.pc)
        if not T.searched: E.oblige(s,"the scaling is searched for",z3.BoolVal(False),assume=False); continue
        E.oblige(s,"the scaling returned is the one that belongs to the solution found",toR(v.t)==T.A.power(s,T.found,z3.RealVal(D) if al is None else 1/al),assume=False)
    c.discharge(E,dict(n=T.n,c=z3.Real("c"),W=T.W,desired=T.deg))
def search(c):
    m=c.load(tu(),keep); q="girgs::exponentialSearch"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); f=UF("f",RS(),RS()); des,acc,lo,up=z3.Reals("desired accuracy lower upper"); st.pc+=[lo>0,up>0,acc>0]
    inv=[g for g in m.funcs.values() if "_M_invoke" in g.dname and not g.decl][0]; man=[g for g in m.funcs.values() if "_M_manager" in g.dname and not g.decl][0]
    def call(e,s,a,i):
        x=toR(e.load(s,a[1],dty()).t); e.oblige(s,"the function is only evaluated at positive scalings",x>0,"pre"); return R(f(x))
    E.lib["*"]=[(r"std::_Function_handler.*_M_invoke$",call)]; E.C["std::__throw_bad_function_call"]=lambda e,s,a,i:(_ for _ in()).throw(Dead())
    def tpl(L):
        gs=reals(L); out=[]; cand=lambda M:[toR(g(M.st).t) for g in gs]
        for j,g in enumerate(gs):
            v=lambda M,g=g:toR(g(M.st).t)
            out.append((f"variable {j} positive",lambda M,v=v:v(M)>0))
            for a in range(len(gs)):
                out.append((f"variable {j} is f(variable {a})",lambda M,v=v,a=a:v(M)==f(cand(M)[a])))
                for b in range(a): out.append((f"variable {j} is f of the mean of {a} and {b}",lambda M,v=v,a=a,b=b:v(M)==f((cand(M)[a]+cand(M)[b])/2))); out.append((f"variable {j} is the mean of {a} and {b}",lambda M,v=v,a=a,b=b:v(M)==(cand(M)[a]+cand(M)[b])/2))
        return out
    E.templates=tpl
    fo=E.new_obj(st,"function",{(16,8):FN(man),(24,8):FN(inv)}); fo.readonly=True
    out=E.run_fn(F,[P(fo,0),R(des),R(acc),R(lo),R(up)],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); x=toR(v.t); E.oblige(s,"the search only ends at a positive scaling",x>0,assume=False); d=f(x)-des; E.oblige(s,"the search only ends where the function is within the accuracy of the desired value",z3.And(d<=acc,-d<=acc),assume=False)
    c.discharge(E,dict(desired=des,accuracy=acc))
def apply(c):
    """scaleWeights: the right estimator with the right arguments; every weight is multiplied by the scaling once; the scaling is returned"""
    m=c.load(tu_g(),keepfn); q="girgs::scaleWeights"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); n,dim=z3.Ints("n dimension"); al,deg,est=z3.Reals("alpha desiredAvgDegree scaling")
    st.pc+=[n>=0,n<(1<<31)-16384,dim>=1,dim<=5,est>0]; rt.libm(E); E.alg=A=Alg(E,[est]); thrown=[]; what=[]
    wr=E.new_arr(st,"weights",8,{0:("real",64)},n); wr.bounds=True; w0=st.mem[wr.id][0]; vec=E.new_obj(st,"weights vector",{(0,8):P(wr,0),(8,8):P(wr,8*n),(16,8):P(wr,8*n)}); vec.readonly=True
    def estim(which):
        def h(e,s,a,i):
            good=isinstance(a[0],P) and a[0].r is vec and conc(z3.simplify(toZ(a[0].o)))==0
            e.oblige(s,"the scaling is estimated for the given weights",z3.And(z3.BoolVal(good and "done" not in s.tags),z3.BoolVal(s.mem[wr.id][0].eq(w0))),"pre")
            e.oblige(s,"the scaling is estimated for the desired degree and the dimension",z3.And(toR(a[1].t)==deg,toZ(e.wraps(s,a[2]))==dim),"pre")
            if which=="finite": e.oblige(s,"the scaling is estimated for the given alpha",z3.And(toR(a[3].t)==al,al>0,al!=1),"pre")
            else: e.oblige(s,"only alpha above 8 is treated as the threshold model",al>8,"pre")
            s.tags["done"]=True; return R(est)
        return h
    E.C["girgs::estimateWeightScaling"]=estim("finite"); E.C["girgs::estimateWeightScalingThreshold"]=estim("threshold")
    def throw(e,s,a,i): e.oblige(s,"an exception is only thrown for alpha<=0 or alpha=1",z3.Or(al<=0,al==1),"post"); raise Dead()
    E.C["__cxa_throw"]=throw; E.C["__cxa_allocate_exception"]=lambda e,s,a,i:P(e.new_obj(s,"exception"),0)
    def tpl(L):
        out=[]; F_,h=L.F,L.h; ps=places(F_,h,L.entry); at=lambda M,p:posn(M.st.env[p]); at0=lambda M,p:posn(M.entry.env[p])
        for p in ps: out.append((f"{p} from 0 to n",lambda M,p=p:z3.And(at(M,p)>=0,at(M,p)<=n)))
        for key in sorted((k for k in L.ctx["mods"] if k==(wr.id,0)),key=str):
            ga=lambda M,k=key:M.st.mem[k[0]][k[1]]; g0=lambda M,k=key:M.entry.mem[k[0]][k[1]]
            for p in ps: out.append((f"the weights before {p} are scaled",Schema(ga,lambda M,i,p=p:z3.Implies(z3.And(0<=i,i<n),z3.Select(ga(M),i)==z3.If(z3.And(at0(M,p)<=i,i<at(M,p)),A.times(None,z3.Select(g0(M),i),est),z3.Select(g0(M),i))))))
        return out
    E.templates=tpl; out=E.run_fn(F,[P(vec,0),R(deg),I(32,dim,1,5),R(al)],st); c.cover(q,"return",[z3.BoolVal(bool(out))]); J=z3.Int("any_index")
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); E.oblige(s,"the weights are returned only after an estimate",z3.And(z3.BoolVal("done" in s.tags),al>0,al!=1),assume=False); E.oblige(s,"the scaling is returned",toR(v.t)==est,assume=False); w1=s.mem[wr.id][0]; E.instantiate(s,w1,J)
        E.oblige(s,"every weight is multiplied by the scaling",z3.Implies(z3.And(0<=J,J<n),z3.Select(w1,J)==A.times(None,z3.Select(w0,J),est)),assume=False)
    c.discharge(E,dict(n=n,alpha=al))
