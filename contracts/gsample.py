"""sampleTypeI / sampleTypeII of the GIRG SpatialTree: which pairs are decided (C07), with what outcome (C09, C10), on which generator (C20)"""
from contracts.gtree import *
from vlib import rt
from vlib.toss import Toss
class Sampler(Tree):
    def __init__(T,c,D,E,m,st):
        super().__init__(c,D,E,m,st); T.sz=const(m,"size_node"); z=z3.IntVal
        T.LO=UF("LO",IS(),IS(),IS(),IS()); T.HI=UF("HI",IS(),IS(),IS(),IS()); T.LAYER=UF("LAYER",IS(),IS()); T.CELL=UF("CELL",IS(),IS(),IS()); T.DIST=UF("DIST",IS(),IS(),RS()); T.CDIST=UF("CDIST",IS(),IS(),IS(),RS())
        T.pu,T.pv=z3.Ints("pu pv"); st.pc+=[0<=T.pu,T.pu<T.n,0<=T.pv,T.pv<T.n,T.pu!=T.pv,T.LAYER(T.pu)==T.iu,T.LAYER(T.pv)==T.iv]
        fo={k:const(m,"node_"+k) for k in("weight","index")}; T.fo=fo
        T.nodes=E.new_arr(st,"m_nodes",T.sz,{fo["weight"]:("real",),fo["index"]:("int",32)},T.n); T.nodes.readonly=True
        T.WGT=st.mem[T.nodes.id][fo["weight"]]; T.IDX=st.mem[T.nodes.id][fo["index"]]; IV=UF("IDXINV",IS(),IS())
        T.nodes.hooks[fo["index"]]=[lambda e,s,i,v:s.pc.append(IV(z3.Select(T.IDX,toZ(i)))==toZ(i))]
        T.nodes.hooks[fo["weight"]]=[lambda e,s,i,v:T.wfacts(s,i)]
        T.level=z3.Int("level"); T.A,T.B=z3.Ints("cellA cellB"); T.i,T.j=z3.Ints("i j")
        l=T.level; T.lev(st,l); P_=T.PBL(T.i,T.j)
        st.pc+=[0<=l,l<=P_,P_<T.levels,P_<=T.TGT(T.i),P_<=T.TGT(T.j),0<=T.i,T.i<T.layers,0<=T.j,T.j<T.layers]+[g for _,g in T.pre_visit(T.A,T.B,l)]+[T.TOUCH(l,T.A,T.B)==T.TOUCH(l,T.B,T.A),z3.Implies(T.A==T.B,T.TOUCH(l,T.A,T.B))]
        st.pc+=[T.CELL(l,T.pu)==T.CU(l),T.CELL(l,T.pv)==T.CV(l)]
        T.count=True; T.toss=Toss(st,T.cond); T.n_read=z3.IntVal(0)
    def wfacts(T,st,k):
        k=toZ(k); L=T.LAYER(k); w=z3.Select(T.WGT,k); T.member(st,k); st.pc+=[w>=T.w0,w<T.w0*z3.ToReal(POW2(L+1)),w<=T.w0*z3.ToReal(POW2(L+1))]
        for r in T.getranges(st): st.pc.append(z3.Implies(L==r[0],POW2(L+1)==POW2(z3.simplify(r[0]+1))))
    def getranges(T,st): return st.tags.get("ranges",())
    def member(T,st,k):
        for (i,cl,l,lo,hi) in T.getranges(st): st.pc.append(z3.And(lo<=k,k<hi)==z3.And(T.LAYER(k)==i,T.CELL(l,k)==cl))
    def powD(T,d):
        r=d
        for _ in range(T.D-1): r=r*d
        return r
    def wterm(T,x,y): return z3.Select(T.WGT,x)*z3.Select(T.WGT,y)/T.W
    def cond(T,st,x,y,rnd):
        d=T.powD(T.DIST(x,y)); w=T.wterm(x,y); return z3.If(T.alpha==INF,d<w,rnd<rfun("pow",2)(w/d,T.alpha))
    def idx(T,eng,st,p):
        if p.r is not T.nodes: raise Unsupported("not a node of the tree")
        i,f=eng.split_off(st,T.nodes,p.o,0)
        if f: raise Unsupported("pointer into a node")
        return toZ(i)
    def h_cells(T,eng,st,a,inst):
        if a[0].r is not T.wl: raise Unsupported("cellIterators of another layer object")
        i,f=eng.split_off(st,T.wl,a[0].o,0); i=toZ(i); cl,l=[z3.simplify(toZ(eng.wrapu(st,v))) for v in a[1:3]]
        eng.oblige(st,"the layer exists",z3.And(0<=i,i<T.layers),"pre"); eng.oblige(st,"the cell's level is not deeper than the layer's insertion level",l<=T.TGT(i),"pre"); eng.oblige(st,"the cell is of that level",z3.And(T.FIRST(l)<=cl,cl<T.FIRST(z3.simplify(l+1))),"pre")
        lo,hi=T.LO(i,cl,l),T.HI(i,cl,l); st.pc+=[0<=lo,lo<=hi,hi<=T.n]
        for s_,li,cc in((T.pu,T.iu,T.CU),(T.pv,T.iv,T.CV)): st.pc.append(z3.And(lo<=s_,s_<hi)==z3.And(i==li,cl==cc(l)))
        st.tags["ranges"]=T.getranges(st)+((i,cl,l,lo,hi),)
        v=A([P(T.nodes,z3.simplify(T.sz*lo)),P(T.nodes,z3.simplify(T.sz*hi))]); return v
    def h_distance(T,eng,st,a,inst):
        x,y=T.idx(eng,st,a[0]),T.idx(eng,st,a[1])
        for k in(x,y): eng.oblige(st,"distance is asked about vertices that exist",z3.And(k>=0,k<T.n),"bounds"); T.member(st,k)
        d=T.DIST(x,y); st.pc+=[d>=0,d==T.DIST(y,x)]
        rs=T.getranges(st); l=T.level
        st.pc.append(z3.Implies(z3.Or(z3.And(T.CELL(l,x)==T.A,T.CELL(l,y)==T.B),z3.And(T.CELL(l,x)==T.B,T.CELL(l,y)==T.A)),d>=T.CDIST(l,T.A,T.B)))
        T.toss.distance(eng,st,x,y); T.on_decide(eng,st,x,y)
        cd=T.CDIST(l,T.A,T.B); st.pc+=T.mono(T.powD(cd),T.powD(d),cd,d)
        return R(d)
    def mono(T,cD,dD,cd,d): return [z3.Implies(z3.And(0<=cd,cd<=d),cD<=dD),z3.Implies(cd>0,cD>0)]
    def on_decide(T,eng,st,x,y): T.add(eng,st,"cnt",z3.Or(z3.And(x==T.pu,y==T.pv),z3.And(x==T.pv,y==T.pu)))
    def h_uniform(T,eng,st,a,inst):
        t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8
        lo,hi=[toR(eng.load(st,eng.padd(a[0],o),t).t) for o in(0,8)]
        eng.oblige(st,"the number compared with the probability is uniform in [0, probability of being visited)",z3.And(lo==0,hi==st.g["q"]),"pre"); T.own_gen(eng,st,a[1])
        return R(T.toss.draw(eng,st))
    def own_gen(T,eng,st,p):
        if p.r is not T.gens: raise Unsupported("another random number generator")
        eng.oblige(st,"the thread uses its own random number generator",toZ(p.o)==const(T.m,"size_gen")*z3.Int("omp_tid"),"post")
    def h_emit(T,eng,st,a,inst):
        eng.oblige(st,"an edge is reported with the number of the calling thread",toZ(eng.wraps(st,a[2]))==z3.Int("omp_tid"),"post")
        u,v=[toZ(eng.wrapu(st,k)) for k in a[:2]]; g=st.g; ix=lambda k:z3.Select(T.IDX,k)
        T.toss.emit(eng,st,z3.Or(z3.And(u==ix(g["x"]),v==ix(g["y"])),z3.And(u==ix(g["y"]),v==ix(g["x"])))); return UNDEF
    def expected(T,kind=None): 
        l,A_,B_,i,j=T.level,T.A,T.B,T.i,T.j; return z3.Or(z3.And(T.is_cell(A_,l,0),T.is_cell(B_,l,1),i==T.iu,j==T.iv),z3.And(T.is_cell(A_,l,1),T.is_cell(B_,l,0),i==T.iv,j==T.iu))
    def tpl(T,L):
        out=T.toss.templates(); rs=T.getranges(L.st); 
        out=[(o[0],o[1],len(o)>2 and o[2]) for o in out]
        if len(rs)<2 or not T.count: return out
        LOA,HIA,LOB,HIB=rs[0][3],rs[0][4],rs[1][3],rs[1][4]; same=z3.And(T.A==T.B,T.i==T.j); S_,T_=T.pu,T.pv
        def ind(v,lo,M):
            """index of the node a loop variable stands for"""
            if isinstance(v,P): return z3.simplify(toZ(T.idx(M.eng,M.st,v))) if v.r is T.nodes else None
            if isinstance(v,I): return z3.simplify(lo+toZ(v.t))
            return None
        cur=[p_.id for p_,v in L.phis() if isinstance(v,(P,I))]; outer=[]
        for (F,h,K,entry) in L.outer: outer+=[p_.id for p_ in F.blocks[h].phis if isinstance(L.st.env.get(p_.id),(P,I))]
        cnt=lambda M,s: M.st.g["cnt"]==M.entry.g["cnt"]+s
        one=lambda b: z3.If(b,1,0)
        for pid in cur:
            for (lo1,hi1,lo2,hi2) in((LOA,HIA,LOB,HIB),(LOB,HIB,LOA,HIA)):
                def outerinv(M,pid=pid,lo1=lo1,lo2=lo2,hi2=hi2):
                    x=ind(M.st.env[pid],lo1,M); e=ind(M.entry.env[pid],lo1,M)
                    if x is None or e is None: return None
                    return cnt(M,z3.Sum(*[one(z3.And(e<=s,s<x,lo2<=t,t<hi2,z3.Implies(same,t>s))) for s,t in((S_,T_),(T_,S_))]))
                out.append(("rows handled",outerinv))
                for oid in outer:
                    def innerinv(M,pid=pid,oid=oid,lo1=lo1,lo2=lo2):
                        x=ind(M.st.env[oid],lo1,M); y=ind(M.st.env[pid],lo2,M); e=ind(M.entry.env[pid],lo2,M)
                        if x is None or y is None or e is None: return None
                        return cnt(M,z3.Sum(*[one(z3.And(x==s,e<=t,t<y)) for s,t in((S_,T_),(T_,S_))]))
                    out.append(("pairs of this row handled",innerinv))
        return out
def libs(T,E,mf=None):
    rt.omp(E); rt.libm(E,mf)
    E.C.update({"girgs::WeightLayer::cellIterators":T.h_cells,"girgs::Node::distance":T.h_distance,"std::uniform_real_distribution::operator()":T.h_uniform,"verif_emit":T.h_emit,H+"firstCellOfLevel":T.h_first,H+"numCellsInLevel":T.h_num,H+"touching":T.h_touching})
def typeI(c,D,cases=((True,True),(True,False),(False,True),(False,False)),inf=None,count=True):
    m=c.load(tu(D),keepfn); q=S+"sampleTypeI"; F=c.fn(m,q)
    for same,eqij in cases:
      E=Engine(m,name=q); st=State(); T=Sampler(c,D,E,m,st); libs(T,E); E.templates=T.tpl
      st.pc+=[(T.A==T.B) if same else T.A!=T.B,(T.i==T.j) if eqij else T.i!=T.j]+([] if inf is None else [(T.alpha==INF) if inf else T.alpha<INF]); T.count=count
      tag=f"D={D}, {'A==B' if same else 'A!=B'}, {'i==j' if eqij else 'i!=j'}"
      args=[P(T.this,0)]+[I(32,v,0,h) for v,h in((T.A,(1<<32)-2),(T.B,(1<<32)-2),(T.level,30),(T.i,29),(T.j,29))]; st.pc+=[T.A>=0,T.B>=0]
      out=E.run_fn(F,args,st); c.cover(q,tag,[z3.BoolVal(bool(out))])
      for s,v in out:
          c.cover(q,tag+" a path to the end",s.pc)
          if count: E.oblige(s,f"the fixed pair is decided exactly once by the cell pair and layer pair that contain it, and not by others ({tag})",s.g["cnt"]-z3.Int("cnt0")==z3.If(T.expected(),1,0),assume=False)
          T.toss.end(E,s)
      c.discharge(E,dict(D=D,level=T.level,p=T.p))
class SkipSampler(Sampler):
    """sampleTypeII: geometric skipping.  target = index of the next pair to visit, visited = it has been visited, pos = all indices below are settled"""
    def start(T,st): z=z3.IntVal(0); st.g.update(target=z3.IntVal(-1),visited=z3.IntVal(1),pos=z,delegated=z); T.gp=None
    def num(T,st):
        rs=T.getranges(st); return (rs[0][4]-rs[0][3]),(rs[1][4]-rs[1][3])
    def h_geo(T,eng,st,a,inst):
        t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8; g=st.g
        p=toR(eng.load(st,a[0],t).t); lg=toR(eng.load(st,eng.padd(a[0],8),t).t)
        eng.oblige(st,"the distribution's parameter is a probability",z3.And(p>0,p<1),"pre"); T.own_gen(eng,st,a[1])
        if not g.get("hasp"): st.g["q"]=p; st.g["hasp"]=True; st.pc+=[g["rnd"]<p]; eng.note_write(("g","q"))
        else: eng.oblige(st,"one skipping probability for the whole group",p==g["q"],"post")
        sA,sB=T.num(st); eng.oblige(st,"the pair skipped to was visited, or it lies behind the last pair",z3.Or(g["visited"]==1,g["target"]>=sA*sB),"post")
        x=z3.Int(eng.name("skip")); st.pc+=[x>=0,x<(1<<60)]; T.toss.set(eng,st,target=g["pos"]+x,pos=g["pos"]+x+1,visited=z3.IntVal(0)); st.pc.append(toZ(st.g["pos"])<(1<<62)) ; return I(64,x,0,(1<<60)-1)
    def on_decide(T,eng,st,x,y):
        g=st.g; sA,sB=T.num(st); r=g["target"]; LOA,LOB=T.getranges(st)[0][3],T.getranges(st)[1][3]
        eng.oblige(st,"skipping never leaves the group",z3.And(r>=0,r<sA*sB),"post"); eng.oblige(st,"every pair is visited at most once",g["visited"]==0,"post")
        eng.oblige(st,"the pair visited is the one with the index skipped to",z3.Or(*[z3.Or(z3.And(x==LOA+r%sA,y==LOB+r/sA),z3.And(x==LOA+r/sB,y==LOB+r%sB)) for x,y in((x,y),(y,x))]),"post")
        T.toss.set(eng,st,visited=z3.IntVal(1))
    def h_distance(T,eng,st,a,inst):
        # members of the two ranges: r%sA < sA and r/sA < sB for r < sA*sB  (integer division facts)
        v=super().h_distance(eng,st,a,inst); x,y=T.idx(eng,st,a[0]),T.idx(eng,st,a[1]); d=toR(v.t)
        rs=T.getranges(st); inA=lambda k:z3.And(rs[0][3]<=k,k<rs[0][4]); inB=lambda k:z3.And(rs[1][3]<=k,k<rs[1][4])
        eng.oblige(st,"the pair visited comes from the two cells",z3.Or(z3.And(inA(x),inB(y)),z3.And(inA(y),inB(x))),"post")
        T.wfacts(st,x); T.wfacts(st,y)
        # the bound used for skipping is at least the pair's probability: monotonicity of product, quotient and power, instantiated
        w1,w2=z3.Select(T.WGT,x),z3.Select(T.WGT,y); Pi,Pj=[z3.ToReal(POW2(z3.simplify(k+1))) for k in(T.i,T.j)]; wi,wj=T.w0*Pi,T.w0*Pj
        U_=T.w0*Pi*T.w0*Pj/T.W; cd=T.CDIST(T.level,T.A,T.B); dD,cD=T.powD(d),T.powD(cd); q=U_/cD; p=T.wterm(x,y)/dD; a_=T.alpha; pw=rfun("pow",2)
        st.pc+=[z3.Implies(z3.Or(z3.And(w1<=wi,w2<=wj),z3.And(w1<=wj,w2<=wi)),T.wterm(x,y)<=U_),z3.Implies(z3.And(0<cD,cD<=dD,T.wterm(x,y)<=U_),z3.And(p<=q,p>=0)),z3.Implies(z3.And(0<=p,p<=q,a_>=0,a_<INF),pw(p,a_)<=pw(q,a_))]
        eng.oblige(st,"the skipping bound is at least the pair's probability",pw(p,a_)<=st.g["q"],"post",assume=False)
        return v
    def h_dist(T,eng,st,a,inst):
        x,y,l=[toZ(eng.wrapu(st,v)) for v in a[-3:]]; eng.oblige(st,"cell distance of the two cells",z3.And(z3.Or(z3.And(x==T.A,y==T.B),z3.And(x==T.B,y==T.A)),l==T.level),"pre")
        cd=T.CDIST(T.level,T.A,T.B); st.pc+=[cd>0,cd<=z3.Q(1,2)]; st.pc+=T.mono(T.powD(cd),T.powD(cd),cd,cd)+[T.powD(cd)>0]; return R(cd)
    def h_typeI(T,eng,st,a,inst):
        A_,B_,l,i,j=[toZ(eng.wrapu(st,v)) for v in a[1:6]]
        eng.oblige(st,"redirected with the same cells, level and layers",z3.And(l==T.level,z3.Or(z3.And(A_==T.A,B_==T.B,i==T.i,j==T.j),z3.And(A_==T.B,B_==T.A,i==T.j,j==T.i))),"pre")
        eng.oblige(st,"nothing was decided before redirecting",z3.And(st.g["pos"]==0,st.g["delegated"]==0),"pre"); T.toss.set(eng,st,delegated=z3.IntVal(1)); return UNDEF
    def tpl(T,L):
        out=[o if len(o)==3 else (o[0],o[1],False) for o in T.toss.templates()]; g=lambda M,k:M.st.g[k]
        out+=[("the next target directly follows",lambda M:z3.And(g(M,"pos")==g(M,"target")+1,g(M,"visited")==0,g(M,"pos")>=0)),("skipping probability unchanged",lambda M:g(M,"q")==M.entry.g["q"]),("no redirection",lambda M:g(M,"delegated")==0)]
        for p_,v in L.phis(I):
            if v.w==64: out.append((f"loop variable is the target {p_.id}",lambda M,pid=p_.id:toZ(M.st.env[pid].t)==g(M,"target")))
        return out
def typeII(c,D,inf=False):
    m=c.load(tu(D),keepfn); q=S+"sampleTypeII"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); T=SkipSampler(c,D,E,m,st); T.start(st)
    def mf(eng,st,name,xs,r):
        if name=="pow": st.pc+=[z3.Implies(xs[0]>0,r>0),z3.Implies(z3.And(xs[1]==INF,xs[0]<1,xs[0]>=0),r==0),z3.Implies(z3.And(xs[1]==INF,xs[0]==1),r==1)]
        if name=="log": st.pc+=[z3.Implies(z3.And(xs[0]>0,xs[0]<1),r<0)]
    libs(T,E,mf); E.templates=T.tpl
    E.C.update({H+"dist":T.h_dist,S+"sampleTypeI":T.h_typeI,"std::geometric_distribution::operator()":T.h_geo})
    st.pc+=[z3.Not(T.TOUCH(T.level,T.A,T.B)),T.A!=T.B,T.A>=0,T.B>=0,z3.Not(T.TOUCH(T.level,T.B,T.A)),(T.alpha==INF) if inf else (T.alpha<INF)]
    cd=T.CDIST(T.level,T.A,T.B); Pi,Pj=[z3.ToReal(POW2(z3.simplify(k+1))) for k in(T.i,T.j)]; U_=T.w0*Pi*T.w0*Pj/T.W; cD=T.powD(cd)
    st.pc+=[cd>0,cD>0,Pi>0,Pj>0,U_>0,U_/cD>0]+([U_/cD<=1] if inf else [])      # alpha == infinity: lemma of C09, cells that do not touch are too far apart
    args=[P(T.this,0)]+[I(32,v,0,h) for v,h in((T.A,(1<<32)-2),(T.B,(1<<32)-2),(T.level,30),(T.i,29),(T.j,29))]
    out=E.run_fn(F,args,st); c.cover(q,f"D={D}",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); g=s.g; sA,sB=T.num(s)
        pw=rfun("pow",2)(U_/cD,T.alpha); qq=z3.If(pw<1,pw,1)
        E.oblige(s,f"on return every pair of the group is settled exactly once: skipped or visited, or redirected, or the group's expected number of edges is below 1e-6 (D={D})",z3.Or(z3.And(g["delegated"]==0,g["pos"]>=sA*sB,z3.Or(g["visited"]==1,g["target"]>=sA*sB)),z3.And(g["delegated"]==1,g["pos"]==0),z3.And(g["pos"]==0,z3.Or(sA==0,sB==0,z3.ToReal(sA*sB)*qq<=z3.Q(1,10**6)))),assume=False); T.toss.end(E,s)
    c.discharge(E,dict(D=D,level=T.level,p=T.p))
def index_lemma(c):
    """the pair indices of a group are a bijection with the pairs"""
    r,s,a,b,x,y=z3.Ints("r s a b x y"); pre=[a>0,b>0]
    x2,y2=z3.Ints("x2 y2")
    c.lemma("lemma","every pair of the group has an index: (x,y) is the pair with index y*sA+x",pre+[0<=x,x<a,0<=y,y<b],z3.And(y*a+x>=0,z3.And((y*a+x)%a==x,(y*a+x)/a==y)))
    c.lemma("lemma","that index is below sA*sB",pre+[0<=x,x<a,0<=y,y+1<=b,(y+1)*a<=b*a],y*a+x<a*b)
    c.lemma("lemma","different indices are different pairs",pre+[r>=0,s>=0,r%a==s%a,r/a==s/a],r==s)
