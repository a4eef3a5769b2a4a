"""sampleTypeI / sampleTypeII of the HyperbolicTree: which pairs are decided (C08), with what outcome (C11, C12), on which generator (C20)"""
from contracts.htree import *
from contracts.gsample import Sampler, SkipSampler
from vlib.toss import Toss
def dbl():
    t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8; return t
class HS(HTree,Sampler):
    def __init__(T,c,E,m,st):
        HTree.__init__(T,c,E,m,st); T.sz=const(m,"size_point"); T.fsz=const(m,"size_filter")
        T.LO=UF("LO",IS(),IS(),IS(),IS()); T.HI=UF("HI",IS(),IS(),IS(),IS()); T.LAYER=UF("LAYER",IS(),IS()); T.CELL=UF("CELL",IS(),IS(),IS())
        T.DC=UF("COSHDIST",IS(),IS(),RS()); T.PREC=UF("PREC",RS(),RS()); T.MAXP=UF("MAXP",*[IS()]*4,RS()); T.BC=UF("COSHBOUND",*[IS()]*4,RS()); T.UB=UF("filter_upper",RS(),RS(),RS()); T.LB=UF("filter_lower",RS(),RS(),RS())
        T.pu,T.pv=z3.Ints("pu pv"); st.pc+=[0<=T.pu,T.pu<T.n,0<=T.pv,T.pv<T.n,T.pu!=T.pv,T.LAYER(T.pu)==T.iu,T.LAYER(T.pv)==T.iv]
        fo={k:const(m,"point_"+k) for k in("id","invsinh_r","coth_r","cos_phi","sin_phi")}; T.fo=fo
        T.nodes=E.new_arr(st,"m_points",T.sz,{fo["id"]:("int",32),**{fo[k]:("real",) for k in fo if k!="id"}},T.n); T.nodes.readonly=True
        T.IDX=st.mem[T.nodes.id][fo["id"]]; IV=UF("IDXINV",IS(),IS()); T.nodes.hooks[fo["id"]]=[lambda e,s,i,v:s.pc.append(IV(z3.Select(T.IDX,toZ(i)))==toZ(i))]
        T.level=z3.Int("level"); T.A,T.B=z3.Ints("cellA cellB"); T.i,T.j=z3.Ints("i j"); l=T.level; T.lev(st,l); P_=T.PBL(T.i,T.j)
        st.pc+=[0<=l,l<=P_,P_<T.levels,P_<=T.TGT(T.i),P_<=T.TGT(T.j),0<=T.i,T.i<T.layers,0<=T.j,T.j<T.layers,T.A>=0,T.B>=0]+[g for _,g in T.pre_visit(T.A,T.B,l)]+[T.TOUCH(l,T.A,T.B)==T.TOUCH(l,T.B,T.A),z3.Implies(T.A==T.B,T.TOUCH(l,T.A,T.B))]
        st.pc+=[T.CELL(l,T.pu)==T.CU(l),T.CELL(l,T.pv)==T.CV(l)]
        o=T.off; mem=st.mem[T.this.id]; mem[(o["m_points"],8)]=P(T.nodes,0)
        # m_typeII_filter[i*layers+j][level-2]: a pair of filters
        T.fbig=E.new_arr(st,"m_typeII_filter",24,{0:("fn",T.fview)},T.layers*T.layers); mem[(o["m_typeII_filter"],8)]=P(T.fbig,0); mem[(o["m_typeII_filter"]+8,8)]=P(T.fbig,z3.simplify(24*T.layers*T.layers)); T.fregs={}
        T.count=True; T.toss=Toss(st,T.cond); st.pc+=[T.R<700]
    def fview(T,eng,st,idx):
        idx=z3.simplify(toZ(idx)); k=idx.sexpr()
        if k not in T.fregs:
            r=Region("filters[%s]"%k,"arr",2*T.fsz,{0:("real",),T.fsz:("real",)},"filters",idx); r.readonly=True
            for w,fo in((0,0),(1,T.fsz)): r.hooks[fo]=[lambda e,s,j,v,w=w,idx=idx:s.pc.append(z3.Implies(idx==T.i*T.layers+T.j,toR(v)==T.MAXP(T.i,T.j,toZ(j)+2,w)) if not isinstance(v,R) else z3.Implies(idx==T.i*T.layers+T.j,toR(v.t)==T.MAXP(T.i,T.j,toZ(j)+2,w)))]
            T.fregs[k]=r
        r=T.fregs[k]
        if r.id not in st.mem: st.mem[r.id]={0:z3.Array("maxp0_"+k,IS(),RS()),T.fsz:z3.Array("maxp1_"+k,IS(),RS()),"len":UF("nfilters",IS(),IS())(idx)}; st.pc.append(z3.Implies(idx==T.i*T.layers+T.j,UF("nfilters",IS(),IS())(idx)==z3.If(T.PBL(T.i,T.j)>=2,T.PBL(T.i,T.j)-1,0)))
        return P(r,0)
    def prec(T,st,x,y): return T.PREC(rfun("acosh",1)(T.DC(x,y)))
    def cond(T,st,x,y,rnd): return z3.If(T.T==0,T.DC(x,y)<T.coshR,rnd*T.prec(st,x,y)<1)
    def h_points(T,eng,st,a,inst):
        lo,hi=[T.idx(eng,st,p) for p in T.h_cells(eng,st,a,inst).v]; return I(32,z3.simplify(hi-lo),0,(1<<31)-1)
    def h_kth(T,eng,st,a,inst):
        lo,hi=[T.idx(eng,st,p) for p in T.h_cells(eng,st,a[:3],inst).v]; k=toZ(eng.wraps(st,a[3])); eng.oblige(st,"the k-th point of a cell exists",z3.And(0<=k,k<hi-lo),"bounds"); return P(T.nodes,z3.simplify(T.sz*(lo+k)))
    def dist_event(T,eng,st,p,q):
        x,y=T.idx(eng,st,p),T.idx(eng,st,q)
        for k in(x,y): eng.oblige(st,"distance is asked about points that exist",z3.And(k>=0,k<T.n),"bounds"); T.member(st,k)
        d=T.DC(x,y); st.pc+=[d>=1,d==T.DC(y,x),T.prec(st,x,y)>1,T.prec(st,y,x)==T.prec(st,x,y)]; T.toss.distance(eng,st,x,y); T.on_decide(eng,st,x,y); st.tags["pairs"]=st.tags.get("pairs",())+((x,y),); T.filterfacts(st); return x,y,d
    def h_below(T,eng,st,a,inst):
        x,y,d=T.dist_event(eng,st,a[0],a[1]); eng.oblige(st,"the distance is compared with cosh(R)",toR(a[2].t)==T.coshR,"pre"); return B(d<T.coshR)
    def h_cosh(T,eng,st,a,inst): x,y,d=T.dist_event(eng,st,a[0],a[1]); return R(d)
    def h_dist(T,eng,st,a,inst): x,y,d=T.dist_event(eng,st,a[0],a[1]); return R(rfun("acosh",1)(d))
    def h_prec(T,eng,st,a,inst): return R(T.PREC(toR(a[1].t)))
    def filt(T,eng,st,p):
        """which filter: its largest probability"""
        if p.r is T.this:
            if conc(toZ(p.o))!=T.off["m_typeI_filter"]: raise Unsupported("not a filter")
            return z3.RealVal(1)
        if p.r.fam=="filters":
            j,f=eng.split_off(st,p.r,p.o,0)
            if f not in(0,T.fsz): raise Unsupported("pointer into a filter")
            return toR(eng.load(st,p,dbl()).t)
        raise Unsupported("another filter")
    def h_filter(T,up):
        def h(eng,st,a,inst):
            mp=T.filt(eng,st,a[0]); p=toR(a[1].t); eng.oblige(st,"the filter is asked for a probability it covers",z3.And(0<=p,p<mp),"pre"); st.tags["asked"]=st.tags.get("asked",())+((mp,p),); T.filterfacts(st); return R((T.UB if up else T.LB)(mp,p))
        return h
    def filterfacts(T,st):
        """contract of DistanceFilter (proved in C12), for the pairs and numbers at hand"""
        for x,y in st.tags.get("pairs",()):
            for mp,p in st.tags.get("asked",()):
                k=("ff",x.get_id(),y.get_id(),mp.get_id(),p.get_id())
                if k in st.tags: continue
                st.tags[k]=True; d=T.DC(x,y); st.pc+=[z3.Implies(d>T.UB(mp,p),z3.Not(p*T.prec(st,x,y)<1)),z3.Implies(d<T.LB(mp,p),p*T.prec(st,x,y)<1)]
    def own_gen(T,eng,st,p):
        if p.r is not T.gens: raise Unsupported("another random number generator")
        eng.oblige(st,"the random number generator used is the one received",toZ(p.o)==toZ(T.gen.o),"post")
    def args(T): return [P(T.this,0)]+[I(32,v,0,h) for v,h in((T.A,(1<<31)-1),(T.B,(1<<31)-1),(T.level,30),(T.i,29999),(T.j,29999))]+[T.gen]
def libs(T,E,mf=None):
    rt.omp(E); rt.libm(E,mf)
    E.C.update({RL+"cellIterators":T.h_cells,RL+"pointsInCell":T.h_points,RL+"kthPoint":T.h_kth,PT+"isDistanceBelowR":T.h_below,PT+"hyperbolicDistanceCosh":T.h_cosh,PT+"hyperbolicDistance":T.h_dist,HT+"connectionProbRec":T.h_prec,DF+"coshDistForProb_upperBound":T.h_filter(True),DF+"coshDistForProb_lowerBound":T.h_filter(False),
        "std::uniform_real_distribution::operator()":T.h_uniform,"verif_emit":T.h_emit,AH+"firstCellOfLevel":T.h_first,AH+"numCellsInLevel":T.h_num,AH+"touching":T.h_touching})
KS=((True,True),(True,False),(False,True),(False,False))
def typeI(c,cases=KS,zero=None,count=True):
    m=c.load(htu(),hkeep); q=HT+"sampleTypeI"; F=c.fn(m,q)
    for same,eqij in cases:
      for z0 in((True,False) if zero is None else (zero,)):
        E=Engine(m,name=q); st=State(); T=HS(c,E,m,st); libs(T,E); E.templates=T.tpl; T.count=count
        st.pc+=[(T.A==T.B) if same else T.A!=T.B,(T.i==T.j) if eqij else T.i!=T.j,(T.T==0) if z0 else T.T>0]
        tag=f"{'A==B' if same else 'A!=B'}, {'i==j' if eqij else 'i!=j'}, {'T=0' if z0 else 'T>0'}"
        out=E.run_fn(F,T.args(),st); c.cover(q,tag,[z3.BoolVal(bool(out))])
        for s,v in out:
            c.cover(q,tag+" a path to the end",s.pc)
            if count: E.oblige(s,f"the fixed pair is decided exactly once by the cell pair and layer pair that contain it, and not by others ({tag})",s.g["cnt"]-z3.Int("cnt0")==z3.If(T.expected(),1,0),assume=False)
            T.toss.end(E,s)
        c.discharge(E,dict(level=T.level,p=T.p))
class HSkip(HS,SkipSampler):
    def h_geo(T,eng,st,a,inst): return SkipSampler.h_geo(T,eng,st,a,inst)
    def on_decide(T,eng,st,x,y): SkipSampler.on_decide(T,eng,st,x,y)
    def tpl(T,L): return SkipSampler.tpl(T,L)
    def dist_event(T,eng,st,p,q):
        x,y,d=HS.dist_event(T,eng,st,p,q)
        rs=T.getranges(st); inA=lambda k:z3.And(rs[0][3]<=k,k<rs[0][4]); inB=lambda k:z3.And(rs[1][3]<=k,k<rs[1][4])
        eng.oblige(st,"the pair visited comes from the two cells",z3.Or(z3.And(inA(x),inB(y)),z3.And(inA(y),inB(x))),"post")
        w=T.CB-1; b=T.BC(T.i,T.j,T.level,w); ac=rfun("acosh",1); pb=T.PREC(ac(b))
        # C12 (lemma 'bound'): points of layers i,j in cells with CB cells between them are at least as far apart as the bound; the maximum probability is the probability at the bound; PREC(acosh(.)) grows
        st.pc+=[d>=b,z3.Implies(d>=b,T.prec(st,x,y)>=pb),T.MAXP(T.i,T.j,T.level,w)*pb==1,pb>1]
        q_=st.g["q"]; pr=T.prec(st,x,y); st.pc+=[z3.Implies(pr>=pb,q_*pr>=q_*pb)]
        eng.oblige(st,"the skipping bound is at least the pair's probability",q_*pr>=1,"post",assume=False); return x,y,d
    def h_between(T,eng,st,a,inst):
        x,y,l=[toZ(eng.wrapu(st,v)) for v in a[-3:]]; eng.oblige(st,"cells between the two cells",z3.And(z3.Or(z3.And(x==T.A,y==T.B),z3.And(x==T.B,y==T.A)),l==T.level),"pre"); return I(32,T.CB,1,2)
    def h_typeI(T,eng,st,a,inst): T.h_same_gen(eng,st,a); return SkipSampler.h_typeI(T,eng,st,a,inst)
def typeII(c,zero=None):
    m=c.load(htu(),hkeep); q=HT+"sampleTypeII"; F=c.fn(m,q)
    for z0 in((True,False) if zero is None else (zero,)):
        E=Engine(m,name=q); st=State(); T=HSkip(c,E,m,st); T.start(st); T.CB=z3.Int("cells_between")
        def mf(eng,s,name,xs,r):
            if name=="log": s.pc+=[z3.Implies(z3.And(xs[0]>0,xs[0]<1),r<0)]
        libs(T,E,mf); E.templates=T.tpl
        E.C.update({AH+"cellsBetween":T.h_between,HT+"sampleTypeI":T.h_typeI,"std::geometric_distribution::operator()":T.h_geo})
        w=T.CB-1; mp=T.MAXP(T.i,T.j,T.level,w)
        st.pc+=[z3.Not(T.TOUCH(T.level,T.A,T.B)),T.A!=T.B,z3.Not(T.TOUCH(T.level,T.B,T.A)),z3.Or(T.CB==1,T.CB==2),T.level>=2,mp>0,mp<=1,(T.T==0) if z0 else T.T>0]
        out=E.run_fn(F,T.args(),st); c.cover(q,f"T=0: {z0}",[z3.BoolVal(bool(out))])
        for s,v in out:
            c.cover(q,"a path to the end",s.pc); g=s.g; tag="T=0" if z0 else "T>0"
            if z0: E.oblige(s,"T=0: cells that do not touch have no pair below R (C11), nothing is decided",z3.Or(z3.And(g["delegated"]==0,g["pos"]==0,g["open"]==0),z3.And(g["delegated"]==1,g["pos"]==0)),assume=False); continue
            sA,sB=T.num(s)
            E.oblige(s,"on return every pair of the group is settled exactly once: skipped or visited, or redirected, or the group's expected number of edges is below 1e-6",z3.Or(z3.And(g["delegated"]==0,g["pos"]>=sA*sB,z3.Or(g["visited"]==1,g["target"]>=sA*sB)),z3.And(g["delegated"]==1,g["pos"]==0),z3.And(g["pos"]==0,z3.Or(sA==0,sB==0,z3.ToReal(sA*sB)*mp<=z3.Q(1,10**6)))),assume=False); T.toss.end(E,s)
        c.discharge(E,dict(level=T.level,p=T.p))
def cell_lemma(c):
    a,b,x,y,n=z3.Ints("a b x y n"); c1=circ(a,b,n); c2=circ(x,y,2*n)
    c.lemma("lemma","children of touching cells that do not touch have one or two cells between them",[n>=1,0<=a,a<n,0<=b,b<n,x>=2*a,x<=2*a+1,y>=2*b,y<=2*b+1,c1<=1,z3.Not(c2<=1)],z3.And(n>=2,c2-1>=1,c2-1<=2))
