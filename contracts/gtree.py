"""girgs::SpatialTree: specification and contracts shared by C06, C07, C09, C10.

One fixed pair of distinct vertices u,v (positions pu,pv in the sorted node array, layers iu,iv, cells cu(l),cv(l) on
level l).  cnt counts how often the pair is decided.  The contracts below are each proved on the body of the function
and used at its call sites; level, layer numbers, cells, list lengths, thread count and all sizes are symbolic."""
from vlib.prove import *
from vlib.spec import *
S="girgs::SpatialTree::"; H="girgs::SpatialTreeCoordinateHelper::"
import re
ASPECT=dict(outcome=r"(previous|last) decision is carried out|skipping bound is at least|is uniform in \[0|one skipping probability|parameter is a probability|filter is asked|compared with cosh",gen="random number generator|generator that exists is seeded",tid="reported with the number of the calling thread")
def focus(*aspects):
    """this job decides these aspects; the obligations of the other aspects belong to other properties' checks"""
    sk=[v for k,v in ASPECT.items() if k not in aspects]; Engine.SKIP=re.compile("|".join(sk)) if sk else None; Engine.ONLY=None
def only(rx):
    """this job decides these obligations only"""
    Engine.SKIP=None; Engine.ONLY=re.compile(rx)
MEMBERS=["m_alpha","m_n","m_w0","m_wn","m_W","m_baseLevelConstant","m_layers","m_levels","m_nodes","m_first_in_cell","m_weight_layers","m_layer_pairs","m_gens","m_EdgeCallback","m_profile"]
TU="""#include <vector>
#include <random>
#include <algorithm>
#include <numeric>
#include <limits>
#include <cassert>
#include <cmath>
#include <array>
#include <mutex>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <omp.h>
#define private public
#define protected public
#include <girgs/SpatialTree.h>
#undef private
#undef protected
extern "C" void verif_emit(int,int,int);
struct CB { void operator()(int a,int b,int t){ verif_emit(a,b,t);} };
template class girgs::SpatialTree<%d,CB>;
"""
def tu(D):
    t=TU%D
    for m in MEMBERS:
        if m=="m_EdgeCallback": continue
        t+=f"extern const unsigned long verif_off_{m}=__builtin_offsetof(girgs::SpatialTree<{D} COMMA CB>,{m});\n"
    t+=f"extern const unsigned long verif_size_layer=sizeof(girgs::WeightLayer<{D}>);\nextern const unsigned long verif_size_gen=sizeof(girgs::default_random_engine);\nextern const unsigned long verif_size_node=sizeof(girgs::Node<{D}>);\n"
    for f in("coord","weight","index","cell_id"): t+=f"extern const unsigned long verif_node_{f}=__builtin_offsetof(girgs::Node<{D}>,{f});\n"
    return t.replace("class girgs::SpatialTree<%d,CB>"%D,"class girgs::SpatialTree<%d,CB>"%D).replace("#include <vector>","#include <vector>\n#define COMMA ,",1)
KEEP=[S+"visitCellPair",S+"visitCellPair_sequentialStart",S+"sampleTypeI",S+"sampleTypeII",S+"generateEdges",S+"weightLayerTargetLevel",S+"partitioningBaseLevel",S+"buildPartition",S+"SpatialTree",
 H+"touching",H+"dist",H+"firstCellOfLevel",H+"numCellsInLevel",H+"cellForPoint",H+"cellOfLevel",
 "girgs::WeightLayer::cellIterators","girgs::WeightLayer::pointsInCell","girgs::WeightLayer::kthPoint","girgs::WeightLayer::levelledCell","girgs::Node::distance"]
LIBKEEP=re.compile(r"std::(vector|mersenne_twister_engine|uniform_real_distribution|geometric_distribution|random_device|basic_|__cxx11|min_element|max_element|accumulate|_)|girgs::ScopedTimer|intsort::")
PURE=re.compile(r"std::vector::(operator\[\]|begin|end|size|data|front|back|cbegin|cend|empty)$|std::(min|max|move|forward|distance|make_pair)|std::(uniform_real|geometric)_distribution::((uniform_real|geometric)_distribution|param_type|p|a|b)|std::__niter|std::_Vector_base|std::pair")
def keepfn(n,d):
    b=sym.base_name(d)
    if b in KEEP or "omp_outlined" in n: return True
    if re.match(r"std::(uniform_real_distribution|geometric_distribution|mersenne_twister_engine|random_device)::(operator\(\)|seed|\(\)|random_device|~random_device)",b): return True
    if re.match(r"std::(uniform_real_distribution|geometric_distribution)::param_type",b): return False
    if re.match(r"std::(vector)::(vector|~vector|push_back|emplace_back|resize|reserve|operator=)$",b): return True
    if re.match(r"std::(min_element|max_element|accumulate)$",b): return True
    if re.match(r"(girgs::|hypergirgs::)?ScopedTimer::",b): return True
    if re.match(r"std::__cxx11::basic_string::(basic_string|~basic_string)$",b): return True
    if re.match(r"intsort::intsort$",b): return True
    return False
def const(m,name):
    init,_,_=m.ginit("verif_"+name); return init.v
class Tree:
    """symbolic `this` and the fixed vertex pair"""
    def __init__(T,c,D,E,m,st):
        T.D=D; T.E=E; T.m=m; T.off={k:const(m,"off_"+k) for k in MEMBERS if k!="m_EdgeCallback"}; T.C=1<<D
        T.FIRST=UF("FIRST",IS(),IS()); T.TOUCH=UF("TOUCH",IS(),IS(),IS(),z3.BoolSort()); T.CU=UF("cu",IS(),IS()); T.CV=UF("cv",IS(),IS()); T.KU=UF("ku",IS(),IS()); T.KV=UF("kv",IS(),IS())
        T.PBL=UF("PBL",IS(),IS(),IS()); T.TGT=UF("TARGET",IS(),IS()); T.LF=UF("pairs_first",IS(),z3.ArraySort(IS(),IS())); T.LS=UF("pairs_second",IS(),z3.ArraySort(IS(),IS())); T.LLEN=UF("pairs_len",IS(),IS())
        T.levels=z3.Int("m_levels"); T.layers=z3.Int("m_layers"); T.iu,T.iv=z3.Ints("iu iv"); T.p=z3.Int("p"); T.k1,T.k2=z3.Ints("k1 k2"); T.alpha=z3.Real("m_alpha"); T.W=z3.Real("m_W"); T.w0=z3.Real("m_w0"); T.n=z3.Int("m_n")
        st.pc+=[T.levels>=1,T.levels<=31,T.layers>=1,T.layers<=30,0<=T.iu,T.iu<T.layers,0<=T.iv,T.iv<T.layers,T.p==T.PBL(T.iu,T.iv),T.p==T.PBL(T.iv,T.iu),0<=T.p,T.p<T.levels,T.k1>=0,T.k2>=0,(T.iu==T.iv)==(T.k1==T.k2),T.FIRST(T.levels)<=(1<<32)-2,T.alpha>=0,T.alpha<=INF,INF>1000,T.W>0,T.w0>0,T.n>=2,T.n<(1<<31)]
        st.pc+=[T.FIRST(z3.IntVal(0))==0,T.CU(z3.IntVal(0))==0,T.CV(z3.IntVal(0))==0]
        o=T.off; r=T.this=E.new_obj(st,"this"); r.readonly=True; mem=st.mem[r.id]
        mem[(o["m_alpha"],8)]=R(T.alpha); mem[(o["m_W"],8)]=R(T.W); mem[(o["m_w0"],8)]=R(T.w0); mem[(o["m_n"],8)]=I(64,T.n,2,(1<<31)-1)
        mem[(o["m_levels"],4)]=I(32,T.levels,1,31); mem[(o["m_layers"],4)]=I(32,T.layers,1,30)
        T.pairs=E.new_arr(st,"m_layer_pairs",24,{0:("fn",T.list_begin),8:("fn",T.list_end)},T.levels); T.pairs.readonly=True
        mem[(o["m_layer_pairs"],8)]=P(T.pairs,0); mem[(o["m_layer_pairs"]+8,8)]=P(T.pairs,24*T.levels)
        T.wl=E.new_arr(st,"m_weight_layers",const(m,"size_layer"),{},T.layers); T.wl.readonly=True
        mem[(o["m_weight_layers"],8)]=P(T.wl,0); mem[(o["m_weight_layers"]+8,8)]=P(T.wl,const(m,"size_layer")*T.layers)
        T.gens=E.new_arr(st,"m_gens",const(m,"size_gen"),{},z3.Int("ngens"))
        mem[(o["m_gens"],8)]=P(T.gens,0); mem[(o["m_gens"]+8,8)]=P(T.gens,const(m,"size_gen")*z3.Int("ngens"))
        T.lists={}
        st.g["cnt"]=z3.Int("cnt0")
    # ---- facts about cells
    def lev(T,st,l):
        """instances of the tree numbering (C02) around level l"""
        l=toZ(l); k=("lev",l.get_id())
        if k in st.tags: return
        st.tags[k]=l; F=T.FIRST; C=T.C
        for x in(l,l+1): 
            x=z3.simplify(x); st.pc+=[F(z3.simplify(x+1))==C*F(x)+1,F(x)>=0,z3.Implies(z3.And(x>=0,x<=T.levels),F(x)<=F(T.levels)),z3.Implies(z3.And(x+1>=0,x+1<=T.levels),F(z3.simplify(x+1))<=F(T.levels))]
        for cc,kk in((T.CU,T.KU),(T.CV,T.KV)):
            st.pc+=[cc(z3.simplify(l+1))==C*cc(l)+1+kk(l),kk(l)>=0,kk(l)<C,F(l)<=cc(l),cc(l)<F(z3.simplify(l+1))]
    parents=()
    def is_cell(T,cell,l,which):
        """cell == cu(l) (resp. cv(l)); a cell that is literally child number k of A (C*A+1+k, 0<=k<C) equals cu(l) iff A==cu(l-1) and ku(l-1)==k, because cu(l)==C*cu(l-1)+1+ku(l-1)"""
        cell=toZ(cell); l=z3.simplify(toZ(l))
        for A_ in T.parents:
            k=conc(z3.simplify(cell-T.C*A_-1))
            if k is not None and 0<=k<T.C:
                lp=z3.simplify(l-1); return z3.simplify(z3.And(A_==(T.CU,T.CV)[which](lp),(T.KU,T.KV)[which](lp)==k))
        return z3.simplify(cell==(T.CU,T.CV)[which](l))
    def match(T,a,b,l): 
        return z3.Or(z3.And(T.is_cell(a,l,0),T.is_cell(b,l,1)),z3.And(T.is_cell(a,l,1),T.is_cell(b,l,0)))
    # ---- memory views
    def region(T,eng,st,idx):
        idx=z3.simplify(toZ(idx)); k=idx.sexpr()
        if k not in T.lists:
            r=Region("pairs[%s]"%k,"arr",8,{0:("int",32),4:("int",32)},"list",idx); r.readonly=True
            r.hooks[0]=[lambda e,s,i,v:T.entry(e,s,idx,i)]; r.hooks[4]=[lambda e,s,i,v:T.entry(e,s,idx,i)]; T.lists[k]=r
        r=T.lists[k]
        if r.id not in st.mem: st.mem[r.id]={0:T.LF(idx),4:T.LS(idx),"len":T.LLEN(idx)}; T.listfacts(st,idx)
        return r
    def listfacts(T,st,idx):
        p,k1,k2=T.p,T.k1,T.k2
        st.pc+=[T.LLEN(idx)>=0,T.LLEN(idx)<(1<<20),z3.Implies(idx==p,z3.And(k1<T.LLEN(idx),k2<T.LLEN(idx)))]
    def list_begin(T,eng,st,idx): return P(T.region(eng,st,idx),0)
    def list_end(T,eng,st,idx): r=T.region(eng,st,idx); return P(r,z3.simplify(8*T.LLEN(r.key)))
    def entry(T,eng,st,idx,k):
        """what C06 proves about entry k of the list of level idx: a layer pair compared on that level; the pair (iu,iv) is exactly entry k1 of list p"""
        k=toZ(k); f=z3.Select(T.LF(idx),k); s=z3.Select(T.LS(idx),k)
        st.pc+=[0<=f,f<T.layers,0<=s,s<T.layers,T.PBL(f,s)==idx,T.PBL(s,f)==idx,idx<=T.TGT(f),idx<=T.TGT(s),
            z3.And(f==T.iu,s==T.iv)==z3.And(idx==T.p,k==T.k1),z3.And(f==T.iv,s==T.iu)==z3.And(idx==T.p,k==T.k2)]
    # ---- contracts used at call sites
    def h_touching(T,eng,st,a,inst):
        x,y,l=[eng.wrapu(st,v) for v in a[-3:]]; st.pc.append(z3.Implies(toZ(x)==toZ(y),T.TOUCH(toZ(l),toZ(x),toZ(y)))); return B(T.TOUCH(toZ(l),toZ(x),toZ(y)))
    def h_first(T,eng,st,a,inst):
        l=eng.wrapu(st,a[-1]); T.lev(st,l); eng.oblige(st,"level fits the 32-bit numbering",AND(LE(0,l),LE(l,31//T.D+1)),"pre"); v=T.FIRST(toZ(l)); st.pc+=[v>=0,v<(1<<32)]; return I(32,v,0,(1<<32)-1)
    def h_num(T,eng,st,a,inst):
        l=eng.wrapu(st,a[-1]); T.lev(st,l); eng.oblige(st,"shift amount below width",AND(LE(0,l),LE(l,31//T.D)),"pre"); v=POW2(toZ(T.D*toZ(l))); st.pc+=[v==T.FIRST(z3.simplify(toZ(l)+1))-T.FIRST(toZ(l)),v>=1,v<(1<<32)]; return I(32,v,1,(1<<31))
    def add(T,eng,st,name,inc):
        st.g[name]=z3.simplify(st.g[name]+z3.If(inc,1,0)); eng.note_write(("g",name))
    def h_sample(T,kind):
        def h(eng,st,a,inst):
            A_,B_,l,i,j=[toZ(eng.wrapu(st,v)) for v in a[1:6]]; T.lev(st,l)
            st.pc+=[]
            eng.oblige(st,f"{kind} is called with layers that exist",z3.And(i<T.layers,j<T.layers),"pre")
            eng.oblige(st,f"{kind} is called not deeper than the pair's comparison level",l<=T.PBL(i,j),"pre")
            t=T.TOUCH(l,A_,B_)
            if kind=="sampleTypeI": eng.oblige(st,"sampleTypeI on touching cells is called on the pair's comparison level",z3.Implies(t,l==T.PBL(i,j)),"pre")
            else: eng.oblige(st,"sampleTypeII is called on cells that do not touch",z3.Not(t),"pre")
            T.add(eng,st,"cnt",z3.Or(z3.And(T.is_cell(A_,l,0),T.is_cell(B_,l,1),i==T.iu,j==T.iv),z3.And(T.is_cell(A_,l,1),T.is_cell(B_,l,0),i==T.iv,j==T.iu)))
            return UNDEF
        return h
    def inc_visit(T,a,b,l): return z3.And(toZ(l)<=T.p,T.match(a,b,l))
    def pre_visit(T,a,b,l):
        a,b,l=toZ(a),toZ(b),toZ(l); return [("level exists",z3.And(0<=l,l<T.levels)),("cells are of that level",z3.And(T.FIRST(l)<=a,a<T.FIRST(z3.simplify(l+1)),T.FIRST(l)<=b,b<T.FIRST(z3.simplify(l+1))))]
    def chain(T,l): return UF("CHAIN",IS(),z3.BoolSort())(z3.simplify(toZ(l)))
    def chainfacts(T,st,l):
        l=z3.simplify(toZ(l)); st.pc.append(z3.Implies(z3.And(0<=l,l<=T.p),T.chain(l)==z3.And(T.TOUCH(l,T.CU(l),T.CV(l)),z3.Or(l==T.p,T.chain(l+1))))); st.pc.append(T.TOUCH(l,T.CU(l),T.CV(l))==T.TOUCH(l,T.CV(l),T.CU(l)))
    def visited(T,a,b,l,d):
        """d decisions of the pair by visiting (a,b) on level l"""
        full=T.inc_visit(a,b,l); return [z3.Implies(full,z3.And(0<=d,d<=1)),z3.Implies(z3.Not(full),d==0),z3.Implies(z3.And(full,z3.Or(T.alpha!=INF,T.chain(l))),d==1)]
    def h_visit(T,eng,st,a,inst):
        x,y,l=[toZ(eng.wrapu(st,v)) for v in a[1:4]]; T.lev(st,l); T.chainfacts(st,l)
        for nm,g in T.pre_visit(x,y,l): eng.oblige(st,"recursive call: "+nm,g,"pre")
        for nm,g in T.measure(l): eng.oblige(st,"recursive call: "+nm,g,"measure")
        if "pend" in st.g: pass
        d=z3.Int(eng.name("d")); st.pc+=T.visited(x,y,l,d); st.g["cnt"]=z3.simplify(st.g["cnt"]+d); eng.note_write(("g","cnt")); return UNDEF
    def measure(T,l): return []
    def templates(T,kind=""):
        """loop invariants over the pair lists: how many entries of this list / of the lists of these levels have been handled"""
        def tpl(L):
            out=[]; reg=None
            for p_,v in L.phis(P):
                if v.r is not None and v.r.fam=="list": reg=v.r
            if reg is None:
                for p_,v in L.phis(I):
                    pass
            K=L.K; c0=L.entry.g["cnt"]
            idx=reg.key if reg is not None else None
            if idx is None:
                # a loop over indices inside a list: the innermost list begun in this iteration is not visible as a phi; use the level of the enclosing loop or the function's level
                idxs=T.curlevels(L)
            else: idxs=[("",idx)]
            def cnt(f): return lambda M,f=f: M.st.g["cnt"]==M.entry.g["cnt"]+z3.If(f(M),1,0)
            out.append(("no decision",lambda M: M.st.g["cnt"]==M.entry.g["cnt"]))
            for wh,idx in idxs:
                if reg is None: out.append((f"not more iterations than entries{wh}",lambda M,idx=idx: (T.listfacts(M.st,idx),M.K<=T.LLEN(idx))[1]))
                for nm,k in(("k1",T.k1),("k2",T.k2),("min,max",z3.If(T.iu<=T.iv,T.k1,T.k2)),("max,min",z3.If(T.iu>=T.iv,T.k1,T.k2))): out.append((f"decided once entry {nm} was handled{wh}",cnt(lambda M,k=k,idx=idx: z3.And(idx==T.p,k<M.K))))
            lv=T.level
            out.append(("decided once level p was handled",cnt(lambda M: z3.And(lv<=T.p,T.p<lv+M.K))))
            out.append(("decided once level p was handled (downwards)",cnt(lambda M: z3.And(lv<=T.p,T.p>=T.levels-M.K))))
            for i_,get in enumerate(L.ints()):
                out+=T.childinv(L,get)
                out.append((f"level variable {i_} stays in range",lambda M,get=get: z3.And(toZ(get(M.st).t)>=0,toZ(get(M.st).t)<=T.levels)))
            return out
        return tpl
    def childinv(T,L,get):
        """loops over children: the pair is handled once the child (or the child pair of this row) that contains it was reached"""
        if not T.parents: return []
        l=T.level; l1=z3.simplify(l+1); A_,B_=T.parents; C=T.C; full=l1<=T.p; ord_=((T.CU(l1),T.CV(l1)),(T.CV(l1),T.CU(l1))); out=[]
        kids=lambda Q,x:z3.And(C*Q+1<=x,x<=C*Q+C)
        v=lambda S,i:toZ(i(S).t)
        def rng(M,x): e,c=v(M.entry,get),v(M.st,get); return z3.And(e<=x,x<c)
        for P_ in {a.get_id():a for a in(A_,B_)}.values(): out.append(("child in range",lambda M,P_=P_:z3.And(v(M.st,get)>=C*P_+1,v(M.st,get)<=C*P_+C+1)))
        hits=[]
        for P1,P2 in((A_,B_),(B_,A_)) if A_ is not B_ else ((A_,B_),):
            hits.append(lambda M,P2=P2:z3.And(full,z3.Or(*[z3.And(rng(M,X),kids(P2,Y),z3.Implies(A_==B_,Y>=X)) for X,Y in ord_])))
        for (F,h,K,entry) in L.outer:
            for p_ in F.blocks[h].phis:
                if isinstance(L.st.env.get(p_.id),I): hits.append(lambda M,o=(lambda S,i=p_.id:S.env[i]):z3.And(full,z3.Or(*[z3.And(X==v(M.st,o),rng(M,Y)) for X,Y in ord_])))
        seq="pend" in L.st.g; d=lambda M:M.st.g["cnt"]-M.entry.g["cnt"]; pd=lambda M:(M.st.g["pend"]-M.entry.g["pend"]) if seq else z3.IntVal(0)
        for k,hit in enumerate(hits):
            out+=[(f"children {k}: nothing unless reached",lambda M,hit=hit:z3.Implies(z3.Not(hit(M)),z3.And(d(M)==0,pd(M)==0))),(f"children {k}: at most once",lambda M,hit=hit:z3.And(d(M)>=0,pd(M)>=0,d(M)+pd(M)<=1)),
                (f"children {k}: once when reached",lambda M,hit=hit:z3.Implies(z3.And(hit(M),z3.Or(T.alpha!=INF,T.chain(l1))),d(M)+pd(M)==1))]
        if seq: out.append(("stored for a level where it can be decided",lambda M:z3.Implies(pd(M)==1,z3.And(T.fpl<=T.p,z3.Implies(T.chain(l1),T.chain(T.fpl))))))
        return out
    def curlevels(T,L):
        """levels whose list the loop may go through: that of the call, or the one that an enclosing loop over levels is at"""
        l=getattr(T,"level",None)
        if l is None: return []
        outs=[K_ for (F_,h_,K_,en) in L.outer if F_ is L.F]
        return [("",l)] if not outs else [x for K_ in outs for x in(("",z3.simplify(l+K_)),(" (levels downwards)",z3.simplify(T.levels-1-K_)))]
def vecrow(T,E,st,name,count):
    """a vector<vector<unsigned>>: an array of 24-byte vectors"""
    r=E.new_arr(st,name,24,{},count); o=E.new_obj(st,name+".vector"); o.readonly=True; st.mem[o.id][(0,8)]=P(r,0); st.mem[o.id][(8,8)]=P(r,z3.simplify(24*toZ(count))); return r,o
def h_push(T,rows):
    """push_back(b) on row r of parallel_calls is a promise of the call visitCellPair(FIRST(fpl)+r,b,fpl) that generateEdges makes later"""
    def h(eng,st,a,inst):
        if a[0].r is not rows: raise Unsupported("push_back on another vector")
        row,fo=eng.split_off(st,rows,a[0].o,0)
        row=toZ(row)
        fpl=T.fpl; eng.oblige(st,"the call is stored in a row that exists",z3.And(row>=0,row<T.FIRST(z3.simplify(fpl+1))-T.FIRST(fpl)),"pre")
        t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4; b=toZ(eng.wrapu(st,eng.load(st,a[1],t)))
        A_=z3.simplify(T.FIRST(fpl)+row)
        for nm,g in T.pre_visit(A_,b,fpl): eng.oblige(st,"stored call: "+nm,g,"pre")
        T.add(eng,st,"pend",z3.And(fpl<=T.p,T.match(A_,b,fpl))); return UNDEF
    return h
def seq_post(T,x,y,l,c_,pd):
    full=T.inc_visit(x,y,l); return [z3.Implies(full,z3.And(0<=c_,0<=pd,c_+pd<=1)),z3.Implies(z3.Not(full),z3.And(c_==0,pd==0)),z3.Implies(z3.And(full,z3.Or(T.alpha!=INF,T.chain(l))),c_+pd==1),z3.Implies(pd==1,z3.And(T.fpl<=T.p,z3.Implies(T.chain(l),T.chain(T.fpl))))]
def h_seq(T,rowsobj):
    def h(eng,st,a,inst):
        x,y,l,f=[toZ(eng.wrapu(st,v)) for v in a[1:5]]; T.lev(st,l); T.chainfacts(st,l)
        for nm,g in T.pre_visit(x,y,l)+[("above the first parallel level",l<f),("same first parallel level",f==T.fpl)]: eng.oblige(st,"call of the sequential start: "+nm,g,"pre")
        if a[5].r is not rowsobj: raise Unsupported("another vector of calls")
        for nm,g in T.measure(l): eng.oblige(st,"recursive call: "+nm,g,"measure")
        d=z3.Int(eng.name("d")); pd=z3.Int(eng.name("pd")); st.pc+=seq_post(T,x,y,l,d,pd)
        for g,v in(("cnt",d),("pend",pd)): st.g[g]=z3.simplify(st.g[g]+v); eng.note_write(("g",g))
        return UNDEF
    return h
def seq_args(T,E,st,args):
    """extra state of visitCellPair_sequentialStart"""
    T.fpl=z3.Int("fpl"); T.lev(st,T.fpl); st.pc+=[T.level<T.fpl,T.fpl<=31//T.D]
    T.rows,T.rowsobj=vecrow(T,E,st,"parallel_calls",z3.simplify(T.FIRST(z3.simplify(T.fpl+1))-T.FIRST(T.fpl))); st.g["pend"]=z3.Int("pend0")
    E.C["std::vector::push_back"]=h_push(T,T.rows); E.C[S+"visitCellPair_sequentialStart"]=h_seq(T,T.rowsobj)
    return args+[I(32,T.fpl,0,31),P(T.rowsobj,0)]
def visit_cases(c,D,fn="visitCellPair",seq=False,only=None):
    """loops over children are cut at invariants; if that does not settle everything, they are unrolled (their trip count is a constant of the code)"""
    n=len(c.results)
    try: visit_cases_(c,D,fn,seq,only,True); err=None
    except Unsupported as e: err=e
    if (err or any(r["status"]!="proved" for r in c.results[n:])) and D<=3:
        first=c.results[n:]; del c.results[n:]
        try: visit_cases_(c,D,fn,seq,only,False)
        except Unsupported:
            if err: raise
            c.results[n:]=first
    elif err: raise err
def visit_cases_(c,D,fn,seq,only,cut):
    """run the body of visitCellPair (or _sequentialStart) from its precondition, in all cases of equal/different cells, matching/swapped/other, last level or not"""
    m=c.load(tu(D),keepfn); q=S+fn; F=c.fn(m,q)
    for same in(True,False):
        for mt in("match","swapped","other"):
            if same and mt=="swapped": continue
            for last in(False,True):
                if only is not None and (same,mt,last) not in only: continue
                E=Engine(m,name=q); st=State(); T=Tree(c,D,E,m,st); l=T.level=z3.Int("level"); T.lev(st,l); T.chainfacts(st,l); T.chainfacts(st,z3.simplify(l+1))
                st.pc+=[l>=0,l<T.levels,(l==T.levels-1) if last else (l<T.levels-1)]
                hi=(1<<32)-2 if last else ((1<<32)-2-T.C)//T.C
                if mt=="match": x,y=T.CU(l),(T.CU(l) if same else T.CV(l))
                elif mt=="swapped": x,y=T.CV(l),T.CU(l)
                else: x=z3.Int("cellA"); y=x if same else z3.Int("cellB")
                if mt=="match" and same: st.pc.append(T.CU(l)==T.CV(l))
                if not same: st.pc.append(z3.simplify(z3.Not(x==y)))
                if mt=="other": st.pc+=[z3.Not(T.match(x,y,l))]
                st.pc+=[g for _,g in T.pre_visit(x,y,l)]+[x>=0,y>=0,x<=hi,y<=hi]; T.parents=(x,y)
                if mt=="match" and same: st.pc.append(z3.Implies(T.iu==T.iv,True))
                E.templates=T.templates(); E.cut_const=cut; E.C={H+"touching":T.h_touching,H+"firstCellOfLevel":T.h_first,H+"numCellsInLevel":T.h_num,S+"sampleTypeI":T.h_sample("sampleTypeI"),S+"sampleTypeII":T.h_sample("sampleTypeII"),S+"visitCellPair":T.h_visit}
                T.measure=lambda lc: [("the level grows (termination)",z3.And(lc>l))]
                args=[P(T.this,0),I(32,x,0,hi),I(32,y,0,hi),I(32,l,0,30)]
                if seq: args=seq(T,E,st,args)
                tag=f"D={D}, {'A==B' if same else 'A!=B'}, {mt}, {'last level' if last else 'inner level'}"
                out=E.run_fn(F,args,st); c.cover(q,tag,[z3.BoolVal(bool(out))])
                for s,v in out:
                    d=s.g["cnt"]-z3.Int("cnt0")
                    if seq:
                        for g,nm in zip(seq_post(T,x,y,l,d,s.g["pend"]-z3.Int("pend0")),("decided or stored at most once","neither decided nor stored if it is another pair","decided or stored exactly once","stored for a level where it can still be decided")): E.oblige(s,f"the pair is {nm} ({tag})",g,assume=False)
                        continue
                    for g,nm in zip(T.visited(x,y,l,d),("at most once","not if it is another pair","exactly once")): E.oblige(s,f"the pair is decided {nm} ({tag})",g,assume=False)
                c.discharge(E,dict(D=D,level=l,levels=T.levels,p=T.p))
from vlib import rt
def gen_edges(c,D,extra=None):
    """generateEdges: the sequential case and the parallel case, for every thread count"""
    m=c.load(tu(D),keepfn); q=S+"generateEdges"; F=c.fn(m,q)
    E=Engine(m,name=q); st=State(); T=Tree(c,D,E,m,st); z=z3.IntVal(0); T.level=z; T.lev(st,z); T.chainfacts(st,z); T.parents=()
    st.g["pend"]=z; tn=z3.Int("omp_threads"); st.pc+=[tn>=1,tn<=(1<<20)]
    o=T.off["m_gens"]; seed=z3.Int("seed"); st.pc+=[seed>=-(1<<31),seed<(1<<31)-(1<<20)]
    rt.omp(E,tn); rt.random(E)
    lg=lambda x: rfun("log2",1)(x)
    def mfacts(eng,st,name,xs,r):
        if name!="log2": return
        X=xs[0]; st.pc+=[z3.Implies(X>=(1<<k),r>=k) for k in range(0,25)]+[z3.Implies(X<=(1<<k),r<=k) for k in range(0,25)]
    rt.libm(E,mfacts)
    T.ngens=z3.Int("ngens")
    def resize(eng,st,a,inst):
        if a[0].r is not T.this or conc(toZ(a[0].o))!=o: raise Unsupported("resize of another vector")
        n=toZ(eng.wrapu(st,a[1])); st.pc+=[T.gens.length==n] if hasattr(T.gens,"length") else []
        st.mem[T.this.id][(o,8)]=P(T.gens,0); st.mem[T.this.id][(o+8,8)]=P(T.gens,z3.simplify(const(m,"size_gen")*n)); st.g["ngens"]=n; return UNDEF
    def seedh(eng,st,a,inst):
        p,x=a[0],toZ(eng.wrapu(st,a[1]))
        if p.r is not T.gens: raise Unsupported("seeding another generator")
        idx=eng.idxval(st,p) if False else z3.simplify(toZ(p.o)/const(m,"size_gen"))
        eng.oblige(st,"a generator that exists is seeded",z3.And(idx>=0,idx<st.g["ngens"],idx*const(m,"size_gen")==toZ(p.o)),"pre")
        if extra: extra("seed",eng,st,(idx,x,seed,tn))
        return UNDEF
    def vec(eng,st,a,inst):
        n=toZ(eng.wrapu(st,a[1])); st.mem[a[0].r.id][(0,8)]=P(T.rows,0); st.mem[a[0].r.id][(8,8)]=P(T.rows,z3.simplify(24*n)); st.pc.append(z3.Int("nrows")==n); T.rowsobj=a[0].r; return UNDEF
    ROW=UF("ROW",IS(),IS(),IS()); RL=UF("ROWLEN",IS(),IS()); r0,k0,pend=z3.Ints("r0 k0 pend"); rowreg={}
    def rowview(eng,st,idx):
        idx=z3.simplify(toZ(idx)); k=idx.sexpr()
        if k not in rowreg:
            r=Region("row[%s]"%k,"arr",4,{0:("int",32)},"row",idx); r.readonly=True; rowreg[k]=r
            def f(e,s,j,v):
                b=v if isinstance(v,I) else v; bt=toZ(e.wrapu(s,v)) if not isinstance(v,z3.ExprRef) else v; j=toZ(j); A_=z3.simplify(T.FIRST(T.fpl)+idx)
                s.pc+=[ROW(idx,j)==bt]+[g for _,g in T.pre_visit(A_,ROW(idx,j),T.fpl)]
                s.pc.append(z3.And(T.fpl<=T.p,T.match(A_,ROW(idx,j),T.fpl))==z3.And(s.g["pend"]==1,idx==r0,j==k0))
            r.hooks[0]=[f]
        r=rowreg[k]
        if r.id not in st.mem:
            a=z3.Array("row_"+k,IS(),IS()); st.mem[r.id]={0:a,"len":RL(idx)}; st.pc+=[RL(idx)>=0,RL(idx)<(1<<32),z3.Implies(z3.And(st.g["pend"]==1,idx==r0),k0<RL(idx))]
        return r
    T.rows=E.new_arr(st,"parallel_calls",24,{0:("fn",lambda e,s,i:P(rowview(e,s,i),0)),8:("fn",lambda e,s,i:P(rowview(e,s,i),z3.simplify(4*RL(z3.simplify(toZ(i))))))},z3.Int("nrows"))
    T.fpl=z3.Int("fpl"); T.rowsobj=None
    def seqh(eng,st,a,inst):
        f=toZ(eng.wrapu(st,a[4])); st.pc.append(T.fpl==f); T.lev(st,T.fpl); st.pc+=[z3.Implies(T.fpl<=k,T.FIRST(z3.simplify(T.fpl+1))<=first(D,k+1)) for k in range(0,31//D+1)]
        eng.oblige(st,"there is a row for every cell of the first parallel level",z3.Int("nrows")==T.FIRST(z3.simplify(T.fpl+1))-T.FIRST(T.fpl),"pre")
        T.measure=lambda l:[]
        r=h_seq(T,T.rowsobj)(eng,st,a,inst)
        st.pc+=[0<=r0,r0<z3.Int("nrows"),0<=k0,k0<RL(r0)] ; T.chainfacts(st,T.fpl); return r
    def tpl(L):
        out=[]; pd=lambda M:M.st.g["pend"]==1
        for pid in [p_.id for p_,v in L.phis(I)]:
            hit=lambda M,pid=pid: z3.And(pd(M),r0<toZ(M.st.env[pid].t))
            out+=inv(hit)
        for p_,v in L.phis(P):
            if v.r is not None and v.r.fam=="row":
                hit=lambda M,i=v.r.key: z3.And(pd(M),i==r0,k0<M.K); out+=inv(hit)
        return out
    def inv(hit):
        d=lambda M:M.st.g["cnt"]-M.entry.g["cnt"]
        return [("nothing decided unless the stored call of the pair was made",lambda M:z3.Implies(z3.Not(hit(M)),d(M)==0)),("at most one decision",lambda M:z3.And(d(M)>=0,d(M)<=1)),
            ("decided once the stored call was made",lambda M:z3.Implies(z3.And(hit(M),z3.Or(T.alpha!=INF,T.chain(T.fpl))),d(M)==1))]
    E.templates=tpl; noop=lambda e,s,a,i:UNDEF
    E.C.update({H+"touching":T.h_touching,H+"firstCellOfLevel":T.h_first,H+"numCellsInLevel":T.h_num,S+"visitCellPair":T.h_visit,S+"visitCellPair_sequentialStart":seqh,"std::vector::resize":resize,"std::mersenne_twister_engine::seed":seedh,"std::vector::vector":vec,"std::vector::~vector":noop})
    if extra: extra("init",E,st,T)
    out=E.run_fn(F,[P(T.this,0),I(32,seed,-(1<<31),(1<<31)-1)],st); c.cover(q,f"D={D}",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,f"D={D} a path to the end",s.pc)
        d=s.g["cnt"]-z3.Int("cnt0")
        for g,nm in zip(T.visited(z,z,z,d),("at most once","not if it is another pair","exactly once")):
            if "another" not in nm: E.oblige(s,f"over the whole run the pair is decided {nm} (D={D})",g,assume=False)
        if extra: extra("end",E,s,T)
    c.discharge(E,dict(D=D,threads=tn,levels=T.levels,p=T.p,fpl=T.fpl))
